#include "explore.hpp"
#include <algorithm>
#include <chrono>
#include <exception>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {
namespace {
struct config { std::string name; std::function<void()> body; int parts; };
std::vector<config> &configs() { static std::vector<config> v; return v; }

struct point { int pick, n; };
std::vector<point> path;      // current vector; beyond `pos` it is the replayed prefix
std::size_t pos = 0;
bool deep = false, talk = false, replaying = false;
int part_i = 0, part_k = 1;
const std::size_t part_depth = 4;
std::uint64_t h = 0, cfg_hash = 0, exec_hash = 0;
std::unordered_set<std::uint64_t> states;
bool states_capped = false;
unsigned long undecided = 0;
std::uint64_t transitions = 0, executions = 0, max_len = 0;
std::vector<std::string> sample_notes;
int *cur = nullptr;           // shared memory: the choices of the running execution
const std::size_t cur_cap = 4096;
std::vector<std::string> log_;
bool collect = false;

std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdull; a ^= a >> 32;
    return a;
}
std::uint64_t fnv(void const *p, std::size_t n, std::uint64_t s)
{
    unsigned char const *c = (unsigned char const *)p;
    for (std::size_t i = 0; i < n; ++i) { s ^= c[i]; s *= 1099511628211ull; }
    return s;
}
bool mine()
{
    std::uint64_t x = 1234567;
    for (std::size_t i = 0; i < path.size() && i < part_depth; ++i) x = mix(x, (std::uint64_t)path[i].pick + 1);
    return (int)((x >> 17) % (std::uint64_t)part_k) == part_i;
}
} // namespace

void add_config(std::string const &name, std::function<void()> body, int parts)
{
    for (auto &c : configs()) if (c.name == name) { std::fprintf(stderr, "duplicate config %s\n", name.c_str()); std::abort(); }
    configs().push_back({name, std::move(body), parts});
}
bool thorough() { return deep; }
bool verbose() { return talk || collect; }
int choose(int n)
{
    if (n <= 0) { std::fprintf(stderr, "choose(%d)\n", n); std::abort(); }
    if (pos < path.size()) {
        if (path[pos].n == -1) path[pos].n = n;
        if (path[pos].n != n || path[pos].pick >= n) {
            std::fprintf(stderr, "DIVERGENCE at choice %zu: %d alternatives, %d before\n", pos, n, path[pos].n);
            std::_Exit(77);
        }
    } else {
        path.push_back({0, n});
    }
    if (cur) { if (pos < cur_cap) cur[1 + pos] = path[pos].pick; cur[0] = (int)(pos + 1); }
    ++pos;
    if (!replaying && part_k > 1 && pos == part_depth && !mine()) throw skip_subtree();
    return path[pos - 1].pick;
}
void note(char const *fmt, ...)
{
    if (!verbose()) return;
    char b[2048];
    va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (talk) { std::printf("%s\n", b); std::fflush(stdout); }
    if (collect && log_.size() < 400) log_.push_back(b);
}
void hash_bytes(void const *p, std::size_t n) { h = fnv(p, n, h); }
void step()
{
    ++transitions;
    std::uint64_t s = mix(cfg_hash, h);
    exec_hash = mix(exec_hash, s);
    if (states.size() < 3000000) states.insert(s); else states_capped = true;
    h = 14695981039346656037ull;
}
void fail(char const *fmt, ...)
{
    char b[4096];
    va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw violation{b};
}
static std::vector<std::string> known_ids;
void saturated() { ++undecided; }
void known(char const *id)
{
    for (auto &k : known_ids) if (k == id) return;
    known_ids.push_back(id);
}
std::string str(double v) { char b[64]; std::snprintf(b, sizeof b, "%.12g", v); return b; }
std::string str(long double v) { char b[64]; std::snprintf(b, sizeof b, "%.12Lg", v); return b; }
} // namespace mc

using namespace mc;

static std::string js(std::string const &s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// returns: 0 ok, 1 violation (msg), 2 skipped
static int run_once(std::function<void()> const &body, std::string &msg)
{
    pos = 0; h = 14695981039346656037ull; exec_hash = 0;
    if (cur) cur[0] = 0;
    try { body(); }
    catch (skip_subtree const &) { return 2; }
    catch (violation const &v) { msg = v.msg; return 1; }
    catch (std::exception const &e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
    catch (...) { msg = "unexpected exception of unknown type"; return 1; }
    return 0;
}

int main(int argc, char **argv)
{
    std::string run, out, curfile, choices;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (i + 1 >= argc) std::exit(78); return argv[++i]; };
        if (a == "--union") {             // number of distinct states in several files
            std::vector<std::uint64_t> v;
            for (++i; i < argc; ++i) {
                FILE *f = std::fopen(argv[i], "rb");
                if (!f) continue;
                std::uint64_t b[4096]; std::size_t n;
                while ((n = std::fread(b, 8, 4096, f)) > 0) v.insert(v.end(), b, b + n);
                std::fclose(f);
            }
            std::sort(v.begin(), v.end());
            std::printf("%zu\n", (std::size_t)(std::unique(v.begin(), v.end()) - v.begin()));
            return 0;
        }
        if (a == "--list") list = true;
        else if (a == "--tier") deep = val() == "thorough";
        else if (a == "--run") run = val();
        else if (a == "--part") { std::string p = val(); std::sscanf(p.c_str(), "%d/%d", &part_i, &part_k); }
        else if (a == "--out") out = val();
        else if (a == "--cur") curfile = val();
        else if (a == "--replay") { replaying = true; choices = val(); }
        else if (a == "--verbose") talk = true;
        else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 78; }
    }
    if (list) { for (auto &c : configs()) std::printf("%d %s\n", c.parts, c.name.c_str()); return 0; }
    config const *c = nullptr;
    for (auto &k : configs()) if (k.name == run) c = &k;
    if (!c) { std::fprintf(stderr, "no config %s\n", run.c_str()); return 78; }
    if (!curfile.empty()) {
        int fd = ::open(curfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ::ftruncate(fd, (cur_cap + 1) * sizeof(int))) return 78;
        cur = (int *)::mmap(nullptr, (cur_cap + 1) * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        if (cur == MAP_FAILED) return 78;
    }
    cfg_hash = fnv(c->name.data(), c->name.size(), 7);
    std::string msg;
    if (replaying) {
        for (char *p = &choices[0]; *p; ) { char *e; long v = std::strtol(p, &e, 10); path.push_back({(int)v, -1}); p = *e ? e + 1 : e; }
        int r = run_once(c->body, msg);
        if (r == 1) { std::printf("REPLAY VIOLATION: %s\n", msg.c_str()); return 1; }
        std::printf("REPLAY OK\n");
        return 0;
    }
    // Determinism: the first execution twice, same observations.
    int part_k_save = part_k; part_k = 1;
    int r0 = run_once(c->body, msg); std::uint64_t e0 = exec_hash; std::vector<point> p0 = path;
    if (r0 == 0) {
        path = p0;
        run_once(c->body, msg);
        if (exec_hash != e0) { std::fprintf(stderr, "NONDETERMINISTIC first execution of %s\n", run.c_str()); std::printf("NONDET\n"); }
    }
    path.clear(); transitions = 0; states.clear(); part_k = part_k_save;

    std::uint64_t sample_at = 1; int samples_taken = 0;
    std::string sample_json = "[";
    bool bad = false;
    for (;;) {
        bool want_sample = samples_taken < 3 && executions + 1 >= sample_at;
        collect = want_sample; log_.clear();
        int r = run_once(c->body, msg);
        bool counted = !(r == 0 && part_k > 1 && pos < part_depth && part_i != 0);
        if (r != 2 && counted) {
            ++executions;
            if (pos > max_len) max_len = pos;
            if (want_sample && r == 0) {
                if (samples_taken) sample_json += ",";
                sample_json += "{\"config\":" + js(c->name) + ",\"choices\":[";
                for (std::size_t i = 0; i < pos; ++i) sample_json += (i ? "," : "") + std::to_string(path[i].pick);
                sample_json += "],\"trace\":[";
                std::size_t lim = std::min<std::size_t>(log_.size(), 40);
                for (std::size_t i = 0; i < lim; ++i) sample_json += (i ? "," : "") + js(log_[i]);
                sample_json += "]}";
                ++samples_taken; sample_at = executions * 37 + 11;
            }
        }
        if (r == 1) { bad = true; break; }
        path.resize(pos);                 // choices beyond the end of this execution do not exist
        while (!path.empty() && path.back().pick + 1 >= path.back().n) path.pop_back();
        if (path.empty()) break;
        ++path.back().pick;
    }
    sample_json += "]";
    std::string j = "{\"config\":" + js(c->name) + ",\"part\":\"" + std::to_string(part_i) + "/" + std::to_string(part_k) + "\"";
    j += ",\"executions\":" + std::to_string(executions) + ",\"transitions\":" + std::to_string(transitions);
    j += ",\"states\":" + std::to_string(states.size()) + ",\"states_capped\":" + (states_capped ? "true" : "false");
    j += ",\"max_choices\":" + std::to_string(max_len) + ",\"complete\":" + (bad ? "false" : "true");
    if (bad) {
        j += ",\"violation\":{\"message\":" + js(msg) + ",\"choices\":[";
        for (std::size_t i = 0; i < pos; ++i) j += (i ? "," : "") + std::to_string(path[i].pick);
        j += "]}";
    }
    j += ",\"undecided\":" + std::to_string(undecided);
    j += ",\"known\":[";
    for (std::size_t i = 0; i < known_ids.size(); ++i) j += (i ? "," : "") + js(known_ids[i]);
    j += "]";
    j += ",\"samples\":" + sample_json + "}\n";
    if (out.empty()) std::fputs(j.c_str(), stdout);
    else {
        FILE *f = std::fopen((out + ".tmp").c_str(), "w");
        if (!f) return 78;
        std::fputs(j.c_str(), f); std::fclose(f);
        if (states.size() && !out.empty()) {   // distinct states are united over the parts by the driver
            FILE *g = std::fopen((out + ".states").c_str(), "wb");
            std::vector<std::uint64_t> v(states.begin(), states.end());
            if (g) { std::fwrite(v.data(), 8, v.size(), g); std::fclose(g); }
        }
        std::rename((out + ".tmp").c_str(), out.c_str());
    }
    return bad ? 1 : 0;
}
