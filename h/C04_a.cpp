#include "c04.hpp"
// two covariates recorded side by side in one set
static void two_immediate()
{
    typedef accumulator_set<double, stats<tag::mean_of_variates<double, tag::covariate1>(immediate), tag::mean_of_variates<double, tag::covariate2>(immediate) > > set;
    mc::fresh<set> f; set &a = f.make();
    double const V[] = {0., 1., -3.};
    ref::ld s1 = 0, s2 = 0; int D = mc::depth(4, 5);
    for (int i = 0; i < D; ++i) {
        double x = mc::pick(V), y = mc::pick(V);
        a(1., covariate1 = x, covariate2 = y * 10);
        s1 += x; s2 += y * 10;
        mc::check_near("mean of covariate1", mean_of_variates<double, tag::covariate1>(a), s1 / (i + 1), 1e-12);
        mc::check_near("mean of covariate2", mean_of_variates<double, tag::covariate2>(a), s2 / (i + 1), 1e-12);
        mc::step();
    }
}
static void two_lazy()
{
    typedef accumulator_set<double, stats<tag::mean_of_variates<double, tag::covariate1>, tag::mean_of_variates<double, tag::covariate2> > > set;
    mc::fresh<set> f; set &a = f.make();
    double const V[] = {1., -3.};
    ref::ld s1 = 0, s2 = 0; int D = 3;
    for (int i = 0; i < D; ++i) {
        double x = mc::pick(V), y = mc::pick(V) * 10;
        a(1., covariate1 = x, covariate2 = y); s1 += x; s2 += y;
        double m1 = mean_of_variates<double, tag::covariate1>(a), m2 = mean_of_variates<double, tag::covariate2>(a);
        bool ok1 = std::fabs(m1 - s1 / (i + 1)) < 1e-12, ok2 = std::fabs(m2 - s2 / (i + 1)) < 1e-12;
        bool swap1 = std::fabs(m1 - s2 / (i + 1)) < 1e-12, swap2 = std::fabs(m2 - s1 / (i + 1)) < 1e-12;
        mc::observe(m1); mc::observe(m2); mc::step();
        if ((ok1 && !ok2 && swap2) || (ok2 && !ok1 && swap1)) mc::known("two-covariates-lazy");
        else if (!(ok1 && ok2)) mc::fail("means of two covariates: %g %g, expected %g %g", m1, m2, (double)(s1 / (i + 1)), (double)(s2 / (i + 1)));
    }
}
MC_REGISTER {
    mc::add_config("scalar x scalar", [] { run<double, double, false>(values<double>(), values<double>(), 4, 5); }, 4);
    mc::add_config("two covariates, immediate means", two_immediate);
    mc::add_config("two covariates, lazy means", two_lazy);
    mc::add_config("long histories", [] {
        typedef accumulator_set<double, stats<tag::covariance<double, tag::covariate1> > > set;
        mc::fresh<set> f; set &a = f.make();
        double const V[] = {0., 1., -2.5, 40.};
        int L = 1 + mc::choose(2); std::vector<std::pair<double, double> > word;
        for (int i = 0; i < L; ++i) { double x = mc::pick(V), y = mc::pick(V); word.push_back({x, y}); }
        ref::ld sx = 0, sy = 0, sxy = 0;
        for (int i = 0; i < 1000; ++i) {
            auto p = word[i % L]; a(p.first, covariate1 = p.second + i % 7);
            ref::ld y = p.second + i % 7; sx += p.first; sy += y; sxy += p.first * y;
            ref::ld n = i + 1, c = sxy / n - sx / n * (sy / n);
            if (std::fabs(covariance(a) - c) > 1e-8) mc::fail("covariance after %d samples: %g, expected %g", i + 1, covariance(a), (double)c);
        }
        mc::observe(covariance(a)); mc::step();
    });
}
