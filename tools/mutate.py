#!/usr/bin/env python3
"""Development tool: systematic mutants of one header, judged by the checks that are about it (and, where these miss one, by the
repository's tests).   mutate.py FILE-PREFIX ... > log        (never used by a check)"""
import sys, os, re, json, shutil, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
INC = '/repo/include/boost/accumulators/'
MAP = [('peaks', 'C15'), ('pot_', 'C15'), ('statistics/count', 'C01'), ('statistics/min', 'C01'), ('statistics/max', 'C01'), ('statistics/sum.hpp', 'C01 C04'),
       ('statistics/weighted_sum.hpp', 'C03 C01 C04'), ('kahan', 'C05'), ('statistics/mean', 'C02 C04'), ('statistics/moment', 'C02'), ('statistics/variance', 'C02'),
       ('statistics/skewness', 'C02'), ('statistics/kurtosis', 'C02'), ('error_of', 'C02 C03'), ('weighted_mean', 'C03 C04'),
       ('weighted_moment', 'C03'), ('weighted_variance', 'C03'), ('weighted_skewness', 'C03'), ('weighted_kurtosis', 'C03'),
       ('covariance', 'C04'), ('rolling_window', 'C06 C07'), ('rolling_count', 'C06 C07'), ('rolling_sum', 'C06'),
       ('rolling_', 'C07'), ('statistics/tail.hpp', 'C08 C17'), ('tail_variate.hpp', 'C08'), ('weighted_tail', 'C09'), ('tail_', 'C09'),
       ('weighted_p_square', 'C11'), ('weighted_extended', 'C11 C12'), ('extended_p_square_quantile', 'C12'), ('extended_p_square', 'C10'), ('p_square', 'C10'),
       ('times2', 'C10'), ('density', 'C13'), ('median', 'C14 C10 C11'), 
       ('droppable', 'C19'), ('depends_on', 'C20 C19'), ('accumulator_set', 'C22 C19 C17'), ('external', 'C21'), ('reference', 'C21'), ('value', 'C21'),
       ('extractor', 'C22 C21'), ('features', 'C20 C22'), ('numeric/functional/', 'C24 C23'), ('numeric/functional.hpp', 'C24 C23'), ('with_error', 'C20'), ('stats', 'C20')]
OPS = [(r'<=', '<'), (r'(?<![<\-])>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=[\w\)\]] )\+(?= [\w\(])', '-'), (r'(?<=[\w\)\]] )-(?= [\w\(])', '+'), (r'(?<=[\w\)\]] )\*(?= [\w\(])', '/'), (r'(?<=[\w\)\]] )/(?= [\w\(])', '*'),
       (r'\+=', '-='), (r'-=', '+='), (r'\+\+(?=\w|\()', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'(?<=[\w\)\]] )<(?= [\w\(])', '<='), (r'(?<=[\w\)\]] )>(?= [\w\(])', '>='), (r'(?<=[\w\)\]] )<(?= [\w\(])', '>'), (r'(?<=[\w\)\]] )>(?= [\w\(])', '<'),
       (r'(?<![\w.])1\.', '2.'), (r'(?<![\w.])0\.5', '0.25'), (r'(?<![\w.])2\.', '3.'), (r'(?<![\w.\(<_])1(?![\w.])', '0'), (r'(?<![\w.\(<_])1(?![\w.])', '2'),
       (r'(?<![\w.])0(?![\w.x])', '1'), (r'\bupper_bound\b', 'lower_bound'), (r'\blower_bound\b', 'upper_bound'), (r'\bleft\b(?=>::value)', 'right'), (r'\bbegin\(\)', 'end()'), (r'\bfront\(\)', 'back()'),
       (r'(?<!ar )(?<!&)& (?=\w+;)', None), (r'\bmin\)\(', 'max)('), (r'\bmax\)\(', 'min)(')]
SKIP = re.compile(r'^\s*(//|\*|#|@|\\|typedef|template|struct|namespace|using|BOOST_MPL|BOOST_ACC|BOOST_PAR|msg|std::ostr)')


def mutants(path):
    L = open(path).read().split('\n')
    comment = False
    for i, l in enumerate(L):
        if '/*' in l:
            comment = True
        if comment or SKIP.match(l):
            if '*/' in l:
                comment = False
            continue
        code = l.split('//')[0]
        seen = set()
        for rx, to in OPS:
            if to is None:
                continue
            for m in re.finditer(rx, code):
                n = code[:m.start()] + to + code[m.end():]
                if n not in seen and n != code:
                    seen.add(n)
                    yield i, l, n
        if re.match(r'^\s*(this->|ar & |\+\+|--|std::|\w+\(|mean_|sum_)[^;]*;\s*$', code) and 'return' not in code:
            yield i, l, re.match(r'^\s*', code).group(0) + ';'


def main():
    for pre in sys.argv[1:]:
        for f in sorted(glob.glob(INC + '**/*.hpp', recursive=True)):
            rel = f[len(INC):]
            if not re.match(pre, rel):
                continue
            checks = next((c.split() for k, c in MAP if k in rel), None)
            if not checks:
                print('## no check for', rel); continue
            L = open(f).read().split('\n')
            for k, (i, old, new) in enumerate(mutants(f)):
                if k % int(os.environ.get('STEP', '1')) != int(os.environ.get('OFF', '0')):
                    continue
                cs = ['C18'] if re.match(r'\s*ar & ', old) else checks
                tree = seed.copy()
                try:
                    M = list(L); M[i] = new
                    p = tree + '/include/boost/accumulators/' + rel
                    open(p, 'w').write('\n'.join(M))
                    verdict = 'MISSED'
                    for c in cs:
                        rc, msg = seed.judge(c, tree)
                        if rc == 1:
                            verdict = 'nocompile' if 'no longer compiles' in msg else 'caught ' + c
                            break
                        if rc != 0:
                            verdict = f'ERROR {c} {rc} {msg}'
                    if verdict == 'MISSED' or 'ERROR' in verdict:
                        fails, n = seed.tests(tree, ['include/boost/accumulators/' + rel])
                        verdict += ' (tests fail)' if fails else ' TESTS PASS'
                    print(f'{verdict:24} {rel}:{i+1}: {old.strip()}  =>  {new.strip()}', flush=True)
                finally:
                    shutil.rmtree(tree)


main()
