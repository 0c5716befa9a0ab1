"""B01: every build configuration computes the same results."""
import random

from core import CCheck
from pmodel import Pool
from p_f import F01, F02
from p_c import C01
from p_p import P01, P02, P03, P04
from p_e import E01, E02
from p_s import S01, S02, S03, G01

SUB = {k.pid: k() for k in (F01, F02, C01, P01, P02, P03, P04, E01, E02, S01, S02, S03, G01)}


class B01(CCheck):
    pid = 'B01'
    rule = ('a case is a case of one of the field, curve, point, table, encoding, signature or encryption checks (F01, F02, C01, P01-P04, E01, E02, S01-S03, G01), run '
            'against the library built in one of the configurations: memory cleaning on or off, gcc at -O0, -Os, -O3 with link-time optimisation for this machine, clang '
            'at -O1 and -O3, Jacobian instead of complete addition formulas, heap instead of stack temporaries, without assertions; every result is '
            'compared with the reference model as there; non-trivial: the rule of the check the case is from')
    variants = ['noclean', 'o0', 'o3lto', 'os', 'clang', 'clangno', 'jac', 'heap', 'ndebug', 'jac']
    workers = 10
    cases = {'quick': 6000, 'thorough': 150000}
    budget = {'quick': 80, 'thorough': 1500}
    restart_every = 200
    mix = ['F01', 'F01', 'F02', 'C01', 'P01', 'P01', 'P01', 'P02', 'P02', 'P03', 'P04', 'E01', 'E02', 'S01', 'S02', 'S03', 'G01']

    def worker_init(self, env):
        super().worker_init(env)
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'], ntoy=40)

    def fixed_cases(self, tier, env):
        out = []
        for via in sorted(SUB):
            l = SUB[via].fixed_cases(tier, env)
            out += [{'via': via, 'case': c} for c in random.Random(via).sample(l, min(len(l), 60 if via[0] == 'P' else 8))]
        return out

    def gen(self, rng, env):
        via = rng.choice(self.mix)
        return {'via': via, 'case': SUB[via].gen(rng, env)}

    def run(self, case, env):
        tags = SUB[case['via']].run(case['case'], env) or {}
        if not isinstance(tags, dict):
            tags = {t: 1 for t in tags}
        return dict(tags, **{'via-' + case['via']: 1, 'config-' + env['variant']: 1})

    def nontrivial(self, case, tags):
        return SUB[case['via']].nontrivial(case['case'], tags)

    def shrinks(self, case):
        for c in SUB[case['via']].shrinks(case['case']):
            yield dict(case, case=c)


CHECKS = {'B01': B01}
