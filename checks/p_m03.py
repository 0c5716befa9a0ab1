"""M03: memory cleaning is in force in the Python extension, the Go package and the command-line tools."""
import os
import random
import shutil
import struct
import sys
import tempfile

from core import Check, Violation, HarnessError, Driver, VERIF, cached_build, sh, load_known
from pmodel import Pool
from p_y import Y01, Y02, py_ext, py_env
from p_o import O01, O02, go_ext, go_env
from p_x import X01, X02, cli_tools

SUB = {'Y01': Y01(), 'Y02': Y02(), 'O01': O01(), 'O02': O02(), 'X01': X01(), 'X02': X02()}


def wipe_so():
    src = os.path.join(VERIF, 'drivers', 'wipe.c')

    def build(d):
        sh(['gcc', '-O2', '-shared', '-fPIC', '-w', '-o', os.path.join(d, 'wipe.so'), src, '-Wl,--no-as-needed', '-lgmp', '-ldl'])
    return os.path.join(cached_build('wipe', [src], [], build), 'wipe.so')


class M03(Check):
    pid = 'M03'
    rule = ('a case is a Python program, a history of Go calls or a chain of command-line tool runs (generated as for Y01, Y02, O01, O02, X01 and X02: fields, '
            'points, keys, signatures, encryption), executed in a process in which the allocator and the installation of memory functions are '
            'intercepted: every block the big-number layer hands back is scanned byte by byte over its whole usable size at that moment and must be '
            'zero, from the first one in the process on; results are compared as in those checks; non-trivial: at least 20 blocks were handed back')
    variants = ['plain']
    pool_args = dict(ntoy=16, nbig=6)
    cases = {'quick': 2000, 'thorough': 60000}
    budget = {'quick': 80, 'thorough': 1200}
    restart_every = 15
    nondet = True
    assumptions = ['buffers the language runtimes and the tools allocate themselves (strings, file contents) are not part of the big-number layer']

    def setup(self, tier):
        return {'ext': {'plain': py_ext('plain')}, 'go': {'plain': go_ext('plain')}, 'cli': {'plain': cli_tools('plain')}, 'wipe': wipe_so()}

    def worker_init(self, env):
        env['dir'] = tempfile.mkdtemp(prefix='m03-')
        env['stat'] = os.path.join(env['dir'], 'stat')
        with open(env['stat'], 'wb') as f:
            f.write(bytes(4096))
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'], **self.pool_args)
        b = env['built']
        pre = {'LD_PRELOAD': b['wipe'], 'WIPE_STAT': env['stat']}
        env['py'] = Driver([sys.executable, '-I', os.path.join(VERIF, 'drivers', 'pydrv.py'), b['ext']['plain']], timeout=30,
                           env=dict(py_env('plain', b['ext']['plain']), **pre))
        env['gd'] = Driver([b['go']['plain'], '20'], timeout=40, env=dict(go_env('plain'), **pre))
        env['tool_env'] = pre

    def worker_done(self, env):
        for k in ('py', 'gd'):
            if k in env:
                env[k].stop()
        if 'dir' in env:
            shutil.rmtree(env['dir'], ignore_errors=True)

    def sub(self, via, env):
        e = dict(env)
        e['known'] = load_known(via)           # of the check whose cases are run
        e['drv'] = env['py'] if via[0] == 'Y' else env['gd'] if via[0] == 'O' else None
        return e

    def gen(self, rng, env):
        via = rng.choice(['Y01', 'Y01', 'Y02', 'Y02', 'O01', 'O01', 'O02', 'O02', 'X01', 'X02'])
        return {'via': via, 'case': SUB[via].gen(rng, self.sub(via, env))}

    def fixed_cases(self, tier, env):
        out = []
        for via in SUB:
            l = SUB[via].fixed_cases(tier, env)
            out += [{'via': via, 'case': c} for c in random.Random(via).sample(l, min(len(l), 6))]
        return out

    def counts(self, env):
        with open(env['stat'], 'rb') as f:
            return struct.unpack('7q', f.read(56))

    def run(self, case, env):
        a = self.counts(env)
        tags = SUB[case['via']].run(case['case'], self.sub(case['via'], env))
        n, dirty, size, off, sets, procs, byts = self.counts(env)
        if procs == 0:
            raise HarnessError('the interceptor was not loaded')
        if dirty:
            raise Violation('%d of %d blocks handed back by the big-number layer still held data (first: usable size %d, first non-zero byte at %d; '
                            'memory functions were installed %d times by %d processes)' % (dirty, n, size, off, sets, procs))
        return {'via-' + case['via']: 1, 'blocks': n - a[0], 'bytes': byts - a[6]}

    def nontrivial(self, case, tags):
        return tags.get('blocks', 0) >= 20

    def shrinks(self, case):
        for c in SUB[case['via']].shrinks(case['case']):
            yield dict(case, case=c)


CHECKS = {'M03': M03}
