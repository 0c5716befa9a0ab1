#!/usr/bin/env python3
"""tools/mutate.py FILE [--n N] [--seed S] [--jobs J] [--out LOG]: mutation sampling of one file of jadeblaquiere/ecclib.

Each mutant is a one-line change in a private copy of the repository (never in /repo).  The checks of the properties the
file serves run in order until one reports; survivors are printed for inspection (equivalent, caught by the existing
tests, or a gap in the checks).
"""
import argparse, os, random, re, shutil, subprocess, sys, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'src/field.c': 'F01 F02 P01 G01', 'src/ecurve.c': 'C01 C02 P01 E01 M01', 'src/ecpoint.c': 'P01 P02 P03 P04 E01 E02 M01 M02',
    'src/ecdsa.c': 'S01 S02 S03 S04 M01', 'src/ecelgamal.c': 'G01 M01', 'src/mpzurandom.c': 'R01 R02', 'src/safememory.c': 'M02 M01',
    'python/pyfield.c': 'Y01 Y03 Y04', 'python/pycurve.c': 'Y01 Y03 Y04', 'python/pypoint.c': 'Y01 Y03 Y04', 'python/pyecdsa.c': 'Y02 Y03 Y04',
    'python/pyecelgamal.c': 'Y02 Y03 Y04', 'python/pygmplong.c': 'Y01 Y03 Y04',
    'ecgo/field.go': 'O01 O03', 'ecgo/curve.go': 'O01 O03', 'ecgo/point.go': 'O01 O03', 'ecgo/ecdsa.go': 'O02 O03', 'ecgo/ecelgamal.go': 'O02 O03',
}


def mutants(src, go):
    lines = src.split('\n')
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            if '*/' in s:
                incomment = False
            continue
        if s.startswith('/*'):
            incomment = '*/' not in s
            continue
        if not s or s.startswith('//') or s.startswith('#') or 'assert' in s or 'PyErr_SetString' in s or 'printf' in s:
            continue
        out = set()

        def sub(pat, rep):
            for m in re.finditer(pat, l):
                out.add(l[:m.start()] + m.expand(rep) + l[m.end():])
        sub(r'==', '!='); sub(r'!=', '==')
        sub(r' < ', ' <= '); sub(r' <= ', ' < '); sub(r' > ', ' >= '); sub(r' >= ', ' > ')
        sub(r'&&', '||'); sub(r'\|\|', '&&')
        sub(r' \+ 1\b', ''); sub(r' - 1\b', ''); sub(r' \+ ', ' - '); sub(r' - ', ' + ')
        sub(r'\b(\d+)\b', r'(\1+1)')
        sub(r'(mpFp|mpECP|mpz)_add\(', r'\1_sub('); sub(r'(mpFp|mpECP|mpz)_sub\(', r'\1_add(')
        sub(r'mpFp_sqr\((.*), (.*)\)', r'mpFp_add(\1, \2, \2)')
        sub(r'->x\b', '->y'); sub(r'->y\b', '->z'); sub(r'->z\b', '->x'); sub(r'\[0\]', '[1]'); sub(r'\[1\]', '[0]')
        sub(r'is_neutral = 0', 'is_neutral = 1'); sub(r'is_neutral = 1', 'is_neutral = 0')
        if s.endswith(';') and re.match(r'^(mp|_mp|mpz|C\.mp|memset|memcpy|free|Py_INCREF|Py_DECREF|Py_XDECREF|runtime\.|C\.free)\w*[\w.]*\(', s) or re.match(r'^(C\.|runtime\.)\w+\(.*\)$', s):
            out.add(re.match(r'\s*', l).group(0) + ('{}' if go else ';'))
        elif re.match(r'^[\w>.\-\[\]()* ]+ = .*;$', s) and not re.match(r'^(int|mpz_t|char|unsigned|size_t|PyObject|mpFp|long|mp\w+_t)\b', s):
            out.add(re.match(r'\s*', l).group(0) + ';')
        m = re.match(r'^(\s*(?:\} else )?if )\(?(.*)\)? \{$', l)
        if m:
            out.add(m.group(1) + ('false' if go else '(0)') + ' {')
        for o in sorted(out):
            if o != l:
                yield i, o, '\n'.join(lines[:i] + [o] + lines[i + 1:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file'); ap.add_argument('--n', type=int, default=30); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=2); ap.add_argument('--checks'); ap.add_argument('--work', default='/tmp/w/mut')
    a = ap.parse_args()
    src = open('/repo/' + a.file).read()
    ms = list(mutants(src, a.file.endswith('.go')))
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.n]
    os.makedirs(a.work, exist_ok=True)
    tag = a.file.replace('/', '_')

    def one(k):
        i, new, text = ms[k]
        d = '%s/%s.%d' % (a.work, tag, k)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        subprocess.run(['git', 'clone', '-q', V, d + '/v'], check=True) if not os.environ.get('MUT_CP') else \
            shutil.copytree(V, d + '/v', ignore=shutil.ignore_patterns('build', '.git', 'seeded', '__pycache__', 'replay', 'evidence'))
        open(d + '/repo/' + a.file, 'w').write(text)
        desc = '%s:%d  %s  =>  %s' % (a.file, i + 1, src.split('\n')[i].strip(), new.strip())
        try:
            if a.file.startswith('src/'):
                r = subprocess.run(['gcc', '-fsyntax-only', '-w', '-Iinclude', a.file], cwd=d + '/repo', capture_output=True)
                if r.returncode:
                    return desc, 'NOCOMPILE'
            env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_WORKERS='4', VERIF_SHRINK_S='1', VERIF_SEED='1', VERIF_TIER='quick')
            for c in (a.checks or ORDER[a.file]).split():
                t = time.time()
                try:
                    r = subprocess.run(['nice', '-n', '8', 'bin/check', c, '--tier', 'quick'], cwd=d + '/v', env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    return desc, 'TIMEOUT ' + c
                if r.returncode == 1:
                    m = [x for x in r.stdout.split('\n') if x and not x.startswith('KNOWN') and 'tier=' not in x]
                    return desc, 'killed by %s in %.0f s: %s' % (c, time.time() - t, (m or [''])[0][:120])
                if r.returncode:
                    return desc, 'rc=%d %s: %s' % (r.returncode, c, (r.stdout + r.stderr)[-200:].replace('\n', ' | '))
            return desc, 'SURVIVED'
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        for desc, res in ex.map(one, range(len(ms))):
            print('%s\n    %s' % (res if res.startswith('SURV') else res, desc), flush=True)


main()
