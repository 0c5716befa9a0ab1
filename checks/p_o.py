"""O01-O03: the Go package, driven through a Go program that uses only its exported names."""
import os
import random
import re
import shutil

import ref
from core import (Check, Violation, Skip, HarnessError, Driver, REPO, VERIF, SAN, cached_build, tree_files, lib_sources, sh)
from pmodel import Pool, pick_point, pick_scalar, jp
from p_f import pick_prime, pick_int
from p_e import gen_bytes, gen_text
from p_s import digest, pick_hashname, pick_msg, pick_key, valid_nonces
from p_y import same_curve, mul_values, show
from ref import Curve

TYPE = {'ws': 2, 'ed': 3, 'mo': 4, 'te': 5}
MAXBITS = 1024


def go_ext(variant):
    drv = os.path.join(VERIF, 'drivers', 'godrv.go')
    files = tree_files(os.path.join(REPO, 'src'), os.path.join(REPO, 'include')) + sorted(
        os.path.join(REPO, 'ecgo', f) for f in os.listdir(os.path.join(REPO, 'ecgo')) if f.endswith('.go') and not f.endswith('_test.go')) + [drv]

    def build(d):
        lib, cache = os.path.join(d, 'lib'), os.path.join(d, 'cache')
        os.makedirs(lib)
        for f in files:
            if f.endswith('.go'):
                t = os.path.join(d, 'src', 'godrv' if f == drv else 'ecgo')
                os.makedirs(t, exist_ok=True)
                shutil.copy(f, t)
        san = SAN if variant == 'asan' else []
        objs = []
        for s in lib_sources():
            o = os.path.join(lib, os.path.basename(s)[:-2] + '.o')
            sh(['gcc', '-c', '-g', '-O1', '-w', '-DSAFE_CLEAN', '-I' + os.path.join(REPO, 'include')] + san + ['-o', o, s])
            objs.append(o)
        sh(['ar', 'rcs', os.path.join(lib, 'libecc.a')] + objs)
        base = '/opt/vp/cache/go'
        if os.path.isdir(base) and variant == 'plain':
            shutil.copytree(base, cache, symlinks=True)
        env = dict(os.environ, GO111MODULE='off', GOPATH=d, GOFLAGS='', GOPROXY='off', GOTOOLCHAIN='local', GOCACHE=cache, CGO_ENABLED='1',
                   CC='gcc', CGO_CFLAGS='-g -O1 -w -I' + os.path.join(REPO, 'include'), CGO_LDFLAGS='-L' + lib + (' -lubsan' if san else ''), HOME=d)
        sh(['go', 'build'] + (['-asan'] if san else []) + ['-o', os.path.join(d, 'godrv'), 'godrv'], env=env)
        shutil.rmtree(cache, ignore_errors=True)
    return os.path.join(cached_build('goext-' + variant, files, [], build), 'godrv')


def go_env(variant):
    return {'GODEBUG': '', 'MALLOC_PERTURB_': '165' if variant == 'plain' else '0', 'GOTRACEBACK': 'single', 'GOMAXPROCS': '4'}


def hx(v):
    return '%x' % v if v >= 0 else '-%x' % -v


def bx(b):
    return b.hex() if b else '-'


def cargs(c, named=True, sep=' '):
    if c.name and named:
        return c.name.encode().hex()
    p = c.params()
    return sep.join([c.kind] + [hx(v) for v in p[1:8]] + [str(c.bits)])


def show_c(c):
    return ['C', str(TYPE[c.kind])] + [hx(v) for v in (c.p, c.n, c.h, c.G[0], c.G[1], c.bits, c.k1, c.k2)]


def show_p(c, P):
    a, b = c.encode(P, True).hex(), c.encode(P, False).hex()
    return ['P', a, b, a, b, '1' if P is None else '0']     # see IsNeutral in godrv.go


def mpoint(c, r):
    """point of a reply"""
    P = c.decode(bytes.fromhex(r[2])) if r[0] == 'P' and len(r) == 6 else Curve.REJECT
    if isinstance(P, tuple) and P and P[0] == Curve.EITHER:
        P = P[1]
    if P == Curve.REJECT or r != show_p(c, P):
        return Curve.REJECT
    return P


class GoCheck(Check):
    variants = ['plain', 'asan', 'plain', 'plain']
    pool_args = dict(ntoy=32, nbig=8)
    restart_every = 200
    gcpercent = 20

    def setup(self, tier):
        return {'go': {v: go_ext(v) for v in sorted(set(self.variants))}}

    def worker_init(self, env):
        v = env['variant']
        env['drv'] = Driver([env['built']['go'][v], str(self.gcpercent)], timeout=30 if v == 'plain' else 90, env=go_env(v))
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'], **self.pool_args)

    def worker_done(self, env):
        if 'drv' in env:
            env['drv'].stop()

    def shrinks(self, case):
        for k in ('ops', 'items', 'temps'):
            l = case.get(k, [])
            size = len(l) // 2
            while size >= 1:
                for i in range(0, len(l), size):
                    yield dict(case, **{k: l[:i] + l[i + size:]})
                size //= 2


class GoProg:
    def __init__(self, env):
        self.env, self.v, self.tags, self.log = env, {}, {}, []
        self.cmd('reset')

    def cmd(self, *a):
        line = ' '.join(str(x) for x in a)
        self.log.append(line)
        r = self.env['drv'].batch([line])[0]
        if r.startswith('BAD'):
            raise HarnessError('%s -> %s' % (line, r))
        if r.startswith('ARGMOD') or r.startswith('NOTREC'):
            raise Violation('%s: %s' % (line, r))
        if r.startswith('!') and ('runtime error' in r or 'cgo' in r):
            self.bad(line, r)
        return r

    def bad(self, line, r, want=''):
        raise Violation('%s: expected %s, got %s, after: %s' % (line, want, str(r)[:600], '; '.join(self.log[-14:])))

    def expect(self, want, *a):
        r = self.cmd(*a)
        if r != want:
            self.bad(' '.join(str(x) for x in a), r, want)

    def panics(self, *a):
        r = self.cmd(*a)
        if not r.startswith('!'):
            self.bad(' '.join(str(x) for x in a), r, 'a panic')

    def text(self, m):
        if m[0] == 'F':
            return 'F %s %s' % (hx(m[1]), hx(m[2]))
        if m[0] == 'P':
            return ' '.join(show_p(m[1], m[2]))
        if m[0] == 'C':
            return ' '.join(show_c(m[1]))
        if m[0] == 'S':
            return 'S ' + m[1].hex()
        if m[0] == 'E':
            return 'E %s %s' % (' '.join(show_p(m[1], m[2])), ' '.join(show_p(m[1], m[3])))
        raise HarnessError(m)

    def val(self, d, m, *a):
        ms = m if isinstance(m, list) else [m]
        r = self.cmd(*a)
        for q in ms:
            if r == self.text(q):
                self.v[d] = q
                return
        self.bad(' '.join(str(x) for x in a), r, self.text(ms[0]))

    def get(self, s, k):
        m = self.v.get(s)
        return m if m is not None and m[0] == k else None

    def step(self, op):
        if getattr(self, 'o_' + op[0])(*op[1:]) is not False:
            self.tags[op[0]] = self.tags.get(op[0], 0) + 1

    def finish(self):
        for s in sorted(self.v):
            m = self.v[s]
            if m[0] == 'H':
                continue
            r = self.cmd('get', s)
            if r != self.text(m):
                self.bad('get ' + s, r, self.text(m))

    # ---- fields
    def o_fe(self, d, v, p, how):
        if how == 'ui':
            v &= (1 << 64) - 1
        a = ('feui' if how == 'ui' else 'fe', d, hx(v), hx(p))
        if p == 0:
            return self.panics(*a)
        if p < 2 or p.bit_length() > MAXBITS:
            return self.expect('nil', *a)
        self.val(d, ('F', v % p, p), *a)

    def o_feur(self, d, p):
        if p == 0:
            return self.panics('feur', d, hx(p))
        if p < 2 or p.bit_length() > MAXBITS:
            return self.expect('nil', 'feur', d, hx(p))
        r = self.cmd('feur', d, hx(p)).split()
        if r[0] != 'F' or r[2] != hx(p) or not 0 <= int(r[1], 16) < p:
            self.bad('feur', r)
        self.v[d] = ('F', int(r[1], 16), p)

    def o_f2(self, op, d, a, b):
        x, y = self.get(a, 'F'), self.get(b, 'F')
        if not x or not y or not self.get(d, 'F'):
            return False
        if x[2] != y[2]:
            return self.panics('f' + op, d, a, b)
        v = x[1] + y[1] if op == 'add' else x[1] - y[1] if op == 'sub' else x[1] * y[1]
        self.val(d, ('F', v % x[2], x[2]), 'f' + op, d, a, b)

    def o_fneg(self, d, a):
        x = self.get(a, 'F')
        if not x or not self.get(d, 'F'):
            return False
        self.val(d, ('F', -x[1] % x[2], x[2]), 'fneg', d, a)

    def o_finv(self, d, a):
        x = self.get(a, 'F')
        if not x or not self.get(d, 'F'):
            return False
        try:
            w = pow(x[1], -1, x[2])
        except ValueError:
            self.expect('E', 'finv', d, a)
            if d != a:
                self.lost(d, x)
            return
        self.val(d, ('F', w, x[2]), 'finv', d, a)

    def lost(self, d, x):
        """the receiver of a failed call holds no specified value; give it one"""
        self.val(d, ('F', 1 % x[2], x[2]), 'fe', d, '1', hx(x[2]))

    def o_fsqrt(self, d, a):
        x = self.get(a, 'F')
        if not x or not self.get(d, 'F') or x[2] == 2:
            return False
        q = ref.sqrt_mod(x[1], x[2]) if ref.is_prime(x[2]) else None
        if q is None:
            self.expect('E', 'fsqrt', d, a)
            if d != a:
                self.lost(d, x)
            return
        self.val(d, [('F', q, x[2]), ('F', -q % x[2], x[2])], 'fsqrt', d, a)

    def o_fexp(self, d, a, e):
        x = self.get(a, 'F')
        if not x or not self.get(d, 'F'):
            return False
        self.val(d, ('F', pow(x[1], e, x[2]), x[2]), 'fexp', d, a, hx(e))

    def o_fbit(self, a, i):
        x = self.get(a, 'F')
        if not x:
            return False
        self.expect(str(x[1] >> i & 1 if i >= 0 else 0), 'fbit', a, i)

    def o_fcmp(self, a, b):
        x, y = self.get(a, 'F'), self.get(b, 'F')
        if not x or not y:
            return False
        if x[2] != y[2]:
            return self.panics('fcmp', a, b)
        r = int(self.cmd('fcmp', a, b))
        if (r > 0) - (r < 0) != (x[1] > y[1]) - (x[1] < y[1]):
            self.bad('fcmp %s %s' % (a, b), r)

    # ---- curves
    def o_cv(self, d, cj, named):
        c = Curve.from_json(cj)
        self.val(d, ('C', c), 'cv', d, cargs(c, named))

    def o_cbad(self, cj, i, v):
        c = Curve.from_json(cj)
        a = [c.kind] + [hx(v) for v in c.params()[1:8]] + [str(c.bits)]
        a[1 + i] = hx(v)
        self.expect('nil', 'cv', 'c9', *a)

    def o_cname(self, hexname):
        n = bytes.fromhex(hexname)
        if n.decode('latin-1') in ref.NAMED:
            return False
        self.expect('nil', 'cv', 'c9', bx(n))

    def o_cnames(self):
        if sorted(self.cmd('cnames').split()) != sorted(ref.NAMED):
            self.bad('cnames', '')

    def o_cattr(self, a, name):
        x = self.get(a, 'C')
        if not x:
            return False
        c = x[1]
        w = {'p': c.p, 'n': c.n, 'h': c.h, 'gx': c.G[0], 'gy': c.G[1], 'bits': c.bits}
        k = {'ws': ('ws_a', 'ws_b'), 'ed': ('ed_c', 'ed_d'), 'mo': ('mo_B', 'mo_A'), 'te': ('te_a', 'te_d')}[c.kind]
        w[k[0]], w[k[1]] = c.k1, c.k2
        self.expect(hx(w[name]) if name in w else 'nil', 'cattr', a, bx(name.encode()))

    def o_ccmp(self, a, b):
        x, y = self.get(a, 'C'), self.get(b, 'C')
        if not x or not y or same_curve(x[1], y[1]) and x[1].bits != y[1].bits:
            return False
        r = int(self.cmd('ccmp', a, b))
        if (r == 0) != same_curve(x[1], y[1]):
            self.bad('ccmp', r)

    def o_ccheck(self, a, x, y):
        m = self.get(a, 'C')
        if not m or x >= m[1].p or y >= m[1].p:
            return False
        self.expect('true' if x >= 0 and y >= 0 and m[1].on(x, y) else 'false', 'ccheck', a, hx(x), hx(y))

    # ---- points
    def o_pxy(self, d, cs, P, off):
        m = self.get(cs, 'C')
        if not m or P is None or not m[1].on(*P):
            return False
        p = m[1].p
        self.val(d, ('P', m[1], (P[0] % p, P[1] % p)), 'pxy', d, cs, hx(P[0] % p + off[0] * p), hx(P[1] % p + off[1] * p))

    def o_pnew(self, d, cs, what):
        m = self.get(cs, 'C')
        if not m:
            return False
        c = m[1]
        if what == 'pur':
            r = self.cmd('pur', d, cs).split()
            P = mpoint(c, r)
            if P == Curve.REJECT:
                self.bad('pur', r)
            self.v[d] = ('P', c, P)
            return
        self.val(d, ('P', c, c.O if what == 'pneu' else c.G), what, d, cs)

    def o_pimp(self, d, cs, kind, x):
        m = self.get(cs, 'C')
        if not m:
            return False
        c = m[1]
        raw = bytes.fromhex(x)
        b = raw
        if kind == 'pstr':
            t = raw.decode('latin-1')
            b = bytes.fromhex(t) if re.fullmatch('([0-9a-fA-F]{2})*', t) else None
        w = c.decode(b) if b is not None else Curve.REJECT
        if isinstance(w, tuple) and len(w) == 2 and w[0] == Curve.EITHER:
            return False
        if w == Curve.REJECT:
            return self.expect('nil', kind, d, cs, bx(raw))
        self.val(d, ('P', c, w), kind, d, cs, bx(raw))

    def o_p2(self, op, d, a, b):
        x, y = self.get(a, 'P'), self.get(b, 'P')
        if not x or not y or not self.get(d, 'P'):
            return False
        if not same_curve(x[1], y[1]):
            return self.panics('p' + op, d, a, b)
        if x[1].bits != y[1].bits:
            return False
        self.val(d, ('P', x[1], x[1].add(x[2], y[2]) if op == 'add' else x[1].sub(x[2], y[2])), 'p' + op, d, a, b)

    def o_p1(self, op, d, a):
        x = self.get(a, 'P')
        if not x or not self.get(d, 'P'):
            return False
        self.val(d, ('P', x[1], x[1].neg(x[2]) if op == 'neg' else x[2]), 'p' + op, d, a)

    def o_pmul(self, d, a, k):
        x = self.get(a, 'P')
        if not x or not self.get(d, 'P'):
            return False
        self.val(d, [('P', x[1], q) for q in mul_values(x[1], x[2], k)], 'pmul', d, a, hx(k))

    def o_pbase(self, a):
        x = self.get(a, 'P')
        if not x:
            return False
        self.expect(self.text(x), 'pbase', a)

    def o_pcmp(self, a, b):
        x, y = self.get(a, 'P'), self.get(b, 'P')
        if not x or not y:
            return False
        e = same_curve(x[1], y[1]) and x[2] == y[2]
        if e and x[1].bits != y[1].bits:
            return False
        r = int(self.cmd('pcmp', a, b))
        if (r == 0) != e:
            self.bad('pcmp %s %s' % (a, b), r, e)

    def o_paff(self, a):
        x = self.get(a, 'P')
        if not x:
            return False
        if x[2] is None:
            self.cmd('paff', a)
            return
        self.expect('%s %s' % (hx(x[2][0]), hx(x[2][1])), 'paff', a)

    # ---- signatures and ciphertexts
    def o_hs(self, d, cs, hs, share=None):
        m = self.get(cs, 'C')
        if not m:
            return False
        if share:
            h = self.v.get(share)
            if not h or h[0] != 'H' or h[2] != hs:
                return False
        self.expect('ok', 'hs', d, cs, hs, *([share] if share else []))
        self.v[d] = ('H', m[1], hs)

    def o_hwr(self, h, data):
        """the owner of a hash object feeds it data of his own"""
        if not self.get(h, 'H'):
            return False
        self.expect('ok', 'hwr', h, bx(bytes.fromhex(data)))

    def o_sign(self, d, h, key, msg):
        """key may be any integer; it counts modulo n"""
        m = self.get(h, 'H')
        if not m:
            return False
        c = m[1]
        k = key % c.n
        msg = bytes.fromhex(msg)
        if k == 0 or c.n < 5000 and len(valid_nonces(c, k, ref.hash_to_int(digest(m[2], msg), c.n) % c.n)) <= c.n // 20:
            return False
        r = self.cmd('sign', d, h, hx(key), bx(msg)).split()
        L = (c.n.bit_length() + 7) // 8
        if r[0] != 'S' or len(r[1]) != 4 * L:
            self.bad('sign', r)
        b = bytes.fromhex(r[1])
        rr, s = int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')
        if not (1 <= rr < c.n and 1 <= s < c.n) or not ref.ecdsa_verify(c, c.mul(c.G, k), digest(m[2], msg), rr, s):
            self.bad('sign', r, 'a signature satisfying the ECDSA equation')
        self.v[d] = ('S', b, c, m[2])

    def o_simp(self, d, h, b):
        m = self.get(h, 'H')
        if not m:
            return False
        c = m[1]
        b = bytes.fromhex(b)
        L = (c.n.bit_length() + 7) // 8
        r, s = int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')
        if len(b) != 2 * L or not (1 <= r < c.n and 1 <= s < c.n):
            return self.expect('nil', 'simp', d, h, bx(b))
        self.val(d, ('S', b, c, m[2]), 'simp', d, h, bx(b))

    def o_ver(self, s, p, msg):
        m, q = self.get(s, 'S'), self.get(p, 'P')
        if not m or not q:
            return False
        msg = bytes.fromhex(msg)
        c = m[2]
        if not same_curve(c, q[1]):
            return self.expect('false', 'ver', s, p, bx(msg))
        if c.bits != q[1].bits or q[2] is None or q[2] == c.O or c.mul_int(q[2], c.n) != c.O:
            return False
        L = len(m[1]) // 2
        w = ref.ecdsa_verify(c, q[2], digest(m[3], msg), int.from_bytes(m[1][:L], 'big'), int.from_bytes(m[1][L:], 'big'))
        self.expect('true' if w else 'false', 'ver', s, p, bx(msg))
        t = 'accepted' if w else 'rejected'
        self.tags[t] = self.tags.get(t, 0) + 1

    def o_emk(self, d, a, b):
        x, y = self.get(a, 'P'), self.get(b, 'P')
        if not x or not y:
            return False
        if not same_curve(x[1], y[1]):
            return self.expect('nil', 'emk', d, a, b)
        if x[1].bits != y[1].bits:
            return False
        self.val(d, ('E', x[1], x[2], y[2]), 'emk', d, a, b)

    def o_eenc(self, d, a, b, key=None):
        x, y = self.get(a, 'P'), self.get(b, 'P')
        if not x or not y:
            return False
        c = x[1]
        if not same_curve(c, y[1]):
            return self.expect('nil', 'eenc', d, a, b)
        if c.bits != y[1].bits:
            return False
        r = self.cmd('eenc', d, a, b).split()
        C, D = (mpoint(c, r[1:7]), mpoint(c, r[7:])) if r[0] == 'E' else (Curve.REJECT, Curve.REJECT)
        if C == Curve.REJECT or D == Curve.REJECT:
            self.bad('eenc', r)
        if c.mul_int(C, c.n) != c.O:
            self.bad('eenc', r, 'C of order n')
        if key is not None and x[2] == c.mul(c.G, key) and c.sub(D, c.mul(C, key)) != y[2]:
            self.bad('eenc', r, 'D - kC = %s' % (y[2],))
        if c.n > 1 << 40 and C == c.O:
            self.bad('eenc', r)
        self.v[d] = ('E', c, C, D)

    def o_edec(self, d, e, k):
        m = self.get(e, 'E')
        if not m:
            return False
        c = m[1]
        self.val(d, ('P', c, c.sub(m[3], c.mul_int(m[2], k % c.n))), 'edec', d, e, hx(k))

    def o_ecd(self, d, e, which):
        m = self.get(e, 'E')
        if not m:
            return False
        self.val(d, ('P', m[1], m[2 if which == 'egc' else 3]), which, d, e)

    # ---- lifetime
    def o_del(self, a):
        if a not in self.v:
            return False
        self.cmd('del', a)
        del self.v[a]

    def o_gc(self):
        self.cmd('gc')


FS = ['f%d' % i for i in range(5)]
CS = ['c%d' % i for i in range(3)]
PS = ['p%d' % i for i in range(6)]
HS, SS, ES = ['h0', 'h1'], ['s0', 's1', 's2'], ['e0', 'e1']
ATTRS = ['p', 'n', 'h', 'gx', 'gy', 'bits', 'ws_a', 'ws_b', 'ed_c', 'ed_d', 'mo_B', 'mo_A', 'te_a', 'te_d', 'x', '', 'P', 'ws_a ']


def big_int(rng, p):
    return pick_int(rng, p, True)


def gen_field_ops(rng, primes, n):
    ops = []
    for s in FS:
        p = rng.choice(primes)
        ops.append(['fe', s, big_int(rng, p), p, 'i' if rng.random() < 0.8 else 'ui'])
    for _ in range(n):
        d, a, b = rng.choice(FS), rng.choice(FS), rng.choice(FS)
        r = rng.random()
        if r < 0.4:
            ops.append(['f2', rng.choice(['add', 'sub', 'mul']), d, a, b])
        elif r < 0.47:
            ops.append(['fneg', d, a])
        elif r < 0.55:
            ops.append(['finv', d, a])
        elif r < 0.65:
            ops.append(['fsqrt', d, a])
        elif r < 0.73:
            ops.append(['fexp', d, a, rng.choice([0, 1, 2, (1 << 64) - 1, 1 << 63, rng.getrandbits(64), rng.getrandbits(8)])])
        elif r < 0.79:
            ops.append(['fbit', a, rng.choice([0, 1, 63, 64, 127, 128, 511, 1023, 1024, 5000, 1 << 31, 1 << 32, (1 << 32) + 1, -1, -64, rng.randrange(600)])])
        elif r < 0.86:
            ops.append(['fcmp', a, b])
        elif r < 0.93:
            p = rng.choice(primes)
            if rng.random() < 0.25:
                p = rng.choice([0, 1, -7, 1 << 1024, (1 << 1024) - 105, 2, 15, 4, 1 << 64, -p, p * p if p.bit_length() < 500 else 21])
            ops.append(['fe', d, big_int(rng, abs(p) or 5), p, 'i' if rng.random() < 0.8 else 'ui'])
        else:
            ops.append(['feur', d, rng.choice(primes + [rng.choice([0, 1, -7, 1 << 1024])]) if rng.random() < 0.3 else rng.choice(primes)])
    return ops


def gen_point_ops(rng, curves, n):
    ops, cmap = [], {}

    def new(d):
        cs = rng.choice(CS)
        c = cmap[cs]
        r = rng.random()
        if r < 0.45:
            return ['pxy', d, cs, jp(pick_point(c, rng)), [rng.choice([0, 0, 1, -1, 5, -(1 << 70)]), rng.choice([0, 0, 1, -1, 1 << 70])]]
        if r < 0.6:
            return ['pnew', d, cs, rng.choice(['pneu', 'pgen', 'pgen', 'pur'])]
        if r < 0.75:
            b = c.encode(pick_point(c, rng), rng.random() < 0.5)
            if rng.random() < 0.5:
                return ['pimp', d, cs, 'pbytes', b.hex()]
            t = b.hex() if rng.random() < 0.5 else b.hex().upper()
            if rng.random() < 0.15:
                t = rng.choice([t + '\0', t + '\0aa', '\0' + t, t[:4] + '\0' + t[4:]])
            return ['pimp', d, cs, 'pstr', t.encode().hex()]
        if r < 0.88:
            return ['pimp', d, cs, 'pbytes', gen_bytes(c, rng).hex()]
        return ['pimp', d, cs, 'pstr', gen_text(c, rng).encode('latin-1').hex()]
    for s in CS:
        c = rng.choice(curves)
        cmap[s] = c
        ops.append(['cv', s, c.to_json(), rng.random() < 0.6])
    for s in PS:
        cs = rng.choice(CS)
        ops.append(['pnew', s, cs, rng.choice(['pneu', 'pgen'])])
        ops.append(new(s))
    for _ in range(n):
        d, a, b = rng.choice(PS), rng.choice(PS), rng.choice(PS)
        r = rng.random()
        if r < 0.36:
            ops.append(['p2', rng.choice(['add', 'sub', 'add']), d, a, b])
        elif r < 0.45:
            ops.append(['p1', rng.choice(['neg', 'set']), d, a])
        elif r < 0.58:
            ops.append(['pmul', d, a, pick_scalar(rng.choice(curves), rng)])
        elif r < 0.63:
            ops.append(['pbase', a])
        elif r < 0.7:
            ops.append(['pcmp', a, b])
        elif r < 0.75:
            ops.append(['paff', a])
        elif r < 0.85:
            ops.append(new(d))
        elif r < 0.89:
            ops.append(['cattr', rng.choice(CS), rng.choice(ATTRS)])
        elif r < 0.91:
            ops.append(['ccmp', rng.choice(CS), rng.choice(CS)])
        elif r < 0.95:
            cs = rng.choice(CS)
            c = cmap[cs]
            x, y = c.rand_point(rng) or c.G
            if rng.random() < 0.5:
                x, y = rng.choice([(x, (y + 1) % c.p), (y, x), (x, -y % c.p), (rng.randrange(c.p), rng.randrange(c.p)), (0, 0), (0, 1), (-x, y), (x, -y)])
            ops.append(['ccheck', cs, x, y])
        elif r < 0.97:
            c = cmap[rng.choice(CS)]
            ops.append(['cbad', c.to_json(), rng.randrange(7), -rng.choice([1, 2, c.p, 1 << 80])])
        else:
            nm = rng.choice(list(ref.NAMED)).encode()
            ops.append(['cname', rng.choice([b'', b'x', nm + b'\0', nm + b'\0x', nm[:-1], nm + b' ', nm.swapcase(), b'\xff\xfe', b'%s%n' * 20]).hex()])
    return ops


class O01(GoCheck):
    pid = 'O01'
    rule = ('a case is a history of 20-60 Go calls over field elements (prime and composite orders of 2..1024 bits, unusable orders), built-in and '
            'parameter-built curves and points in receiver style with all aliasings of receiver and arguments, big integers of any sign and size, '
            'imports of valid, malformed and NUL-containing encodings, attributes, comparisons, operands of different fields and curves; every '
            'reply is compared with Python integers and the reference group, big-integer and byte arguments and all other objects must '
            'be unchanged, unusable operands must give nil, an error or a Go panic; non-trivial: at least 8 calls compared')
    cases = {'quick': 5000, 'thorough': 150000}
    budget = {'quick': 110, 'thorough': 1800}

    def gen(self, rng, env):
        if rng.random() < 0.35:
            primes = [pick_prime(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.2:
                primes.append(rng.choice([15, 21, 9, 1 << 10, primes[0] * 3 if primes[0].bit_length() < 1000 else 35]))
            return {'ops': gen_field_ops(rng, primes, rng.randrange(15, 50))}
        c = env['pool'].pick(rng, 0.55, 0.2)
        curves = [c, c] + ([env['pool'].pick(rng, 0.7, 0.15)] if rng.random() < 0.3 else [])
        return {'ops': gen_point_ops(rng, curves, rng.randrange(12, 22 if c.p > 1 << 64 else 45))}

    def fixed_cases(self, tier, env):
        rng = random.Random(14)
        out = [{'ops': [['cnames']]}]
        for c in ref.NAMED.values():
            out.append({'ops': gen_point_ops(rng, [c, c], 14)})
        return out

    def run(self, case, env):
        g = GoProg(env)
        for op in case['ops']:
            g.step(op)
        g.finish()
        return g.tags

    def nontrivial(self, case, tags):
        return sum(tags.values()) >= 8 or 'cnames' in tags


def gen_crypto(rng, c, oc, n, second=True):
    """signature and ElGamal history on curve c"""
    hs = pick_hashname(c, rng)
    nn, L = c.n, (c.n.bit_length() + 7) // 8
    d, d2 = pick_key(c, rng), pick_key(c, rng)
    ops = [['cv', 'c0', c.to_json(), True], ['cv', 'c1', c.to_json(), False], ['cv', 'c2', oc.to_json(), True],
           ['hs', 'h0', 'c0', hs], ['hs', 'h1', 'c1', hs] + (['h0'] if rng.random() < 0.4 else [])]
    ops += [['pnew', 'p0', 'c0', 'pgen'], ['pnew', 'p1', 'c1', 'pgen'], ['pnew', 'p2', 'c0', 'pneu'], ['pnew', 'p3', 'c0', 'pneu'], ['pnew', 'p4', 'c1', 'pgen'],
            ['pnew', 'p5', 'c2', 'pgen']]
    # p0 = G, p1 = G (equal curve object), p2 = dG, p3 = d2 G, p4 = dG on the other object, p5 on another curve
    ops += [['pmul', 'p2', 'p0', d], ['pmul', 'p3', 'p0', d2], ['pmul', 'p4', 'p1', d]]
    if rng.random() < 0.3:
        ops.append(['pbase', 'p2'])

    def kform(k):
        return k + nn * rng.choice([0, 0, 0, 1, -1, 1 << 80, -(1 << 90)])

    def msg():
        return (b'' if rng.random() < 0.06 else pick_msg(c, hs, rng)).hex()

    def scalar():
        r = rng.random()
        return rng.choice([1, 2, nn - 1]) if r < 0.2 else rng.randrange(1, min(nn, 1 << (8 * rng.randrange(0, L) + 1) + 1)) if r < 0.35 else rng.randrange(1, nn)
    for _ in range(n):
        t = rng.random()
        s, h = rng.choice(SS), rng.choice(HS)
        if rng.random() < 0.15:
            ops.append(['hwr', rng.choice(HS), rng.randbytes(rng.choice([1, 3, 64, 200])).hex()])
        if t < 0.3:
            m = msg()
            ops += [['sign', s, h, kform(d), m], ['ver', s, rng.choice(['p2', 'p4']), m], ['ver', s, rng.choice(['p2', 'p3', 'p5', 'p4']), rng.choice([m, msg()])]]
        elif t < 0.55:
            m = msg()
            sg = None
            for _ in range(10):
                sg = sg or ref.ecdsa_sign(c, d, digest(hs, bytes.fromhex(m)), rng.choice([1, nn - 1, rng.randrange(1, nn)]))
            r, z = sg or (scalar(), scalar())
            how = rng.choice(['ok', 'ok', 'ns', 'sw', 'r+', 's+', 'm', 'rnd', 'z', 'n'])
            if how == 'ns':
                z = nn - z
            elif how == 'sw':
                r, z = z, r
            elif how == 'r+':
                r = (r + rng.choice([1, -1, 1 << rng.randrange(nn.bit_length())])) % nn
            elif how == 's+':
                z = (z + rng.choice([1, -1, 1 << rng.randrange(nn.bit_length())])) % nn
            elif how == 'm':
                m = msg()
            elif how == 'rnd':
                r, z = scalar(), scalar()
            elif how == 'z':
                r, z = rng.choice([(0, z), (r, 0)])
            elif how == 'n':
                r, z = rng.choice([(nn, z), (r, nn), (r + nn, z), (r, z + nn)])
            if (r | z) >> 8 * L:
                continue
            b = r.to_bytes(L, 'big') + z.to_bytes(L, 'big')
            ops += [['simp', s, h, b.hex()], ['ver', s, rng.choice(['p2', 'p4', 'p2', 'p3']), m]]
        elif t < 0.62:
            b = scalar().to_bytes(L, 'big') + scalar().to_bytes(L, 'big')
            b = rng.choice([b[:-1], b + b'\0', b[:L], b'', b[1:], b + b, b'\0' + b, b[:rng.randrange(len(b))]])
            ops.append(['simp', s, h, b.hex()])
        elif t < 0.85:
            e = rng.choice(ES)
            q = rng.choice(['p0', 'p1', 'p2', 'p3', 'p8', 'p9'])
            P = pick_point(c, rng)
            ops += [['pnew', 'p8', 'c0', 'pneu'], ['pxy', 'p8', rng.choice(['c0', 'c1']), jp(P), [0, 0]], ['eenc', e, rng.choice(['p2', 'p4']), q, d],
                    ['edec', 'p9', e, kform(d)], ['ecd', 'p7', e, 'egc'], ['ecd', 'p6', e, 'egd']]
            if rng.random() < 0.7:
                ops += [['emk', 'e2', 'p7', 'p6'], ['edec', 'p9', 'e2', kform(rng.choice([d, d, d2]))]]
        elif t < 0.95:
            ops += [['pnew', 'p8', 'c0', 'pneu'], ['pxy', 'p8', 'c0', jp(pick_point(c, rng)), [0, 0]], ['pnew', 'p9', 'c0', 'pneu'],
                    ['pxy', 'p9', 'c1', jp(pick_point(c, rng)), [0, 0]], ['emk', 'e3', 'p8', 'p9'], ['edec', 'p7', 'e3', kform(pick_scalar(c, rng) % nn)]]
        else:
            ops.append(rng.choice([['eenc', 'e1', 'p5', 'p0'], ['eenc', 'e1', 'p0', 'p5'], ['emk', 'e1', 'p5', 'p0'], ['emk', 'e1', 'p2', 'p5']]))
    return ops


class O02(GoCheck):
    pid = 'O02'
    rule = ('a case is a curve (built-in, toy of any form, random), a hash (identity of 1..200 bytes or SHA-2) and 3-12 groups of Go calls: sign with '
            'the key given as any integer of its residue class and verify with true and other keys and messages (including the empty one), import of '
            'signatures made by the reference signer, altered ones and malformed encodings, ElGamal encryption and decryption with right and wrong '
            'keys, ciphertexts rebuilt from their points or from arbitrary points on equal curve objects, operands on other curves; verdicts, '
            'ranges, equations and plaintexts must equal the reference; non-trivial: at least one signature or decryption compared')
    cases = {'quick': 4000, 'thorough': 120000}
    budget = {'quick': 110, 'thorough': 1800}
    assumptions = ['on toy curves a (key, digest) pair that admits no signature is not signed']

    def gen(self, rng, env):
        c = env['pool'].pick(rng, 0.5, 0.2)
        return {'ops': gen_crypto(rng, c, env['pool'].pick(rng), rng.randrange(3, 8 if c.p > 1 << 64 else 13))}

    def fixed_cases(self, tier, env):
        rng = random.Random(15)
        return [{'ops': gen_crypto(rng, c, rng.choice(list(ref.NAMED.values())), 6)} for c in ref.NAMED.values()]

    run = O01.run

    def nontrivial(self, case, tags):
        return bool(tags.get('sign') or tags.get('edec') or tags.get('accepted') or tags.get('rejected'))


class O03(GoCheck):
    pid = 'O03'
    rule = ('a case is a history of 20-60 Go calls that creates, combines, overwrites and drops objects of every type with explicit and background '
            'garbage collections, or a set of 2-5 call chains whose operands are all temporaries, run 3-20 times on each of 3 goroutines while the '
            'collector runs continuously; freed C memory is overwritten (MALLOC_PERTURB_) or policed by AddressSanitizer; replies and all surviving '
            'objects are compared with the model; non-trivial: at least one object dropped before a later use, or a chain completed')
    cases = {'quick': 1600, 'thorough': 60000}
    budget = {'quick': 120, 'thorough': 1800}
    variants = ['asan', 'plain']
    gcpercent = 5
    restart_every = 40
    timeout = 200

    def gen(self, rng, env):
        c = env['pool'].pick(rng, 0.45, 0.2)
        if rng.random() < 0.45:
            oc = env['pool'].pick(rng, 0.7, 0.1)
            ops = gen_crypto(rng, c, oc, 4) if rng.random() < 0.5 else []
            ops += gen_point_ops(rng, [c, c, oc], 14) + (gen_field_ops(rng, [pick_prime(rng), c.n], 8) if rng.random() < 0.4 else [])
            out = []
            for o in ops:
                out.append(o)
                r = rng.random()
                if r < 0.22:
                    out.append(['del', rng.choice(CS + CS + HS + SS + ES + PS + FS)])
                if r < 0.1:
                    out.append(['gc'])
            return {'ops': out, 'bg': rng.random() < 0.5}
        c = env['pool'].pick(rng, 0.2, 0.4)
        return {'temps': [self.temp(rng, c) for _ in range(rng.randrange(2, 6))], 'n': rng.choice([3, 8, 20]) if c.p < 1 << 130 else rng.choice([2, 4, 8])}

    def temp(self, rng, c):
        t = rng.choice(['mul', 'mulrand', 'add', 'sub', 'base', 'set', 'cmp', 'aff', 'attr', 'check', 'rand', 'str', 'bytes', 'sign', 'ver', 'ver', 'sign', 'eg', 'eg', 'egc', 'fexp',
                        'fsqrt', 'finv', 'fmul', 'mul'])
        k = pick_key(c, rng)
        P = pick_point(c, rng)
        p = pick_prime(rng)
        return [t, c.to_json(), k, jp(P), rng.choice(['sha256', '20', '64']), '%x' % rng.getrandbits(64), rng.randrange(p), p]

    def fixed_cases(self, tier, env):
        rng = random.Random(16)
        out = []
        big = {521: None, 384: None}
        for c in ref.NAMED.values():
            if c.p.bit_length() >= 222:
                out.append({'temps': [self.temp(rng, c) for _ in range(3)], 'n': 4})
        # long exponentiations of temporaries of 1024 bits
        p = (1 << 1024) - 105 if ref.is_prime((1 << 1024) - 105) else max(q for q, _ in ref.BIG)
        c = ref.NAMED['secp521r1'] if 'secp521r1' in ref.NAMED else list(ref.NAMED.values())[0]
        for t in ('fexp', 'fsqrt', 'finv', 'fmul', 'mul', 'mulrand', 'base', 'rand', 'sign', 'ver', 'eg', 'str', 'check', 'add', 'sub', 'aff', 'cmp'):
            out.append({'temps': [[t, c.to_json(), c.n - 12345, jp(c.G), 'sha512', 'ffffffffffffffff', p - 3, p]], 'n': 25})
        return out

    def want(self, t):
        kind, cj, k, P, hs, e, a, p = t
        c = Curve.from_json(cj)
        ca = cargs(c, True, ',')
        pt = lambda Q: ' '.join(show_p(c, Q))        # noqa: E731
        L = (c.n.bit_length() + 7) // 8
        P = c.O if P is None else tuple(P)
        if kind in ('mul', 'mulrand', 'base'):
            return [kind, ca, hx(k)], pt(c.mul(c.G, k))
        if kind in ('add', 'sub', 'set'):
            return [kind, ca], pt({'add': c.add(c.G, c.G), 'sub': c.neg(c.G), 'set': c.G}[kind])
        if kind == 'cmp':
            return [kind, ca], '0'
        if kind == 'aff':
            return [kind, ca], '%s %s' % (hx(c.G[0]), hx(c.G[1]))
        if kind == 'attr':
            return [kind, ca], hx(c.n)
        if kind == 'check':
            return [kind, ca, hx(c.G[0]), hx(c.G[1])], 'true'
        if kind == 'rand':
            return [kind, ca], lambda r: mpoint(c, r.split()) != Curve.REJECT
        if kind in ('str', 'bytes'):
            return [kind, ca, c.encode(P, False).hex()], pt(P)
        m = bytes.fromhex(e.zfill(16))
        if kind in ('sign', 'ver'):
            if c.n < 5000 and len(valid_nonces(c, k, ref.hash_to_int(digest(hs, m), c.n) % c.n)) <= c.n // 20:
                return None, None
            if kind == 'sign':
                def okay(r):
                    b = bytes.fromhex(r[2:])
                    return len(b) == 2 * L and ref.ecdsa_verify(c, c.mul(c.G, k), digest(hs, m), int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big'))
                return [kind, ca, hs, hx(k), bx(m)], okay
            sg, n = None, 3
            while not sg:
                n += 1
                sg = ref.ecdsa_sign(c, k, digest(hs, m), n % (c.n - 1) + 1)
            return [kind, ca, hs, bx(sg[0].to_bytes(L, 'big') + sg[1].to_bytes(L, 'big')), hx(k), bx(m)], 'true'
        if kind == 'eg':
            return [kind, ca, hx(k)], pt(c.G)
        if kind == 'egc':
            return [kind, ca], pt(c.G)
        if kind == 'fexp':
            return [kind, hx(p), hx(a), e], 'F %s %s' % (hx(pow(a, int(e, 16), p)), hx(p))
        if kind == 'fmul':
            return [kind, hx(p), hx(a), hx(p - 1)], 'F %s %s' % (hx(a * (p - 1) % p), hx(p))
        if kind == 'finv':
            return [kind, hx(p), hx(a)], hx(pow(a, -1, p)) if a else 'E'
        if kind == 'fsqrt':
            if p == 2:
                return None, None
            q = ref.sqrt_mod(a, p)
            return [kind, hx(p), hx(a)], 'E' if q is None else lambda r: r in (hx(q), hx(-q % p))
        raise HarnessError(kind)

    def run(self, case, env):
        g = GoProg(env)
        if 'ops' in case:
            g.cmd('bg', 1 if case['bg'] else 0)
            dead = 0
            for op in case['ops']:
                g.step(op)
                dead += op[0] == 'del'
            g.finish()
            g.cmd('bg', 0)
            g.tags['dropped'] = dead
            return g.tags
        g.cmd('bg', 1)
        tags = {}
        for t in case['temps']:
            a, w = self.want(t)
            if a is None:
                continue
            r = g.cmd('tmps', 3, case['n'], *a)
            for x in r.split('|'):
                if not (w(x) if callable(w) else x == w):
                    g.bad(' '.join(a), r, w)
            tags['chain_' + t[0]] = tags.get('chain_' + t[0], 0) + 1
        g.cmd('bg', 0)
        return tags

    def nontrivial(self, case, tags):
        return bool(tags.get('dropped')) or any(k.startswith('chain_') for k in tags)


CHECKS = {'O01': O01, 'O02': O02, 'O03': O03}
