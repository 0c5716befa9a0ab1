"""Model-based interpreter for point/curve histories: emits driver commands plus expected replies."""
import ref
from ref import Curve
from core import Violation, Skip, ok

SCR = 60   # scratch point slot used for observation


def hx(v):
    return '%x' % v if v >= 0 else '-%x' % -v


def hb(b):
    return b.hex() if b else '.'


class Pool:
    """Curves a worker draws from; built once per worker from its own seed."""

    def __init__(self, rng, ntoy=60, nbig=14, named=True, kinds=('ws', 'ed', 'mo', 'te'), pmax=600, bigmax=1024):
        self.toy = {k: [] for k in kinds}
        for k in kinds:
            for i in range(max(1, ntoy // len(kinds))):
                self.toy[k].append(ref.toy_curve(rng, k, pmax=rng.choice([13, 40, 130, 257, pmax])))
        self.big = []
        cand = [b for b in ref.BIG if b[0].bit_length() <= bigmax]
        for _ in range(nbig):
            p, n = rng.choice(cand)
            self.big.append(ref.supersingular(rng, rng.choice(kinds), p, n))
        self.named = [c for c in ref.NAMED.values() if c.kind in kinds] if named else []
        self.kinds = list(kinds)

    def pick(self, rng, wtoy=0.6, wbig=0.2):
        r = rng.random()
        if r < wtoy or not (self.big or self.named):
            return rng.choice(self.toy[rng.choice(self.kinds)])
        if (r < wtoy + wbig and self.big) or not self.named:
            return rng.choice(self.big)
        # every form equally often among the named curves
        k = rng.choice(['ws', 'ws', 'ed', 'mo', 'te'])
        c = [c for c in self.named if c.kind == k]
        return rng.choice(c or self.named)


def jp(P):
    return None if P is None else [P[0], P[1]]


def small_points(c, rng):
    """Points of small order and other special points of the curve."""
    out = [c.O]
    if c.kind == 'ed':
        out += [(0, -c.k1 % c.p), (c.k1, 0), (-c.k1 % c.p, 0)]
    elif c.kind == 'te':
        out += [(0, c.p - 1)]
    elif c.kind == 'mo':
        out += [(0, 0)]
    elif c.k2 == 0:
        out += [(0, 0)]
    if c.h > 1 and c.h < 1 << 20:
        for _ in range(3):
            x = rng.randrange(c.p)
            ys = c.lift(x)
            if ys:
                out.append(c.mul_int((x, rng.choice(ys)), c.n))
    for x in (0, 1, c.p - 1):
        for y in c.lift(x)[:1]:
            out.append((x, y))
    return [q for q in out if q is None or c.on(*q)]


def pick_point(c, rng, known=()):
    r = rng.random()
    if r < 0.12:
        return c.O
    if r < 0.3 and not c.incomplete:
        return rng.choice(small_points(c, rng))
    if r < 0.4:
        return c.G
    if r < 0.55 and known:
        q = rng.choice(known)
        return q if rng.random() < 0.5 else c.neg(q)
    return c.rand_point(rng)


def pick_scalar(c, rng):
    n, p = c.n, c.p
    r = rng.random()
    if r < 0.2:
        return rng.choice([0, 1, 2, 3, n - 1, n, n + 1, n - 2, -1, -n, 1 - n, 2 * n, 2 * n - 1, n // 2, (n + 1) // 2])
    if r < 0.35:
        k = rng.randrange(0, n.bit_length() + 1)
        return (1 << k) + rng.choice([-1, 0, 1])
    if r < 0.45:
        return rng.choice([p, p - 1, p + 1, p * n, (1 << p.bit_length()) - 1, 1 << p.bit_length(), n + (1 << rng.randrange(n.bit_length()))])
    if r < 0.55:      # window patterns
        v = 0
        for _ in range((n.bit_length() + 7) // 8):
            v = v << 8 | rng.choice([0, 0, 255, 1, 128, rng.randrange(256)])
        return v
    if r < 0.62:
        return -rng.randrange(n)
    if r < 0.7:
        return rng.getrandbits(rng.choice([8, 64, 600, 2000])) * rng.choice([1, -1])
    return rng.randrange(n)


def curve_cmd(slot, c):
    if c.name:
        return 'cn %d %s' % (slot, c.name.encode().hex())
    return 'cz %d %s %x %x %x %x %x %x %x %d' % (slot, c.kind, c.p, c.k1, c.k2, c.n, c.h, c.G[0], c.G[1], c.bits)


class Machine:
    """Interprets an operation list; collects command lines with checks on the replies."""

    def __init__(self, curves, setup=True):
        self.lines, self.exp, self.what = ['reset'], [None], ['']
        self.C = {}
        self.P = {}       # slot -> [curve slot, value, defined?]
        self.tab = {}
        self.tags = {}
        for i, c in enumerate(curves):
            self.C[i] = c
            self.emit(curve_cmd(i, c), ['0'])
        if setup:
            for s in range(SCR, 64):
                self.emit('pinit %d 0' % s, [])

    def tag(self, t, n=1):
        self.tags[t] = self.tags.get(t, 0) + n

    def emit(self, line, e, what=''):
        self.lines.append(line)
        self.exp.append(e)
        self.what.append(what)

    def val(self, s):
        q = self.P.get(s)
        if q is None or not q[2]:
            raise Skip('point %s undefined' % s)
        return self.C[q[0]], q[1]

    def have(self, s):
        q = self.P.get(s)
        return q is not None and q[2]

    def put(self, s, cs, v):
        if s not in self.P:
            raise Skip('dest')
        self.P[s] = [cs, v, True]
        self.tab[s] = False

    def observe(self, s, direct=False, comp=0, why=''):
        c, v = self.val(s)
        e = c.encode(v, bool(comp))
        if direct:
            self.emit('pout %d %d' % (s, comp), [e.hex(), str(len(e))], why)
        else:
            self.emit('pset %d %d' % (SCR, s), [])
            self.emit('pout %d %d' % (SCR, comp), [e.hex(), str(len(e))], why)

    def same(self, a, b):
        ca, cb = self.C[self.P[a][0]], self.C[self.P[b][0]]
        return ca.params() == cb.params()

    # one operation
    def step(self, op):
        o = op[0]
        f = getattr(self, 'o_' + o, None)
        if f is None:
            raise Skip('op ' + str(o))
        r = f(*op[1:])
        if r is not False:
            self.tag('op_' + o)
        return r

    def curve(self, cs):
        if cs not in self.C:
            raise Skip('curve')
        return self.C[cs]

    def o_init(self, s, cs):
        self.curve(cs)
        if s in self.P or not 0 <= s < SCR:
            raise Skip('init')
        self.P[s] = [cs, None, False]
        self.tab[s] = False
        self.emit('pinit %d %d' % (s, cs), [])

    def o_clr(self, s):
        if s not in self.P:
            raise Skip('clr')
        del self.P[s]
        self.emit('pclr %d' % s, [])

    def _chk(self, c, P):
        if P is None:
            if c.O is not None:
                raise Skip('None')
            return None
        P = (P[0], P[1])
        if not (0 <= P[0] < c.p and 0 <= P[1] < c.p and c.on(*P)):
            raise Skip('off curve')
        return P

    def o_setz(self, s, cs, P, how=0):
        """assign a value: how 0 mpz, 1 field elements, 2/3 bytes (un)compressed, 4/5 text, 6 unreduced/negative integers"""
        c = self.curve(cs)
        P = self._chk(c, P)
        if s not in self.P:
            raise Skip('setz')
        if P is None and how in (0, 1, 6):
            self.emit('pneu %d %d' % (s, cs), [])
        elif how == 0:
            self.emit('psetz %d %x %x %d' % (s, P[0], P[1], cs), [])
        elif how == 6:
            self.emit('psetz %d %s %s %d' % (s, hx(P[0] + c.p * 3), hx(P[1] - c.p), cs), [])
        elif how == 1:
            self.emit('psetf %d %x %x %d' % (s, P[0], P[1], cs), [])
        elif how in (2, 3):
            self.emit('pbytes %d %s %d' % (s, hb(c.encode(P, how == 3)), cs), ['0'])
        else:
            t = c.encode(P, how == 5).hex()
            if (P is None or P[0] % 2) and how == 4:
                t = t.upper()
            self.emit('pstr %d %s %d' % (s, t.encode().hex(), cs), ['0'])
        self.put(s, cs, P)

    def o_neutral(self, s, cs):
        c = self.curve(cs)
        if s not in self.P:
            raise Skip('neutral')
        self.emit('pneu %d %d' % (s, cs), [])
        self.put(s, cs, c.O)

    def o_badimport(self, s, cs, hexbytes):
        c = self.curve(cs)
        b = bytes.fromhex(hexbytes)
        if s not in self.P or c.decode(b) != c.REJECT:
            raise Skip('badimport')
        self.emit('pbytes %d %s %d' % (s, hb(b), cs), ['1'])
        self.P[s] = [self.P[s][0], None, False]

    def o_set(self, d, a):
        c, v = self.val(a)
        if d not in self.P:
            raise Skip('set')
        self.emit('pset %d %d' % (d, a), [])
        self.put(d, self.P[a][0], v)

    def _bin(self, d, a, b, cmd, fn):
        ca, x = self.val(a)
        cb, y = self.val(b)
        if d not in self.P:
            raise Skip('dest')
        if not self.same(a, b):
            return False
        self.emit('%s %d %d %d' % (cmd, d, a, b), [])
        if x == y:
            self.tag('equal_operands')
        if x == ca.neg(y):
            self.tag('opposite_operands')
        if x == ca.O or y == ca.O:
            self.tag('neutral_operand')
        if self.P[d][0] != self.P[a][0]:
            self.tag('dest_other_curve')
        self.put(d, self.P[a][0], fn(ca, x, y))

    def o_add(self, d, a, b):
        return self._bin(d, a, b, 'padd', lambda c, x, y: c.add(x, y))

    def o_sub(self, d, a, b):
        return self._bin(d, a, b, 'psub', lambda c, x, y: c.sub(x, y))

    def _un(self, d, a, cmd, fn):
        c, x = self.val(a)
        if d not in self.P:
            raise Skip('dest')
        if self.P[d][0] != self.P[a][0]:
            self.tag('dest_other_curve')
        self.emit('%s %d %d' % (cmd, d, a), [])
        self.put(d, self.P[a][0], fn(c, x))

    def o_dbl(self, d, a):
        return self._un(d, a, 'pdbl', lambda c, x: c.add(x, x))

    def o_neg(self, d, a):
        return self._un(d, a, 'pneg', lambda c, x: c.neg(x))

    def _mul(self, d, a, k, cmd, viaf):
        c, x = self.val(a)
        if d not in self.P:
            raise Skip('dest')
        cs = self.P[a][0]
        if viaf:
            self.emit('finit 50 %x' % c.n, [])
            self.emit('fsetz 50 %s %x' % (hx(k), c.n), [])
            self.emit('%sf %d %d 50' % (cmd, d, a), [])
            self.emit('fget 50', [hx(k % c.n), hx(c.n)], 'scalar operand after multiplication')
            self.emit('fclr 50', [])
        else:
            self.emit('%sz %d %d %s' % (cmd, d, a, hx(k)), [])
        table = cmd == 'pbmul'
        v = c.mul(x, k)
        self.put(d, cs, v)
        if table and d != a:
            self.tab[a] = True

    def o_mul(self, d, a, k, viaf=0):
        return self._mul(d, a, k, 'pmul', viaf)

    def o_bmul(self, d, a, k, viaf=0):
        if a in self.P and self.tab.get(a):
            self.tag('bmul_existing_table')
        return self._mul(d, a, k, 'pbmul', viaf)

    def o_bset(self, a):
        self.val(a)
        self.emit('pbset %d' % a, [])
        self.tab[a] = True

    def o_swap(self, a, b):
        self.val(a)
        self.val(b)
        if not self.same(a, b):
            return False
        self.emit('pswap %d %d' % (a, b), [])
        va, vb = self.P[a], self.P[b]
        # curve objects stay with their points; values and tables are exchanged
        self.P[a], self.P[b] = [va[0], vb[1], True], [vb[0], va[1], True]
        self.tab[a], self.tab[b] = self.tab.get(b), self.tab.get(a)

    def o_cswap(self, a, b, s):
        self.val(a)
        self.val(b)
        if not self.same(a, b) or self.tab.get(a) or self.tab.get(b) or not -1 << 31 <= s < 1 << 31:
            return False
        self.emit('pcswap %d %d %d' % (a, b, s), [])
        if s:
            va, vb = self.P[a], self.P[b]
            self.P[a], self.P[b] = [va[0], vb[1], True], [vb[0], va[1], True]

    def o_cmp(self, a, b):
        ca, x = self.val(a)
        cb, y = self.val(b)
        eq = self.same(a, b) and x == y
        self.tag('cmp_eq' if eq else 'cmp_ne')
        self.emit('pcmp %d %d' % (a, b), [str(int(not eq))])

    def o_aff(self, a, order=0):
        c, v = self.val(a)
        if v is None:
            return False
        if order:
            self.emit('paffy %d' % a, [hx(v[0]), hx(v[1])])
        else:
            self.emit('paff %d' % a, [hx(v[0]), hx(v[1]), hx(v[0]), hx(v[1])])

    def o_out(self, a, comp=0, text=0):
        c, v = self.val(a)
        e = c.encode(v, bool(comp))
        if text:
            self.emit('pouts %d %d' % (a, comp), [e.hex().upper(), str(2 * len(e))])
        else:
            self.emit('pout %d %d' % (a, comp), [e.hex(), str(len(e))])

    def o_obs(self, a):
        self.observe(a)

    def o_obsall(self):
        for s in sorted(self.P):
            if self.P[s][2]:
                self.observe(s, why='point slot %d' % s)
        for s in sorted(self.C):
            self.o_curvedump(s)

    def o_rand(self, d, cs):
        c = self.curve(cs)
        if d not in self.P:
            raise Skip('rand')
        self.emit('prand %d %d' % (d, cs), [])
        self.emit('pout %d 0' % d, ('randpoint', c))
        self.P[d] = [cs, None, False]

    # curve objects
    def o_curveset(self, d, a):
        """copy curve a into a fresh slot d"""
        if a not in self.C or d in self.C or not 0 <= d < 40:
            raise Skip('curveset')
        self.emit('cset %d %d' % (d, a), [])
        self.C[d] = self.C[a]

    def o_curvedump(self, a):
        c = self.curve(a)
        self.emit('cdump %d' % a, [c.kind, hx(c.p), hx(c.k1), hx(c.k2), hx(c.n), hx(c.h), hx(c.G[0]), hx(c.G[1]), str(c.bits)], 'curve object')

    def o_curvecmp(self, a, b):
        ca, cb = self.curve(a), self.curve(b)
        self.emit('ccmp %d %d' % (a, b), [str(int(ca.params() != cb.params()))])

    def finish(self):
        for s in sorted(self.P):
            if self.P[s][2]:
                self.observe(s, why='final value of point slot %d' % s)
        for s in sorted(self.C):
            self.o_curvedump(s)

    def check(self, drv, rep=None):
        if rep is None:
            rep = drv.batch(self.lines)
        for i, (l, r, e) in enumerate(zip(self.lines, rep, self.exp)):
            if e is None:
                continue
            got = ok(r)
            if isinstance(e, tuple):
                if e[0] == 'randpoint':
                    c = e[1]
                    P = c.decode(bytes.fromhex(got[0]))
                    if P == c.REJECT:
                        raise Violation('%s: random point %s is not on the curve' % (l, got[0]))
                    if isinstance(P, tuple) and P and P[0] == c.EITHER:
                        P = P[1]
                    if c.mul_int(P, c.n) != c.O:
                        raise Violation('%s: random point %s is outside the group of the generator' % (l, got[0]))
                continue
            if got != e:
                j = i - 1
                prev = [x for x in self.lines[max(0, i - 3):i]]
                raise Violation('%s%s -> got %s, expected %s (preceded by: %s)' % (
                    (self.what[i] + ': ') if self.what[i] else '', l, ' '.join(got), ' '.join(e), ' ; '.join(prev)))
        return rep
