"""E01, E02: point encodings."""
import random

import ref
from core import CCheck, Violation, Skip, ok
from pmodel import Pool, Machine, pick_point, small_points, jp, curve_cmd, hx, hb
from ref import Curve
from p_p import Hist


def widen(c, rng, prob):
    """The same curve with a declared size larger than its prime."""
    if rng.random() < prob:
        b = rng.choice([c.p.bit_length() + d for d in (1, 2, 7, 8, 9, 24)] + [1024])
        if b <= 1024:
            return Curve(c.kind, c.p, c.k1, c.k2, c.n, c.h, c.G[0], c.G[1], bits=b)
    return c


class E01(Hist):
    pid = 'E01'
    rule = ('a case is 1-2 curves of any form (toy, supersingular, built-in; some with a declared size larger than the prime) and a history '
            'of 6-26 imports, exports (bytes and text, compressed and not, exact-size buffers, announced lengths) and affine read-outs '
            'between group operations that leave the points in arbitrary projective form; every export is compared byte for byte with the '
            'standard encoding of the model\'s value, every import with the decoded point; every point of some toy curves is enumerated; '
            'non-trivial: at least 3 exports or imports compared')
    weights = {'out': 7, 'setz': 6, 'aff': 3, 'add': 3, 'sub': 1, 'dbl': 2, 'neg': 1.5, 'mul': 0.4, 'bmul': 0.3, 'set': 1, 'cmp': 1, 'neutral': 0.7,
               'swap': 0.5}
    obs = 0.3
    cases = {'quick': 9000, 'thorough': 250000}
    budget = {'quick': 140, 'thorough': 2400}
    wtoy, wbig = 0.5, 0.3

    def pick_curves(self, rng, pool):
        cs = super().pick_curves(rng, pool)
        memo = {}
        return [memo.setdefault(repr(c.params()), widen(c, rng, 0.15)) for c in cs]

    def gen(self, rng, env):
        case = super().gen(rng, env)
        # round trips: export what an operation produced and read it back
        ops = []
        for op in case['ops']:
            ops.append(op)
            if op[0] in ('add', 'sub', 'dbl', 'neg', 'mul') and rng.random() < 0.4:
                ops.append(['rt', op[1], rng.randrange(7), rng.randrange(2), rng.randrange(2)])
        return dict(case, ops=ops)

    def fixed_cases(self, tier, env):
        rng = random.Random(79)
        out = []
        for kind in ('ws', 'mo', 'ed', 'te'):
            for i in range(12 if tier == 'quick' else 60):
                c = ref.toy_curve(rng, kind, pmax=(41, 257, 600)[i % 3])
                out.append({'table': widen(c, rng, 0.3).to_json()})
        for c in ref.NAMED.values():
            out.append({'curves': [c.name], 'ops': [['init', 0, 0], ['init', 1, 0], ['setz', 0, 0, jp(c.G), 0]] +
                        [x for _ in range(3) for x in (['dbl', 0, 0], ['rt', 0, 1, 0, 0], ['rt', 0, 1, 1, 0], ['rt', 0, 1, 1, 1], ['rt', 0, 1, 0, 1])]})
        return out

    def run(self, case, env):
        if 'table' not in case:
            return super().run(case, env)
        c = Curve.from_json(case['table'])
        pts = c.all_points()
        lines, want = ['reset', curve_cmd(0, c)] + ['pinit %d 0' % i for i in range(3)], []
        for P in pts:
            lines.append('pneu 0 0' if P is None else 'psetz 0 %x %x 0' % P)
            for comp in (0, 1):
                e = c.encode(P, bool(comp))
                lines += ['pout 0 %d' % comp, 'pouts 0 %d' % comp, 'pbytes 1 %s 0' % e.hex(), 'pcmp 0 1', 'pstr 2 %s 0' % e.hex().encode().hex(), 'pcmp 2 0']
                n = len(lines)
                want += [(n - 6, [e.hex(), str(len(e))]), (n - 5, [e.hex().upper(), str(2 * len(e))])] + [(n - k, ['0']) for k in (4, 3, 2, 1)]
        rep = env['drv'].batch(lines, timeout=60)
        for i, e in want:
            if ok(rep[i]) != e:
                raise Violation('%s: %s answered %s, expected %s' % (case['table'], lines[i], rep[i], e))
        return {'table_points': len(pts)}

    def nontrivial(self, case, tags):
        return 'table' in case or sum(tags.get('op_' + o, 0) for o in ('out', 'setz', 'aff', 'rt')) >= 3


def o_rt(self, a, d, comp, text):
    """export a, import into d, compare, export again"""
    c, v = self.val(a)
    if d not in self.P or d == a:
        return False
    self.o_out(a, comp, text)
    e = c.encode(v, bool(comp))
    cs = self.P[a][0]
    if text:
        self.emit('pstr %d %s %d' % (d, e.hex().upper().encode().hex(), cs), ['0'], 'import of an exported point')
    else:
        self.emit('pbytes %d %s %d' % (d, e.hex(), cs), ['0'], 'import of an exported point')
    self.put(d, cs, v)
    self.emit('pcmp %d %d' % (a, d), ['0'], 'imported point against the exported one')


Machine.o_rt = o_rt


# ---------------------------------------------------------------- E02
def flip(b, rng):
    if not b:
        return b
    i = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def pole(c, rng, x):
    """an abscissa where the formula for y**2 has no value, if the curve has one (Edwards forms with a square d)"""
    if c.kind not in ('ed', 'te') or c.k2 == 0:
        return x
    q = ref.sqrt_mod(pow(c.k2 * (c.k1 * c.k1 if c.kind == 'ed' else 1) % c.p, -1, c.p), c.p)
    return x if q is None else rng.choice([q, c.p - q])


def gen_bytes(c, rng):
    L = c.blen
    P = pick_point(c, rng)
    b = c.encode(P, rng.random() < 0.5)
    r = rng.random()
    if r < 0.15:
        return b
    if r < 0.3:
        return flip(b, rng)
    if r < 0.4:            # wrong length
        return rng.choice([b[:-1], b + b'\0', b[:1], b'', b[1:], b + b, b[:rng.randrange(len(b) + 1)], b + bytes(rng.randrange(1, 40)), b'\0' + b])
    if r < 0.5:            # another header
        return bytes([rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 0x80, 0x82, 0x84, 255, rng.randrange(256)])]) + b[1:]
    if r < 0.6:            # unreduced coordinates
        if P is None:
            P = c.G
        x, y = P
        top = 1 << (8 * L)
        x2 = x + c.p * rng.choice([0, 1, 1, (top - 1 - x) // c.p])
        y2 = y + c.p * rng.choice([0, 1, 1, (top - 1 - y) // c.p])
        if x2 >= top:
            x2 = x
        if y2 >= top:
            y2 = y
        if rng.random() < 0.5:
            return bytes([2 + (y & 1)]) + x2.to_bytes(L, 'big')
        return b'\x04' + x2.to_bytes(L, 'big') + y2.to_bytes(L, 'big')
    if r < 0.72:           # compressed, random abscissa
        x = rng.choice([0, 1, c.p - 1, c.p, c.p + 1, (1 << 8 * L) - 1, rng.randrange(c.p), rng.randrange(c.p), rng.randrange(c.p)])
        if rng.random() < 0.25:
            x = pole(c, rng, x)
        x = min(x, (1 << 8 * L) - 1)
        return bytes([rng.choice([2, 3])]) + x.to_bytes(L, 'big')
    if r < 0.82:           # uncompressed, off the curve
        x, y = P or c.G
        m = rng.randrange(5)
        if m == 0:
            y = (y + 1) % c.p
        elif m == 1:
            x, y = y, x
        elif m == 2:
            x = rng.randrange(c.p)
        elif m == 3:
            x, y = 0, 0
        else:
            x, y = rng.randrange(c.p), rng.randrange(c.p)
        return b'\x04' + x.to_bytes(L, 'big') + y.to_bytes(L, 'big')
    if r < 0.88:           # neutral look-alikes
        n = rng.choice([1, 2, L, 1 + L, 2 + L, 2 * L, 1 + 2 * L, 2 + 2 * L, 1 + 3 * L])
        return flip(bytes(n), rng) if rng.random() < 0.4 else bytes(n)
    if r < 0.94:           # correct for another size
        L2 = max(1, L + rng.choice([-1, 1, 2]))
        x, y = P or c.G
        try:
            return rng.choice([b'\x04' + x.to_bytes(L2, 'big') + y.to_bytes(L2, 'big'), bytes([2 + (y & 1)]) + x.to_bytes(L2, 'big')])
        except OverflowError:
            return b'\x04'
    n = rng.choice([1 + L, 1 + 2 * L, rng.randrange(0, 2 * L + 3)])
    return bytes(rng.getrandbits(8) for _ in range(n))


BADCH = [' ', '\n', '\t', '-', '+', 'x', 'g', 'G', '/', ':', '@', '`', '\x7f', '\x80', '\xff', '.', 'Z', '_', '\x01', ',', ';']


def gen_text(c, rng):
    t = gen_bytes(c, rng).hex()
    t = ''.join(ch.upper() if rng.random() < rng.choice([0, 0.5, 1]) else ch for ch in t)
    r = rng.random()
    if r < 0.4 or not t:
        return t
    i = rng.choice([0, 1, 2, len(t) - 1, rng.randrange(len(t))]) % len(t)
    if r < 0.65:
        return t[:i] + rng.choice(BADCH) + t[i + 1:]
    if r < 0.75:
        return t[:i] + rng.choice(BADCH) + t[i:]
    if r < 0.85:
        return rng.choice(['0x' + t, ' ' + t, t + ' ', t + '\n', '0' + t, t + '0', t[:-1], t[1:], '-' + t, t[:2] + ' ' + t[2:], t[:2] + '0x' + t[2:]])
    if r < 0.9:
        return t[:2] + rng.choice(['0x', '-', '+', ' ', '0X']) + t[4:]
    return rng.choice(['', '0', '00', '04', '02', 'zz', 'neutral', '0' * 3, '4', ' ', '%s%n', 'f' * rng.randrange(300)])


class E02(CCheck):
    pid = 'E02'
    rule = ('a case is a curve (toy, supersingular, built-in, any form, Edwards forms with a square d, some with a declared size larger than the prime) and 30-80 imports '
            'of byte strings or texts into a point that previously held a value (often of another curve): valid encodings, bit flips, '
            'wrong lengths and headers, unreduced coordinates, off-curve and random coordinates, neutral look-alikes, other sizes, texts '
            'with non-hexadecimal characters, odd lengths, prefixes and blanks; each verdict and value is compared with an independent '
            'strict decoder, buffers are exact-size under AddressSanitizer; every byte string up to the compressed length (and every '
            'header x coordinate pair) of some one-byte curves is enumerated; non-trivial: at least one accepted and one rejected import')
    cases = {'quick': 5000, 'thorough': 150000}
    budget = {'quick': 140, 'thorough': 2400}
    assumptions = ['the neutral element\'s encoding on Edwards curves with header 00, and a compressed encoding of a point with y = 0 '
                   'under header 03, are accepted or rejected at the library\'s choice (both are represented)']

    def worker_init(self, env):
        super().worker_init(env)
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'])

    def fixed_cases(self, tier, env):
        rng = random.Random(80)
        out = []
        for kind in ('ws', 'mo', 'ed', 'te'):
            for i in range(3 if tier == 'quick' else 16):
                out.append({'table': ref.toy_curve(rng, kind, pmax=(23, 127, 251)[i % 3]).to_json()})
        return out

    def gen(self, rng, env):
        c = widen(env['pool'].pick(rng, 0.45, 0.25), rng, 0.15)
        if rng.random() < 0.1:
            c = ref.incomplete_curve(rng, rng.choice([None, None] + [q for q, _ in ref.BIG]))
        o = env['pool'].pick(rng)
        items = []
        for _ in range(rng.randrange(30, 80)):
            if rng.random() < 0.6:
                items.append(['b', gen_bytes(c, rng).hex()])
            else:
                items.append(['t', gen_text(c, rng)])
        return {'curve': c.to_json(), 'other': o.to_json(), 'items': items}

    def one(self, c, it):
        if it[0] == 'b':
            b = bytes.fromhex(it[1])
            return c.decode(b)
        t = it[1]
        if len(t) % 2 or any(ch not in '0123456789abcdefABCDEF' for ch in t):
            return c.REJECT
        return c.decode(bytes.fromhex(t))

    def run(self, case, env):
        if 'table' in case:
            c = Curve.from_json(case['table'])
            rng = random.Random(repr(case))
            items = [['b', bytes([a]).hex()] for a in range(256)] + [['b', '']]
            items += [['b', bytes([a, x]).hex()] for a in (0, 1, 2, 3, 4, 5, 6, 7, 0x82, 255) for x in range(256)]
            items += [['b', bytes([a, x, y]).hex()] for a in (4,) for x in range(min(256, c.p + 3)) for y in range(min(256, c.p + 3))][:12000]
            items += [['b', bytes([a, rng.randrange(256), rng.randrange(256)]).hex()] for a in range(256) for _ in range(3)]
            o = c
        else:
            c, o, items = Curve.from_json(case['curve']), Curve.from_json(case['other']), case['items']
        lines = ['reset', curve_cmd(0, c), curve_cmd(1, o), 'pinit 0 1', 'pinit 1 0', 'psetz 1 %x %x 0' % c.G]
        chk = []
        for it in items:
            if it[0] == 't' and '\0' in it[1]:
                raise Skip('nul')
            e = self.one(c, it)
            if it[0] == 'b':
                lines.append('pbytes 0 %s 0' % (it[1] or '.'))
            else:
                lines.append('pstr 0 %s 0' % (it[1].encode('latin1').hex() or '.'))
            n = len(lines) - 1
            if e != c.REJECT:
                lines.append('pout 0 0')
                lines.append('paff 0')
            chk.append((n, it, e))
            if 'table' not in case and len(chk) % 5 == 0:
                lines.append('psetz 0 %x %x 1' % o.G)
        # a failed import leaves an object that can be used again
        lines += ['pset 0 1', 'pout 0 0']
        rep = env['drv'].batch(lines, timeout=60 if 'table' in case else None)
        tags = {}
        for n, it, e in chk:
            got = ok(rep[n])[0]
            if e == c.REJECT:
                tags['reject'] = tags.get('reject', 0) + 1
                if got == '0':
                    raise Violation('%s: import of %s accepted' % (case.get('curve') or case['table'], it))
                continue
            either = isinstance(e, tuple) and len(e) and e[0] == c.EITHER
            P = e[1] if either else e
            if got != '0':
                if either:
                    continue
                raise Violation('%s: import of %s refused' % (case.get('curve') or case['table'], it))
            tags['accept'] = tags.get('accept', 0) + 1
            want = c.encode(P, False).hex()
            if ok(rep[n + 1])[0] != want:
                raise Violation('%s: import of %s gives %s, expected %s' % (case.get('curve') or case['table'], it, rep[n + 1], want))
            if P is not None and ok(rep[n + 2]) != [hx(P[0]), hx(P[1])] * 2:
                raise Violation('%s: import of %s has affine coordinates %s' % (case.get('curve') or case['table'], it, rep[n + 2]))
        if ok(rep[-1])[0] != c.encode(c.G, False).hex():
            raise Violation('the point object is unusable after the imports')
        return tags

    def nontrivial(self, case, tags):
        return tags.get('reject', 0) and tags.get('accept', 0)

    def shrinks(self, case):
        if 'items' in case:
            n = len(case['items'])
            s = n // 2
            while s:
                for i in range(0, n, s):
                    yield dict(case, items=case['items'][:i] + case['items'][i + s:])
                s //= 2


CHECKS = {'E01': E01, 'E02': E02}
