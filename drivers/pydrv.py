"""Line-protocol driver running inside the interpreter under test.
argv[1] = directory that holds the ECC extension module.
Each line is a JSON list:  ["e", target, expr]   evaluate, store, reply encoded value
                           ["x", target, stmt]   execute, reply encoded value of target
                           ["v", name, ...]      reply encoded values of the names
                           ["n"]                 new namespace (drops every object of the last case) and collect
                           ["leak", setup, body, n]  growth of live heap bytes in 3 windows of n repetitions
                           ["rss"]               live heap bytes
"""
import ctypes
import gc
import hashlib
import io
import json
import os
import sys
import time
import types

try:
    sys.set_int_max_str_digits(0)
except AttributeError:
    pass
sys.path.insert(0, sys.argv[1])
import ECC                                     # noqa: E402

out = os.fdopen(os.dup(1), 'w', buffering=1 << 16)
os.dup2(2, 1)                                  # the library prints nothing into the protocol


def enc(v, d=0):
    if d > 6:
        return ['o', 'deep']
    t = type(v)
    if v is None:
        return ['n']
    if v is NotImplemented:
        return ['N']
    if t is bool:
        return ['b', int(v)]
    if t is int:
        return ['i', '%x' % v]
    if t is str:
        return ['s', v.encode('utf-8', 'surrogatepass').hex()]
    if t is bytes:
        return ['y', v.hex()]
    if t in (tuple, list):
        return ['t' if t is tuple else 'l'] + [enc(x, d + 1) for x in v[:400]]
    try:
        if isinstance(v, ECC.FieldElement):
            r = repr(v)
            a, p = r[len('ECC.FieldElement('):-1].split(', ')
            return ['F', '%x' % int(v), '%x' % int(a), '%x' % int(p)]
        if isinstance(v, ECC.ECPoint):
            return ['P', v.compressed().hex(), v.uncompressed().hex(), str(v)]
        if isinstance(v, ECC.ECurve):
            return ['C', repr(v)]
        if isinstance(v, ECC.ECDSASignature):
            return ['S', v.AsBytes().hex(), str(v)]
        if isinstance(v, ECC.ECElgamalCiphertext):
            return ['E', enc(v.C, d + 1), enc(v.D, d + 1), str(v)]
        if isinstance(v, ECC.ECDSASignatureScheme):
            return ['H', repr(v).split(', <module')[0]]
    except Exception as e:
        return ['u', t.__name__, type(e).__name__]
    return ['o', t.__name__]


def mkhash(size, name='H', kind='id'):
    """A hash module: identity (first size bytes, zero padded) or a real digest."""
    m = types.ModuleType(name)

    class Hash:
        def __init__(self, data):
            self.data = data

        def digest(self):
            if kind == 'sha256':
                return hashlib.sha256(self.data).digest()
            if kind == 'sha512':
                return hashlib.sha512(self.data).digest()
            return (self.data[:size] + bytes(size))[:size]

    def new(data=b''):
        return Hash(data)
    m.digest_size = size
    m.new = new
    return m


def badhash(how, size=32):
    m = mkhash(size, 'bad')
    H = type(m.new(b''))

    class Raises(H):
        def digest(self):
            raise RuntimeError('digest')

    class NotBytes(H):
        def digest(self):
            return 'x' * size

    class Ba(H):
        def digest(self):
            return bytearray(size)

    class Long(H):
        def digest(self):
            return bytes(size + 5000)

    class Short(H):
        def digest(self):
            return b'ab'

    class Later(H):
        calls = 0
        mode = how

        def digest(self):
            Later.calls += 1
            if Later.calls > 1:
                if how == 'later-raise':
                    raise KeyError('later')
                if how == 'later-long':
                    return bytes(size + 4096)
                if how == 'later-short':
                    return b''
                if how == 'later-none':
                    return None
            return H.digest(self)

    if how == 'new-raises':
        def new(data=b''):
            raise ValueError('new')
        m.new = new
    elif how == 'new-none':
        m.new = lambda data=b'': None
    elif how == 'new-args':
        m.new = lambda: None
    elif how == 'new-missing':
        del m.new
    elif how == 'new-int':
        m.new = 7
    elif how == 'new-class':
        m.new = H
    elif how == 'size-missing':
        del m.digest_size
    elif how == 'size-str':
        m.digest_size = '32'
    elif how == 'size-neg':
        m.digest_size = -1
    elif how == 'size-zero':
        m.digest_size = 0
    elif how == 'size-huge':
        m.digest_size = 1 << 70
    elif how == 'size-big':
        m.digest_size = 1 << 40
    elif how == 'size-bool':
        m.digest_size = True
    else:
        k = {'digest-raises': Raises, 'digest-str': NotBytes, 'digest-ba': Ba, 'digest-long': Long, 'digest-short': Short}.get(how, Later)
        m.new = lambda data=b'': k(data)
    return m


class Refl:
    """answers every reflected operator and comparison"""
    def __radd__(self, o): return 'refl'
    def __rsub__(self, o): return 'refl'
    def __rmul__(self, o): return 'refl'
    def __rpow__(self, o, m=None): return 'refl'
    def __add__(self, o): return 'refl'
    def __sub__(self, o): return 'refl'
    def __mul__(self, o): return 'refl'
    def __pow__(self, o, m=None): return 'refl'
    def __eq__(self, o): return 'refl'
    def __ne__(self, o): return 'refl'
    def __lt__(self, o): return 'refl'
    def __gt__(self, o): return 'refl'
    __hash__ = None


class Boom:
    def __getattribute__(self, n): raise RuntimeError('boom')
    def __eq__(self, o): raise RuntimeError('boom')
    def __index__(self): raise RuntimeError('boom')
    def __bool__(self): raise RuntimeError('boom')
    def __repr__(self): raise RuntimeError('boom')


class MyInt(int):
    def __neg__(self): return 'not a number'
    def __index__(self): return 3
    def __eq__(self, o): return NotImplemented
    __hash__ = None


class Idx:
    def __index__(self): return 5
    def __int__(self): return 5


class SubFE(ECC.FieldElement):
    pass


class NoInitFE(ECC.FieldElement):
    def __init__(self, *a):
        pass


class SubCV(ECC.ECurve):
    def __repr__(self):
        raise RuntimeError('repr')


class SubPT(ECC.ECPoint):
    def __init__(self, *a):
        super().__init__(*a)
        self.extra = [self]


class NoInitPT(ECC.ECPoint):
    def __init__(self, *a):
        pass


BASE = {k: getattr(ECC, k) for k in ('FieldElement', 'ECurve', 'ECPoint', 'ECDSASignature', 'ECDSASignatureScheme', 'ECElgamalCiphertext')}
BASE.update(ECC=ECC, gc=gc, mkhash=mkhash, badhash=badhash, Refl=Refl, Boom=Boom, MyInt=MyInt, Idx=Idx, SubFE=SubFE, NoInitFE=NoInitFE,
            SubCV=SubCV, SubPT=SubPT, NoInitPT=NoInitPT, sys=sys, hashlib=hashlib, types=types)


libc = ctypes.CDLL(None)
try:
    live = libc.vp_live
    live.restype = ctypes.c_long
    live.argtypes = []
except AttributeError:
    live = None


def leak(setup, body, n):
    g = dict(BASE)
    exec(setup, g)
    src = 'def f():\n' + ''.join('    ' + l + '\n' for l in body.split('\n')) + '\ndef run(n):\n    for _ in range(n):\n        f()\n'
    exec(compile(src, '<leak>', 'exec'), g)
    run = g['run']
    gc.collect()
    t = time.monotonic()
    run(3)
    t = (time.monotonic() - t) / 3
    n = max(6, min(n, int(0.7 / t) if t else n))
    run(n)
    res = [n]
    for _ in range(3):
        gc.collect()
        a = live()
        run(n)
        gc.collect()
        res.append(live() - a)
        if res[-1] < 16 * n:
            break                              # memory does not grow with every repetition
    return res


def main():
    ns = dict(BASE)
    for line in sys.stdin.buffer:
        line = line.decode().rstrip('\n')
        if line == '.':
            out.write('.\n')
            out.flush()
            continue
        cmd = json.loads(line)
        try:
            if cmd[0] == 'e':
                v = eval(cmd[2], ns)
                if cmd[1]:
                    ns[cmd[1]] = v
                r = enc(v)
                v = None
            elif cmd[0] == 'x':
                exec(cmd[2], ns)
                r = enc(ns[cmd[1]]) if cmd[1] else ['n']
            elif cmd[0] == 'v':
                r = [enc(ns[k]) if k in ns else ['?'] for k in cmd[1:]]
            elif cmd[0] == 'n':
                ns = dict(BASE)
                gc.collect()
                r = ['n']
            elif cmd[0] == 'leak':
                r = leak(*cmd[1:])
            else:
                r = ['BAD']
        except BaseException as e:
            r = ['!', type(e).__name__]
            try:
                r.append(str(e)[:300].encode('utf-8', 'replace').decode())
            except BaseException:
                pass
            e = None
        v = None
        out.write(json.dumps(r) + '\n')
    out.flush()
    os._exit(0)


main()
