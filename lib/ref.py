"""Pure-Python reference model: fields, the four curve forms, encodings, ECDSA, ElGamal.

Deliberately independent of the library: plain integers, affine group laws
written from their textbook definitions (Jacobian coordinates only to make
big scalar multiplications affordable; cross-checked by tools/selftest.py).
The neutral element is None for WS/MO; for ED/TE it is (0,c) / (0,1).
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def legendre(a, p):
    a %= p
    if a == 0:
        return 0
    r = pow(a, (p - 1) // 2, p)
    return 1 if r == 1 else -1


def sqrt_mod(a, p):
    """A square root of a mod p or None (Cipolla; independent of Tonelli)."""
    a %= p
    if a == 0:
        return 0
    if legendre(a, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    t = 0
    while legendre(t * t - a, p) != -1:
        t += 1
    w = (t * t - a) % p

    def mul(u, v):
        return ((u[0] * v[0] + u[1] * v[1] * w) % p, (u[0] * v[1] + u[1] * v[0]) % p)
    r, b, e = (1, 0), (t, 1), (p + 1) // 2
    while e:
        if e & 1:
            r = mul(r, b)
        b = mul(b, b)
        e >>= 1
    return r[0]


def inv(a, p):
    return pow(a, -1, p)


class Curve:
    """kind in ws/ed/mo/te; (k1,k2) = (a,b) (c,d) (B,A) (a,d)."""

    incomplete = False

    def __init__(self, kind, p, k1, k2, n, h, gx, gy, bits=None, name=None):
        self.kind, self.p = kind, p
        self.k1, self.k2 = k1 % p, k2 % p
        self.n, self.h = n, h
        self.G = (gx, gy)
        self.bits = p.bit_length() if bits is None else bits
        self.name = name
        self.blen = (self.bits + 7) // 8
        self.nlen = (n.bit_length() + 7) // 8 if n > 0 else 0

    def params(self):
        return [self.kind, self.p, self.k1, self.k2, self.n, self.h, self.G[0], self.G[1], self.bits]

    def to_json(self):
        if self.name:
            return self.name
        return [self.kind] + [hex(v) for v in self.params()[1:8]] + [self.bits]

    @staticmethod
    def from_json(j):
        if isinstance(j, str):
            return NAMED[j]
        return Curve(j[0], *[int(v, 16) for v in j[1:8]], bits=j[8])

    # ---- equation
    def on(self, x, y):
        p = self.p
        x %= p
        y %= p
        if self.kind == 'ws':
            return (y * y - (x * x * x + self.k1 * x + self.k2)) % p == 0
        if self.kind == 'ed':
            return (x * x + y * y - self.k1 * self.k1 * (1 + self.k2 * x * x * y * y)) % p == 0
        if self.kind == 'mo':
            return (self.k1 * y * y - (x * x * x + self.k2 * x * x + x)) % p == 0
        return (self.k1 * x * x + y * y - (1 + self.k2 * x * x * y * y)) % p == 0

    def ysq(self, x):
        """y^2 for a given x, or None when the equation has no finite y."""
        p = self.p
        if self.kind == 'ws':
            return (x ** 3 + self.k1 * x + self.k2) % p
        if self.kind == 'mo':
            return (x * x * x + self.k2 * x * x + x) * inv(self.k1, p) % p
        if self.kind == 'ed':
            c2 = self.k1 * self.k1 % p
            num, den = (c2 - x * x) % p, (1 - c2 * self.k2 * x * x) % p
        else:
            num, den = (1 - self.k1 * x * x) % p, (1 - self.k2 * x * x) % p
        if den == 0:
            return None
        return num * inv(den, p) % p

    def lift(self, x):
        """All y with (x,y) on the curve, sorted."""
        v = self.ysq(x % self.p)
        if v is None:
            return []
        r = sqrt_mod(v, self.p)
        if r is None:
            return []
        return sorted({r, (-r) % self.p})

    @property
    def O(self):
        if self.kind == 'ed':
            return (0, self.k1)
        if self.kind == 'te':
            return (0, 1)
        return None

    def neg(self, P):
        if P is None:
            return None
        x, y = P
        if self.kind in ('ws', 'mo'):
            return (x, -y % self.p)
        return (-x % self.p, y)

    def add(self, P, Q):
        p = self.p
        if self.kind == 'ws':
            if P is None:
                return Q
            if Q is None:
                return P
            x1, y1 = P
            x2, y2 = Q
            if x1 == x2:
                if (y1 + y2) % p == 0:
                    return None
                l = (3 * x1 * x1 + self.k1) * inv(2 * y1, p) % p
            else:
                l = (y2 - y1) * inv(x2 - x1, p) % p
            x3 = (l * l - x1 - x2) % p
            return (x3, (l * (x1 - x3) - y1) % p)
        if self.kind == 'mo':
            if P is None:
                return Q
            if Q is None:
                return P
            x1, y1 = P
            x2, y2 = Q
            B, A = self.k1, self.k2
            if x1 == x2:
                if (y1 + y2) % p == 0:
                    return None
                l = (3 * x1 * x1 + 2 * A * x1 + 1) * inv(2 * B * y1, p) % p
            else:
                l = (y2 - y1) * inv(x2 - x1, p) % p
            x3 = (B * l * l - A - x1 - x2) % p
            return (x3, (l * (x1 - x3) - y1) % p)
        x1, y1 = P
        x2, y2 = Q
        t = x1 * x2 % p * y1 % p * y2 % p * self.k2 % p
        if self.kind == 'ed':
            c = self.k1
            return ((x1 * y2 + x2 * y1) * inv(c * (1 + t), p) % p,
                    (y1 * y2 - x1 * x2) * inv(c * (1 - t), p) % p)
        return ((x1 * y2 + x2 * y1) * inv(1 + t, p) % p,
                (y1 * y2 - self.k1 * x1 * x2) * inv(1 - t, p) % p)

    def sub(self, P, Q):
        return self.add(P, self.neg(Q))

    def dbl(self, P):
        return self.add(P, P)

    # ---- scalar multiplication by an arbitrary integer (no reduction)
    def mul_int(self, P, k):
        if k < 0:
            return self.mul_int(self.neg(P), -k)
        if self.p.bit_length() <= 24:
            R = self.O
            while k:
                if k & 1:
                    R = self.add(R, P)
                P = self.add(P, P)
                k >>= 1
            return R
        if self.kind in ('ws', 'mo'):
            if P is None or k == 0:
                return None
            p = self.p
            if self.kind == 'mo':
                B, A = self.k1, self.k2
                i3 = inv(3, p)
                Bi = inv(B, p)
                a = (3 - A * A) * inv(3 * B * B, p) % p
                Q = ((P[0] + A * i3) * Bi % p, P[1] * Bi % p)
                R = _jac_mul(a, p, Q, k)
                if R is None:
                    return None
                return ((R[0] * B - A * i3) % p, R[1] * B % p)
            return _jac_mul(self.k1, p, P, k)
        return self._ed_mul(P, k)

    def _ed_mul(self, P, k):
        # homogeneous form of the affine law above
        p, d = self.p, self.k2
        a, c = (1, self.k1) if self.kind == 'ed' else (self.k1, 1)

        def add(U, V):
            X1, Y1, Z1 = U
            X2, Y2, Z2 = V
            zz = Z1 * Z2 % p
            xx = X1 * X2 % p
            yy = Y1 * Y2 % p
            t = d * xx % p * yy % p
            z2 = zz * zz % p
            f, g = (z2 - t) % p, (z2 + t) % p
            xn = (X1 * Y2 + X2 * Y1) % p
            yn = (yy - a * xx) % p
            # x3 = xn*zz /(c*g)  y3 = yn*zz/(c*f)
            return (xn * zz % p * f % p, yn * zz % p * g % p, c * f % p * g % p)
        R = self.O + (1,)
        Q = P + (1,)
        for b in bin(k)[2:] if k else '':
            R = add(R, R)
            if b == '1':
                R = add(R, Q)
        zi = inv(R[2], p)
        return (R[0] * zi % p, R[1] * zi % p)

    def mul(self, P, k):
        """What the library promises: (k mod n) * P."""
        return self.mul_int(P, k % self.n)

    # ---- encodings
    def encode(self, P, compress):
        L = self.blen
        if P is None:
            return bytes(1 + (L if compress else 2 * L))
        x, y = P
        if compress:
            return bytes([2 + (y & 1)]) + x.to_bytes(L, 'big')
        return b'\x04' + x.to_bytes(L, 'big') + y.to_bytes(L, 'big')

    REJECT = 'reject'
    EITHER = 'either'

    def decode(self, b):
        """Point, REJECT, or (EITHER, P): both rejection and P are fine."""
        L = self.blen
        if len(b) == 0:
            return self.REJECT
        if b[0] == 0:
            if any(b) or len(b) not in (1 + L, 1 + 2 * L):
                return self.REJECT
            if self.kind in ('ws', 'mo'):
                return None
            return (self.EITHER, self.O)
        if b[0] == 4:
            if len(b) != 1 + 2 * L:
                return self.REJECT
            x = int.from_bytes(b[1:1 + L], 'big')
            y = int.from_bytes(b[1 + L:], 'big')
            if x >= self.p or y >= self.p or not self.on(x, y):
                return self.REJECT
            return (x, y)
        if b[0] in (2, 3):
            if len(b) != 1 + L:
                return self.REJECT
            x = int.from_bytes(b[1:], 'big')
            if x >= self.p:
                return self.REJECT
            ys = self.lift(x)
            if not ys:
                return self.REJECT
            for y in ys:
                if y & 1 == b[0] & 1:
                    return (x, y)
            # only y == 0 exists and the header says "odd"
            return (self.EITHER, (x, 0))
        return self.REJECT

    # ---- sampling
    def rand_point(self, rng):
        if self.incomplete or self.p < 64 or rng.random() < 0.3:
            for _ in range(200):
                x = rng.randrange(self.p)
                ys = self.lift(x)
                if ys:
                    return (x, rng.choice(ys))
        return self.mul_int(self.G, rng.randrange(1, self.n))

    def all_points(self):
        pts = [] if self.O is not None else [None]
        for x in range(self.p):
            for y in self.lift(x):
                pts.append((x, y))
        return pts

    def nonsingular(self):
        p = self.p
        if self.kind == 'ws':
            return (4 * self.k1 ** 3 + 27 * self.k2 ** 2) % p != 0
        if self.kind == 'mo':
            return self.k1 % p != 0 and (self.k2 * self.k2 - 4) % p != 0
        if self.kind == 'ed':
            return self.k1 % p != 0 and self.k2 % p != 0 and (self.k2 * pow(self.k1, 4, p)) % p != 1
        return self.k1 % p != 0 and self.k2 % p != 0 and self.k1 != self.k2

    def complete(self):
        """The (twisted) Edwards law is complete."""
        p = self.p
        if self.kind == 'ed':
            return legendre(self.k2, p) == -1
        if self.kind == 'te':
            return legendre(self.k1, p) == 1 and legendre(self.k2, p) == -1
        return True


def _jac_mul(a, p, P, k):
    def dbl(T):
        X, Y, Z = T
        if Z == 0 or Y == 0:
            return (1, 1, 0)
        yy = Y * Y % p
        s = 4 * X * yy % p
        m = (3 * X * X + a * pow(Z, 4, p)) % p
        x3 = (m * m - 2 * s) % p
        return (x3, (m * (s - x3) - 8 * yy * yy) % p, 2 * Y * Z % p)

    def addaff(T, Q):
        X, Y, Z = T
        if Z == 0:
            return (Q[0], Q[1], 1)
        z2 = Z * Z % p
        u = Q[0] * z2 % p
        s = Q[1] * z2 % p * Z % p
        h = (u - X) % p
        r = (s - Y) % p
        if h == 0:
            if r == 0:
                return dbl(T)
            return (1, 1, 0)
        h2 = h * h % p
        h3 = h2 * h % p
        v = X * h2 % p
        x3 = (r * r - h3 - 2 * v) % p
        return (x3, (r * (v - x3) - Y * h3) % p, h * Z % p)
    R = (1, 1, 0)
    for b in bin(k)[2:]:
        R = dbl(R)
        if b == '1':
            R = addaff(R, P)
    if R[2] == 0:
        return None
    zi = inv(R[2], p)
    z2 = zi * zi % p
    return (R[0] * z2 % p, R[1] * z2 % p * zi % p)


# ------------------------------------------------------------------ ECDSA
def hash_to_int(h, n):
    e = int.from_bytes(h, 'big')
    d = len(h) * 8 - n.bit_length()
    return e >> d if d > 0 else e


def ecdsa_verify(cv, Q, h, r, s):
    n = cv.n
    if not (0 < r < n and 0 < s < n):
        return False
    w = inv(s, n)
    e = hash_to_int(h, n)
    u1, u2 = e * w % n, r * w % n
    R = cv.add(cv.mul_int(cv.G, u1), cv.mul_int(Q, u2))
    if R is None or R == cv.O:
        return False
    return R[0] % n == r


def ecdsa_sign(cv, d, h, k):
    n = cv.n
    R = cv.mul_int(cv.G, k)
    if R is None or R == cv.O:
        return None
    r = R[0] % n
    s = inv(k, n) * (hash_to_int(h, n) + r * d) % n
    if r == 0 or s == 0:
        return None
    return r, s


# ------------------------------------------------------------ curve supply
def _load_named():
    out = {}
    with open(os.path.join(HERE, 'named_curves.json')) as f:
        for name, j in json.load(f).items():
            c = Curve.from_json(j)
            c.name = name
            out[name] = c
    return out


NAMED = {}
try:
    NAMED = _load_named()
except FileNotFoundError:
    pass


def factor(n):
    out, d = {}, 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


SMALL_PRIMES = [q for q in range(5, 4000) if is_prime(q)]


def toy_curve(rng, kind=None, pmax=600, want_prime_order=None):
    """A valid random curve over a small prime, its group enumerated by brute force."""
    while True:
        kd = kind or rng.choice(['ws', 'ed', 'mo', 'te', 'ws', 'mo'])
        p = rng.choice([q for q in SMALL_PRIMES if q <= pmax])
        k1, k2 = rng.randrange(p), rng.randrange(p)
        if rng.random() < 0.15:
            k1 = rng.choice([0, 1, p - 1, p - 3 if p > 3 else 1, 2 % p]) % p
        if kd == 'ed' and rng.random() < 0.3:
            k1 = 1
        c = Curve(kd, p, k1, k2, 1, 1, 0, 0)
        if not c.nonsingular() or not c.complete():
            continue
        pts = c.all_points()
        N = len(pts)
        f = factor(N)
        n = max(f)
        if n < 3:
            continue
        if want_prime_order is not None and (N == n) != want_prime_order:
            continue
        h = N // n
        for _ in range(50):
            P = rng.choice(pts)
            G = c.mul_int(P, h)
            if G is not None and G != c.O:
                break
        else:
            continue
        if c.mul_int(G, n) != c.O:   # N was not divisible as expected (cannot happen)
            raise AssertionError('group order')
        out = Curve(kd, p, k1, k2, n, h, G[0], G[1])
        out.order = N
        return out


def incomplete_curve(rng, p=None):
    """A curve of an Edwards form whose addition law is not complete (d a square); its group order is not known (n is only some prime).
    Good for questions about single points, not for group operations."""
    p = p or rng.choice([q for q in SMALL_PRIMES if q > 30])
    while True:
        kd = rng.choice(['ed', 'te'])
        c = Curve(kd, p, rng.randrange(1, p), pow(rng.randrange(2, p), 2, p), 1, 1, 0, 0)
        if not c.nonsingular() or c.k2 in (0, c.k1):
            continue
        for _ in range(40):
            x = rng.randrange(1, p)
            ys = c.lift(x)
            if ys and ys[0]:
                n = p + 1
                while not is_prime(n):
                    n += 1
                out = Curve(kd, p, c.k1, c.k2, n, 1, x, ys[0])
                out.incomplete = True
                return out


def supersingular(rng, kind, p, n):
    """Curve of the given form over p (p = 3 mod 4) with group order p+1 = h*n."""
    assert p % 4 == 3 and (p + 1) % n == 0
    h = (p + 1) // n
    while True:
        if kind == 'ws':
            if p % 3 == 2 and rng.random() < 0.4:
                c = Curve('ws', p, 0, rng.randrange(1, p), n, h, 0, 0)
            else:
                c = Curve('ws', p, rng.randrange(1, p), 0, n, h, 0, 0)
                # move the 2-torsion off the origin: translate is not short WS, so scale only
        elif kind == 'mo':
            c = Curve('mo', p, rng.choice([1, rng.randrange(1, p)]), 0, n, h, 0, 0)
        elif kind == 'ed':
            cc = rng.choice([1, rng.randrange(1, p)])
            # d*c^4 = -1
            c = Curve('ed', p, cc, -inv(pow(cc, 4, p), p), n, h, 0, 0)
        else:
            s = rng.randrange(1, p)
            a = s * s % p
            c = Curve('te', p, a, -a, n, h, 0, 0)
        if not c.nonsingular() or not c.complete():
            continue
        for _ in range(20):
            x = rng.randrange(p)
            ys = c.lift(x)
            if not ys:
                continue
            P = (x, rng.choice(ys))
            G = c.mul_int(P, h)
            if G is None or G == c.O:
                continue
            if c.mul_int(G, n) != c.O:
                raise AssertionError('supersingular order')
            return Curve(c.kind, p, c.k1, c.k2, n, h, G[0], G[1])


BIG = []
try:
    with open(os.path.join(HERE, 'big_primes.json')) as _f:
        _j = json.load(_f)
        BIG = [(int(p, 16), int(n, 16)) for p, n in _j['supersingular']]
        FIELD_PRIMES = [int(p, 16) for p in _j['field']]
        HI2 = [int(p, 16) for p in _j['high2adic']]
except FileNotFoundError:
    FIELD_PRIMES, HI2 = [], []
