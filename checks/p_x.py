"""X01-X03: the command-line tools, run as processes on generated files."""
import base64
import ctypes
import hashlib
import os
import random
import re
import resource
import shutil
import subprocess
import tempfile

import ref
from core import (Check, Violation, Skip, HarnessError, REPO, VERIF, SAN, SAN_ENV, CFLAGS, cached_build, tree_files, lib_sources, sh)
from pmodel import Pool
from p_s import pick_key
from ref import Curve

TOOLS = ['ecdh_gen', 'ecdh_pub', 'ecdh_enc', 'ecdh_dec', 'ecdsa_sign', 'ecdsa_verify', 'ecelgamal_enc', 'ecelgamal_dec']
TYPE = {'ws': 2, 'ed': 3, 'mo': 4, 'te': 5}
KIND = {v: k for k, v in TYPE.items()}
PRIV, PUB, MSG = 'ECDH PRIVATE KEY', 'ECDH PUBLIC KEY', 'ECDHE_XSALSA20 ENCRYPTED MESSAGE'
SMSG, SIG, EG = 'ECDSA SIGNED MESSAGE', 'ECDSA SIGNATURE', 'ECELGAMAL ENCRYPTED MESSAGE'


REPAIRS = os.path.join(VERIF, 'findings', 'examples.patch')


def cli_tools(variant, repaired=False):
    """the tools of the tree; repaired: with the proposed repairs of the listed findings, None where those do not apply"""
    if repaired:
        t = tempfile.mkdtemp(prefix='cli-src-')
        try:
            shutil.copytree(os.path.join(REPO, 'examples'), os.path.join(t, 'examples'))
            if subprocess.run(['patch', '-s', '-f', '-p1', '-i', REPAIRS], cwd=t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return None
            return cli_build(variant, os.path.join(t, 'examples'), '-repaired')
        finally:
            shutil.rmtree(t, ignore_errors=True)
    return cli_build(variant, os.path.join(REPO, 'examples'), '')


def cli_build(variant, ex, name):
    srcs = sorted(f for f in os.listdir(ex) if f.endswith('.c') and not f.endswith('_asn1_tab.c'))
    files = tree_files(os.path.join(REPO, 'src'), os.path.join(REPO, 'include')) + [
        os.path.join(ex, f) for f in sorted(os.listdir(ex)) if f.endswith(('.h', '.asn')) or f in srcs]

    def build(d):
        flags = ['-g', '-O1' if variant == 'asan' else '-O2', '-w', '-DSAFE_CLEAN', '-I' + os.path.join(REPO, 'include'), '-I' + ex, '-I' + d]
        flags += SAN if variant == 'asan' else []
        jobs = [(s, os.path.join(d, 'lib_' + os.path.basename(s)[:-2] + '.o')) for s in lib_sources()]
        jobs += [(os.path.join(ex, s), os.path.join(d, s[:-2] + '.o')) for s in srcs]
        for a in sorted(f for f in os.listdir(ex) if f.endswith('.asn')):
            shutil.copy(os.path.join(ex, a), d)
            sh(['asn1Parser', a], cwd=d)
            t = os.path.join(d, a[:-4] + '_asn1_tab.c')
            jobs.append((t, t[:-2] + '.o'))
        procs = [subprocess.Popen(['gcc', '-c'] + flags + ['-o', o, s], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for s, o in jobs]
        for p, j in zip(procs, jobs):
            e = p.communicate()[1]
            if p.returncode:
                raise HarnessError('build failed: %s\n%s' % (j[0], e.decode(errors='replace')[-3000:]))
        common = [o for s, o in jobs if os.path.basename(s)[:-2] not in TOOLS]
        for t in TOOLS:
            sh(['gcc'] + (SAN if variant == 'asan' else []) + ['-o', os.path.join(d, t), os.path.join(d, t + '.o')] + common +
               ['-lgmp', '-ltasn1', '-lpopt', '-lb64', '-lsodium', '-lm'])
        for f in os.listdir(d):
            if f.endswith('.o'):
                os.unlink(os.path.join(d, f))
    return cached_build('cli-' + variant + name, files, [], build)


# ------------------------------------------------------------ DER and wrapping
def tlv(tag, body):
    n = len(body)
    if n < 128:
        return bytes([tag, n]) + body
    l = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([tag, 128 | len(l)]) + l + body


def ibytes(v):
    return v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')


def octs(b):
    return tlv(4, b)


def dint(v, tag=2):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return tlv(tag, v.to_bytes(n, 'big', signed=True))


CURVE_FIELDS = ['p', 'type', 'p1', 'p2', 'n', 'h', 'gx', 'gy', 'bits']


def curve_fields(c):
    return {'p': octs(ibytes(c.p)), 'type': tlv(10, bytes([TYPE[c.kind]])), 'p1': octs(ibytes(c.k1)), 'p2': octs(ibytes(c.k2)), 'n': octs(ibytes(c.n)),
            'h': octs(ibytes(c.h)), 'gx': octs(ibytes(c.G[0])), 'gy': octs(ibytes(c.G[1])), 'bits': dint(c.bits)}


def curve_der(f):
    g = lambda *k: b''.join(f[x] for x in k)        # noqa: E731
    return tlv(0x30, g('p', 'type') + tlv(0x30, g('p1', 'p2')) + g('n', 'h') + tlv(0x30, g('gx', 'gy')) + g('bits'))


def der_of(kind, fields, cf):
    """fields: list of (name, encoded) in order"""
    return tlv(0x30, b''.join(v for _, v in fields) + (curve_der(cf) if cf is not None else b''))


def wrap(der, tag, width=72):
    b = base64.b64encode(der).decode()
    return ('-----BEGIN %s-----\n' % tag + '\n'.join(b[i:i + width] for i in range(0, len(b), width)) + '\n-----END %s-----\n' % tag).encode()


def priv_file(c, k):
    return wrap(der_of('priv', [('k', octs(ibytes(k)))], curve_fields(c)), PRIV)


def pub_file(c, P):
    return wrap(der_of('pub', [('k', octs(c.encode(P, True)))], curve_fields(c)), PUB)


def eg_file(c, C, D):
    return wrap(der_of('eg', [('c', octs(c.encode(C, True))), ('d', octs(c.encode(D, True)))], curve_fields(c)), EG)


def msg_file(pt, nonce, ct):
    return wrap(tlv(0x30, octs(pt) + octs(nonce) + octs(ct)), MSG)


def sig_bytes(c, r, s):
    L = (c.n.bit_length() + 7) // 8
    return r.to_bytes(L, 'big') + s.to_bytes(L, 'big')


def signed_file(m, sg):
    return wrap(m, SMSG) + wrap(sg, SIG)


class Bad(Exception):
    pass


def rd(b, i, tag):
    if i + 2 > len(b) or b[i] != tag:
        raise Bad('tag')
    n = b[i + 1]
    i += 2
    if n & 128:
        k = n & 127
        n = int.from_bytes(b[i:i + k], 'big')
        i += k
    if i + n > len(b):
        raise Bad('length')
    return b[i:i + n], i + n


def rd_curve(b):
    p, i = rd(b, 0, 4)
    t, i = rd(b, i, 10)
    par, i = rd(b, i, 0x30)
    n, i = rd(b, i, 4)
    h, i = rd(b, i, 4)
    g, i = rd(b, i, 0x30)
    bits, i = rd(b, i, 2)
    if i != len(b):
        raise Bad('trailing')
    p1, j = rd(par, 0, 4)
    p2, _ = rd(par, j, 4)
    gx, j = rd(g, 0, 4)
    gy, _ = rd(g, j, 4)
    I = lambda x: int.from_bytes(x, 'big')          # noqa: E731
    return (I(t), I(p), I(p1), I(p2), I(n), I(h), I(gx), I(gy), I(bits))


def curve_tuple(c):
    return (TYPE[c.kind], c.p, c.k1, c.k2, c.n, c.h, c.G[0], c.G[1], c.bits)


def unwrap(text, tag):
    try:
        t = text.decode('ascii')
    except UnicodeDecodeError:
        raise Bad('text')
    a, z = '-----BEGIN %s-----\n' % tag, '-----END %s-----\n' % tag
    if t.count(a) != 1 or t.count(z) != 1:
        raise Bad('wrapping')
    body = t[t.index(a) + len(a):t.index(z)]
    try:
        return base64.b64decode(''.join(body.split()), validate=True)
    except ValueError:
        raise Bad('base64')


def parse_file(text, tag, nfields, curve=True):
    b, end = rd(unwrap(text, tag), 0, 0x30)
    i, out = 0, []
    for _ in range(nfields):
        v, i = rd(b, i, 4)
        out.append(v)
    if curve:
        v, i = rd(b, i, 0x30)
        out.append(rd_curve(v))
    if i != len(b):
        raise Bad('trailing')
    return out


# ------------------------------------------------------------------ running
_sodium = None


def xsalsa(data, nonce, key):
    global _sodium
    if _sodium is None:
        _sodium = ctypes.CDLL('libsodium.so.23')
    out = ctypes.create_string_buffer(max(1, len(data)))
    _sodium.crypto_stream_xor(out, data, ctypes.c_ulonglong(len(data)), nonce, key)
    return out.raw[:len(data)]


def shared_key(c, P):
    return hashlib.sha256(c.encode(P, True)).digest()


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def site(se):
    """the function of the tools in which a process died"""
    t = se.decode(errors='replace')
    m = re.search(r'([\w.]+\.c):\d+: (\w+): Assertion', t)
    if m:
        return '%s:%s:assertion' % m.groups()
    m = re.search(r'#\d+ 0x[0-9a-f]+ in (\w+) \S*/examples/([\w.]+\.c)', t)
    if m:
        return '%s:%s:%s' % (m.group(2), m.group(1), (re.findall(r'Sanitizer: ([\w-]+)', t) or ['?'])[0])
    return '?'


class CliCheck(Check):
    variants = ['plain', 'asan']
    pool_args = dict(ntoy=16, nbig=10)
    timeout = 60
    nondet = True

    def setup(self, tier):
        b = {'cli': {v: cli_tools(v) for v in sorted(set(self.variants))}}
        if self.pid == 'X03':
            b['repaired'] = {v: cli_tools(v, True) for v in sorted(set(self.variants))}
        return b

    def worker_init(self, env):
        env['dir'] = tempfile.mkdtemp(prefix='cli-')
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'], **self.pool_args)

    def worker_done(self, env):
        if 'dir' in env:
            shutil.rmtree(env['dir'], ignore_errors=True)

    def shrinks(self, case):
        for k in ('msg', 'msg2'):
            m = case.get(k)
            if isinstance(m, str) and len(m) > 2:
                yield dict(case, **{k: m[:len(m) // 4 * 2]})
                yield dict(case, **{k: m[len(m) // 4 * 2:]})

    # tool runs
    def run_tool(self, env, tool, args=(), stdin=b'', files=(), out=None):
        """rc, stdout, stderr; files: {name: bytes} placed in the scratch directory"""
        d = env['dir']
        for n, b in dict(files).items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        v = env['variant']
        e = dict(os.environ, LC_ALL='C')
        if v == 'asan':
            e.update(SAN_ENV)
            e['ASAN_OPTIONS'] = e.get('ASAN_OPTIONS', '') + ':detect_leaks=0:hard_rss_limit_mb=1500'
        else:
            e['MALLOC_PERTURB_'] = '165'
            e['MALLOC_CHECK_'] = '3'
        e.update(env.get('tool_env', {}))
        cmd = [os.path.join(env['built'][env.get('tools', 'cli')][v], tool)] + list(args)
        o = open(out, 'wb') if out else subprocess.PIPE
        try:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.PIPE, stdout=o, stderr=subprocess.PIPE, preexec_fn=limit if v == 'plain' else None)
            try:
                so, se = p.communicate(stdin, timeout=self.timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise Violation('%s %s does not end within %d s' % (tool, ' '.join(args), self.timeout), kind='hang', key='hang:' + tool)
        finally:
            if out:
                o.close()
            for n in dict(files):
                os.unlink(os.path.join(d, n))
        what = '%s %s' % (tool, ' '.join(args))
        if p.returncode < 0 or p.returncode > 1:
            raise Violation('%s ended abnormally (status %d): %s' % (what, p.returncode, se.decode(errors='replace')[-1500:]), kind='crash', key='crash:%s:%s' % (tool, site(se)))
        return p.returncode, so or b'', se

    def ok(self, env, tool, args=(), stdin=b'', files=(), out=None):
        rc, so, se = self.run_tool(env, tool, args, stdin, files, out)
        if rc != 0:
            raise Violation('%s %s fails: %s' % (tool, ' '.join(args), se.decode(errors='replace')[-500:]))
        return so

    def refused(self, env, why, tool, args=(), stdin=b'', files=(), out=None):
        rc, so, se = self.run_tool(env, tool, args, stdin, files, out)
        if rc == 0:
            raise Violation('%s %s reports success (%s); output %r' % (tool, ' '.join(args), why, so[:300]))
        if so:
            raise Violation('%s %s fails (%s) but writes output %r' % (tool, ' '.join(args), why, so[:300]))
        if not se:
            raise Violation('%s %s fails (%s) without a message' % (tool, ' '.join(args), why))

    def inp(self, env, tool, key, data, how):
        """run tool with key file and the input given by file or by standard input"""
        opt = '--privkey' if tool in ('ecdh_dec', 'ecdsa_sign', 'ecelgamal_dec') else '--pubkey'
        if how & 2:
            opt = '-k'
        a = (['%s=key' % opt] if how & 4 and opt != '-k' else [opt, 'key']) if key is not None else []
        f = {'key': key} if key is not None else {}
        if how & 1:
            a += ['-f', 'in'] if how & 2 else ['--file', 'in']
            f['in'] = data
            return dict(tool=tool, args=a, files=f)
        return dict(tool=tool, args=a, files=f, stdin=data)

    def parsed(self, what, text, tag, n, curve=True):
        try:
            return parse_file(text, tag, n, curve)
        except Bad as e:
            raise Violation('%s: output is not a well-formed file (%s): %r' % (what, e, text[:400]))

    def point(self, what, c, b, neutral=True):
        P = c.decode(b)
        if isinstance(P, tuple) and P and P[0] == Curve.EITHER:
            P = P[1]
        if P == Curve.REJECT or len(b) != 1 + c.blen:
            raise Violation('%s: %s is not a compressed point of the curve' % (what, b.hex()))
        if not neutral and P == c.O:
            raise Violation('%s: point is neutral' % what)
        return P


def gen_msg(rng):
    r = rng.random()
    if r < 0.25:
        n = rng.randrange(1, 10)
    elif r < 0.6:
        n = rng.randrange(1, 200)
    elif r < 0.8:
        n = rng.randrange(200, 5000)
    else:
        n = rng.choice([15999, 16000, 16001, 31999, 32000, 32001, 48000, rng.randrange(5000, 60000), 12000, 11999, 12001])
    t = rng.random()
    if t < 0.6:
        return rng.randbytes(n)
    if t < 0.7:
        return bytes(n)
    if t < 0.8:
        return (b'-----BEGIN ECDSA SIGNATURE-----\nAAAA\n-----END ECDSA SIGNATURE-----\n' * (n // 50 + 1))[:max(n, 5)]
    return (b'Hello, Bob!\n' * (n // 12 + 1))[:n]


def pick_curve(rng, env, named=0.6):
    if rng.random() < named:
        return rng.choice(list(ref.NAMED.values()))
    for _ in range(50):
        c = env['pool'].pick(rng, 0.0, 0.9)
        if c.n >> 40 and ref.is_prime(c.n):
            return c
    return rng.choice(list(ref.NAMED.values()))


def other_curve(rng, c):
    return rng.choice([n for n, o in ref.NAMED.items() if o.p != c.p])


def key_of(rng, c):
    return rng.choice([1, 2, c.n - 1, c.n - 2]) if rng.random() < 0.15 else rng.randrange(1, 1 << rng.randrange(2, c.n.bit_length())) if rng.random() < 0.2 else rng.randrange(1, c.n)


class X01(CliCheck):
    pid = 'X01'
    rule = ('a case is a chain of tool runs: key generation on each built-in curve (or key files made by the harness for random curves and chosen scalars), '
            'public-key derivation, then encryption and decryption of a message of 1..60000 bytes (binary, text, wrapper look-alikes, block-size edges) or of a '
            'public-key point, by option file or standard input; every file written is parsed and compared with the reference group (scalar range, curve '
            'parameters, public multiple, independent decryption, independent encryption read back), other keys and other curves must not decrypt, two '
            'encryptions differ, and output to a full device must be an error; non-trivial: a complete chain')
    cases = {'quick': 2500, 'thorough': 80000}
    budget = {'quick': 100, 'thorough': 1800}

    def gen(self, rng, env):
        c = pick_curve(rng, env)
        return {'c': c.to_json(), 'flow': rng.choice(['ecdh', 'ecdh', 'eg']), 'gen': bool(c.name) and rng.random() < 0.6, 'k': key_of(rng, c), 'k2': key_of(rng, c),
                'msg': gen_msg(rng).hex(), 'how': rng.randrange(8), 'seed': rng.getrandbits(32), 'full': rng.random() < 0.15,
                'o': other_curve(rng, c)}

    def fixed_cases(self, tier, env):
        rng = random.Random(21)
        out = [{'list': 1}]
        for i, c in enumerate(ref.NAMED.values()):
            for flow in ('ecdh', 'eg'):
                out.append({'c': c.to_json(), 'flow': flow, 'gen': True, 'k': 1, 'k2': c.n - 1, 'msg': rng.randbytes([1, 2, 4, 16000, 33][i % 5]).hex(), 'how': i % 8, 'seed': i,
                            'full': i % 4 == 0, 'o': 'secp256k1' if c.name != 'secp256k1' else 'E-222' if 'E-222' in ref.NAMED else list(ref.NAMED)[0]})
        for n in range(1, 9):
            out.append({'c': 'secp256k1', 'flow': 'ecdh', 'gen': True, 'k': 5, 'k2': 7, 'msg': rng.randbytes(n).hex(), 'how': n % 8, 'seed': n, 'full': False, 'o': 'secp112r1'})
        return out

    def privkey(self, case, env, c):
        if not case['gen']:
            return priv_file(c, case['k']), case['k'], {}
        so = self.ok(env, 'ecdh_gen', ['-c', c.name] if case['how'] & 1 else ['--curve=' + c.name])
        kb, ct = self.parsed('ecdh_gen', so, PRIV, 1)
        if ct != curve_tuple(c):
            raise Violation('ecdh_gen %s: curve parameters in the key file are %r' % (c.name, ct))
        k = int.from_bytes(kb, 'big')
        if not 0 < k < c.n:
            raise Violation('ecdh_gen %s: scalar %x is not in 1..n-1' % (c.name, k))
        if c.n >> 100 and k.bit_length() < c.n.bit_length() - 64:
            raise Violation('ecdh_gen %s: scalar %x is short' % (c.name, k))
        if self.ok(env, 'ecdh_gen', ['--curve', c.name]) == so:
            raise Violation('ecdh_gen %s: the same key twice' % c.name)
        return so, k, {'gen': 1}

    def run(self, case, env):
        if case.get('list'):
            so = self.ok(env, 'ecdh_gen', ['--list-curves']).decode()
            names = [x.strip() for x in so.splitlines()[1:]]
            if sorted(names) != sorted(ref.NAMED):
                raise Violation('ecdh_gen --list-curves lists %r' % names)
            k = self.parsed('ecdh_gen', self.ok(env, 'ecdh_gen'), PRIV, 1)
            if k[1] != curve_tuple(ref.NAMED['secp256k1']):
                raise Violation('ecdh_gen: default curve is not secp256k1')
            self.refused(env, 'unknown curve', 'ecdh_gen', ['--curve', 'secp256k2'])
            self.refused(env, 'unknown option', 'ecdh_gen', ['--curv', 'secp256k1', '--nope'])
            for t in TOOLS[2:]:
                self.refused(env, 'no key given', t, stdin=b'x')
                self.refused(env, 'key file missing', t, ['-k', 'nothere'], stdin=b'x')
            self.refused(env, 'input file missing', 'ecdh_pub', ['-f', 'nothere'])
            return {'list': 1}
        c = Curve.from_json(case['c'])
        rng = random.Random(case['seed'])
        how = case['how']
        priv, k, tags = self.privkey(case, env, c)
        pub = self.ok(env, **self.inp(env, 'ecdh_pub', None, priv, how))
        pb, ct = self.parsed('ecdh_pub', pub, PUB, 1)
        Q = c.mul(c.G, k)
        if ct != curve_tuple(c):
            raise Violation('ecdh_pub: curve parameters in the key file are %r' % (ct,))
        if pb != c.encode(Q, True):
            raise Violation('ecdh_pub: %s is not %d * G = %s' % (pb.hex(), k, c.encode(Q, True).hex()))
        k2 = case['k2']
        Q2 = c.mul(c.G, k2)
        oc = ref.NAMED[case['o']]
        full = '/dev/full' if case['full'] else None

        def fullout(tool, a):
            tags.update(self.soft(env, 'write-error-' + tool, lambda: self.refused(env, 'device full', **a, out=full)))
        if full:
            if case['gen']:
                fullout('ecdh_gen', dict(tool='ecdh_gen', args=['--curve=' + c.name]))
            fullout('ecdh_pub', self.inp(env, 'ecdh_pub', None, priv, how))
            tags['full'] = 1
        if case['flow'] == 'ecdh':
            m = bytes.fromhex(case['msg']) or b'x'
            e = self.ok(env, **self.inp(env, 'ecdh_enc', pub, m, how))
            pt, nonce, ctx = self.parsed('ecdh_enc', e, MSG, 3, False)
            P = self.point('ecdh_enc', c, pt, False)
            if len(nonce) != 24 or len(ctx) != len(m):
                raise Violation('ecdh_enc: nonce of %d bytes, ciphertext of %d bytes for a message of %d' % (len(nonce), len(ctx), len(m)))
            if xsalsa(ctx, nonce, shared_key(c, c.mul(P, k))) != m:
                raise Violation('ecdh_enc: the shared point d*P does not decrypt the message')
            r = self.ok(env, **self.inp(env, 'ecdh_dec', priv, e, rng.randrange(8)))
            if r != m:
                raise Violation('ecdh_dec: %d bytes come back as %d bytes: %s' % (len(m), len(r), r[:64].hex()))
            # encryption by the harness
            x = rng.randrange(1, c.n)
            nn = rng.randbytes(24)
            e2 = msg_file(c.encode(c.mul(c.G, x), rng.random() < 0.8), nn, xsalsa(m, nn, shared_key(c, c.mul(Q, x))))
            if self.ok(env, **self.inp(env, 'ecdh_dec', priv, e2, rng.randrange(8))) != m:
                raise Violation('ecdh_dec: a message encrypted for this key is not decrypted')
            if k2 % c.n != k and (k2 + k) % c.n and len(m) >= 8:
                if self.run_tool(env, **self.inp(env, 'ecdh_dec', priv_file(c, k2), e, how))[1] == m:
                    raise Violation('ecdh_dec: another key decrypts')
            if rng.random() < 0.4:
                f = self.parsed('ecdh_enc', self.ok(env, **self.inp(env, 'ecdh_enc', pub, m, how)), MSG, 3, False)
                if f[0] == pt or f[1] == nonce or (f[2] == ctx and len(m) >= 8):
                    raise Violation('ecdh_enc: two encryptions share %s' % [a for a, b, g in zip(('ephemeral key', 'nonce', 'ciphertext'), f, (pt, nonce, ctx)) if b == g])
            if oc.p != c.p and len(c.encode(P, True)) != 1 + oc.blen:
                tags.update(self.soft(env, 'ephemeral-key-ecdh_dec', lambda: self.refused(env, 'message for another curve', **self.inp(env, 'ecdh_dec', priv_file(oc, 5), e, how))))
            if full:
                fullout('ecdh_enc', self.inp(env, 'ecdh_enc', pub, m, how))
                fullout('ecdh_dec', self.inp(env, 'ecdh_dec', priv, e, how))
            tags['ecdh'] = 1
            tags['len_%d' % (len(m) // 16000)] = 1
            return tags
        m = pub_file(c, Q2)
        e = self.ok(env, **self.inp(env, 'ecelgamal_enc', pub, m, how))
        cb, db, ct = self.parsed('ecelgamal_enc', e, EG, 2)
        if ct != curve_tuple(c):
            raise Violation('ecelgamal_enc: curve parameters are %r' % (ct,))
        C, D = self.point('ecelgamal_enc', c, cb), self.point('ecelgamal_enc', c, db)
        if c.sub(D, c.mul(C, k)) != Q2:
            raise Violation('ecelgamal_enc: D - d*C is not the plaintext point')

        def dec(ef, key, cc=c):
            pb, ct = self.parsed('ecelgamal_dec', self.ok(env, **self.inp(env, 'ecelgamal_dec', key, ef, rng.randrange(8))), PUB, 1)
            if ct != curve_tuple(cc):
                raise Violation('ecelgamal_dec: curve parameters are %r' % (ct,))
            return pb
        if dec(e, priv) != c.encode(Q2, True):
            raise Violation('ecelgamal_dec: the plaintext point does not come back')
        x = rng.randrange(1, c.n)
        if dec(eg_file(c, c.mul(c.G, x), c.add(c.mul(Q, x), Q2)), priv) != c.encode(Q2, True):
            raise Violation('ecelgamal_dec: a point encrypted for this key does not come back')
        if k2 % c.n != k:
            w = c.sub(D, c.mul(C, k2))
            if dec(e, priv_file(c, k2)) != c.encode(w, True):
                raise Violation('ecelgamal_dec: result under another key is not D - d*C')
        f = self.parsed('ecelgamal_enc', self.ok(env, **self.inp(env, 'ecelgamal_enc', pub, m, how)), EG, 2)
        if f[0] == cb or f[1] == db:
            raise Violation('ecelgamal_enc: two encryptions share a point')
        if oc.p != c.p:
            self.refused(env, 'plaintext on another curve', **self.inp(env, 'ecelgamal_enc', pub, pub_file(oc, oc.G), how))
            self.refused(env, 'ciphertext on another curve', **self.inp(env, 'ecelgamal_dec', priv_file(oc, 5), e, how))
        if full:
            fullout('ecelgamal_enc', self.inp(env, 'ecelgamal_enc', pub, m, how))
            fullout('ecelgamal_dec', self.inp(env, 'ecelgamal_dec', priv, e, how))
        tags['eg'] = 1
        return tags

    def nontrivial(self, case, tags):
        return bool(tags)


class X02(CliCheck):
    pid = 'X02'
    rule = ('a case is a key file on a built-in or random curve and a message of 1..60000 bytes: the signing tool\'s output is parsed, its signature checked by the '
            'reference and the verifying tool must return the message; then 4-8 altered or independently made combinations of message, signature and '
            'key (bit flips, truncation, extension, other messages, keys, curves, swapped and boundary scalars, blocks missing or exchanged) are given to the '
            'verifying tool, whose verdict and output must equal the reference verifier\'s; non-trivial: at least one accepted and one refused')
    cases = {'quick': 700, 'thorough': 30000}
    budget = {'quick': 80, 'thorough': 1800}

    def gen(self, rng, env):
        c = pick_curve(rng, env)
        return {'c': c.to_json(), 'k': key_of(rng, c), 'k2': key_of(rng, c), 'msg': gen_msg(rng).hex(), 'msg2': gen_msg(rng).hex(), 'how': rng.randrange(8),
                'seed': rng.getrandbits(32), 'n': rng.randrange(4, 9), 'full': rng.random() < 0.1}

    def fixed_cases(self, tier, env):
        rng = random.Random(22)
        return [{'c': c.to_json(), 'k': rng.randrange(1, c.n), 'k2': 1, 'msg': rng.randbytes([1, 2, 3, 4, 5, 12000, 16000][i % 7]).hex(), 'msg2': b'abc'.hex(), 'how': i % 8, 'seed': i,
                 'n': 8, 'full': i % 5 == 0} for i, c in enumerate(ref.NAMED.values())]

    def run(self, case, env):
        c = Curve.from_json(case['c'])
        rng = random.Random(case['seed'])
        how, n, k, k2 = case['how'], c.n, case['k'], case['k2']
        m, m2 = bytes.fromhex(case['msg']) or b'x', bytes.fromhex(case['msg2']) or b'y'
        Q, Q2 = c.mul(c.G, k), c.mul(c.G, k2)
        L = (n.bit_length() + 7) // 8
        tags = {}
        H = lambda x: hashlib.sha512(x).digest()        # noqa: E731
        if len(m) in (1, 2, 4):
            tags.update(self.soft(env, 'short-message-ecdsa_sign', lambda: self.ok(env, **self.inp(env, 'ecdsa_sign', priv_file(c, k), m, how))))
            if tags:
                m = m2 + b'more'
        s = self.ok(env, **self.inp(env, 'ecdsa_sign', priv_file(c, k), m, how))
        try:
            sm, ss = unwrap(s, SMSG), unwrap(s, SIG)
        except Bad as e:
            raise Violation('ecdsa_sign: output is not well formed (%s): %r' % (e, s[:300]))
        if sm != m:
            raise Violation('ecdsa_sign: message block holds other bytes')
        r0, s0 = int.from_bytes(ss[:L], 'big'), int.from_bytes(ss[L:], 'big')
        if len(ss) != 2 * L or not ref.ecdsa_verify(c, Q, H(m), r0, s0):
            raise Violation('ecdsa_sign: signature is not valid: %s' % ss.hex())
        pub = pub_file(c, Q)
        if self.ok(env, **self.inp(env, 'ecdsa_verify', pub, s, rng.randrange(8))) != m:
            raise Violation('ecdsa_verify: output is not the message')
        if rng.random() < 0.2:
            s2 = unwrap(self.ok(env, **self.inp(env, 'ecdsa_sign', priv_file(c, k), m, how)), SIG)
            if s2[:L] == ss[:L]:
                raise Violation('ecdsa_sign: two signatures share r')
        tags['signed'] = 1

        def verdict(why, mm, sg, QQ=Q, data=None):
            good = len(sg) == 2 * L and len(mm) > 0 and ref.ecdsa_verify(c, QQ, H(mm), int.from_bytes(sg[:L], 'big'), int.from_bytes(sg[L:], 'big'))
            data = signed_file(mm, sg) if data is None else data
            a = self.inp(env, 'ecdsa_verify', pub_file(c, QQ), data, rng.randrange(8))
            if good:
                if self.ok(env, **a) != mm:
                    raise Violation('ecdsa_verify: output is not the message (%s)' % why)
                tags['accepted'] = 1
            else:
                self.refused(env, why, **a)
                tags['refused'] = 1
        for _ in range(case['n']):
            t = rng.randrange(14)
            if t == 0:
                i = rng.randrange(len(m))
                verdict('message bit', m[:i] + bytes([m[i] ^ 1 << rng.randrange(8)]) + m[i + 1:], ss)
            elif t == 1:
                i = rng.randrange(len(ss))
                verdict('signature bit', m, ss[:i] + bytes([ss[i] ^ 1 << rng.randrange(8)]) + ss[i + 1:])
            elif t == 2:
                verdict('message cut or extended', rng.choice([m[:-1] or b'q', m + b'\0', m + m2, b'\0' + m, m[1:] or b'q']), ss)
            elif t == 3:
                verdict('other message', m2, ss)
            elif t == 4:
                verdict('other key', m, ss, Q2)
            elif t == 5:
                verdict('negated key', m, ss, c.neg(Q))
            elif t == 6:
                verdict('scalar', m, rng.choice([sig_bytes(c, r0, n - s0), sig_bytes(c, s0, r0), sig_bytes(c, 0, s0), sig_bytes(c, r0, 0), bytes(2 * L),
                                                 sig_bytes(c, n - r0, s0), b'\xff' * 2 * L]))
            elif t == 7:
                x = [v for v in ((r0 + n, s0), (r0, s0 + n), (n, n), (n, s0), (r0, n)) if not (v[0] | v[1]) >> 8 * L]
                if x:
                    verdict('scalar out of range', m, sig_bytes(c, *rng.choice(x)))
            elif t == 8:
                verdict('signature length', m, rng.choice([ss[:-1], ss + b'\0', ss[:L], b'\0' + ss, ss + ss, ss[1:], ss[:1]]))
            elif t == 9:
                kk = rng.randrange(1, n)
                sg = ref.ecdsa_sign(c, k, H(m2), kk)
                if sg:
                    verdict('reference signature', m2, sig_bytes(c, *sg))
            elif t == 10:
                sg = ref.ecdsa_sign(c, k2, H(m), rng.randrange(1, n))
                if sg:
                    verdict('reference signature, other key', m, sig_bytes(c, *sg), rng.choice([Q, Q2]))
            elif t == 11:
                w = rng.choice([wrap(m, SMSG), wrap(ss, SIG), wrap(m, SIG) + wrap(ss, SMSG), wrap(m, PUB) + wrap(ss, SIG), s.replace(b'BEGIN', b'BEGN', 1),
                                s.replace(b'END', b'EMD'), s[:s.index(b'-----END')], s.replace(SIG.encode(), b'ECDSA SIGNATURES')])
                tags.update(self.soft(env, 'unterminated-ecdsa_verify', lambda: self.refused(env, 'block missing or mislabelled', **self.inp(env, 'ecdsa_verify', pub, w, how))))
                tags['refused'] = 1
            elif t == 12:
                verdict('signature block first', m, ss, data=wrap(ss, SIG) + wrap(m, SMSG)) if rng.random() < 0.5 else verdict('same blocks rewrapped', m, ss, data=wrap(m, SMSG, 64) + wrap(ss, SIG, 60))
            else:
                oc = rng.choice(list(ref.NAMED.values()))
                if oc.p != c.p:
                    self.refused(env, 'key on another curve', **self.inp(env, 'ecdsa_verify', pub_file(oc, oc.mul(oc.G, k)), s, how)) if (oc.n.bit_length() + 7) // 8 != L else None
        if case['full']:
            for tool, a in (('ecdsa_verify', self.inp(env, 'ecdsa_verify', pub, s, how)), ('ecdsa_sign', self.inp(env, 'ecdsa_sign', priv_file(c, k), m, how))):
                tags.update(self.soft(env, 'write-error-' + tool, lambda: self.refused(env, 'device full', **a, out='/dev/full')))
            tags['full'] = 1
        return tags

    def nontrivial(self, case, tags):
        return bool(tags.get('signed') and tags.get('refused'))


# ------------------------------------------------------------- hostile files
def weird_octets(rng, v):
    """an OCTET STRING element replacing one that holds v"""
    i = int.from_bytes(v, 'big')
    return rng.choice([
        lambda: octs(b''), lambda: octs(b'\0'), lambda: octs(b'\1'), lambda: octs(b'\2'), lambda: octs(b'\0' * len(v)), lambda: octs(v + b'\0'), lambda: octs(v[:-1]),
        lambda: octs(ibytes(i + rng.choice([1, 2, 4, -1 if i else 1]))), lambda: octs(ibytes(i * 2)), lambda: octs(ibytes(i >> 1)), lambda: octs(b'\xff' * len(v)),
        lambda: octs(rng.randbytes(max(1, len(v)))), lambda: octs(rng.randbytes(rng.choice([1, 2, 128, 129, 200, 3000]))), lambda: tlv(2, v), lambda: tlv(0x24, v),
        lambda: tlv(4, v)[:1] + b'\x84\xff\xff\xff\xff' + v, lambda: tlv(4, v)[:1] + b'\x80' + v + b'\0\0', lambda: tlv(4, v)[:1] + b'\x81' + bytes([len(v) & 127]) + v, lambda: b'',
        lambda: octs(v) * 2, lambda: tlv(0x30, octs(v)), lambda: tlv(5, b'')])()


def weird_int(rng, v, tag):
    return rng.choice([
        lambda: dint(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 31, 32, 255, 256, -1, -2, 1 << 15, 65535, 65536, 1 << 23, 1 << 24, (1 << 31) - 1, -(1 << 31), v + 1, v - 1, v * 2]), tag),
        lambda: dint(rng.choice([1 << 31, 1 << 32, 1 << 40, (1 << 64) - 1, 1 << 2000]), tag), lambda: tlv(tag, b''), lambda: tlv(tag, bytes([0, 0, 0, 0, v & 127])),
        lambda: tlv(tag, b'\0' * 9), lambda: octs(bytes([v & 255])), lambda: b''])()


class X03(CliCheck):
    pid = 'X03'
    rule = ('a case is one run of one of the seven reading tools on a valid set of files in which one file is damaged at one level: raw bytes (flips, cuts, NULs, '
            'insertions, empty, directories in place of files), wrapping lines, base64 text, DER bytes, DER fields (absent, empty, doubled, retyped, oversized, '
            'boundary and random values of every curve parameter, scalar, point, nonce), or semantically (point off the curve, neutral key, zero scalar, unknown '
            'curve type, generator off the curve, wrong nonce length); the tool must end by itself with status 0 or 1, without sanitizer report, and must '
            'refuse (status 1, a message, no output) where the damage makes the content unusable; the search runs on the tools with the proposed repairs of '
            'the listed findings (findings/examples.patch), which are shown on the unrepaired tools first; non-trivial: every case with damage')
    cases = {'quick': 20000, 'thorough': 600000}
    budget = {'quick': 90, 'thorough': 1800}
    variants = ['asan', 'asan', 'plain']

    USES = {'ecdh_pub': [('in', 'priv')], 'ecdh_enc': [('key', 'pub'), ('in', 'raw')], 'ecdh_dec': [('key', 'priv'), ('in', 'msg')], 'ecdsa_sign': [('key', 'priv'), ('in', 'raw')],
            'ecdsa_verify': [('key', 'pub'), ('in', 'signed')], 'ecelgamal_enc': [('key', 'pub'), ('in', 'pub')], 'ecelgamal_dec': [('key', 'priv'), ('in', 'eg')]}
    TAG = {'priv': PRIV, 'pub': PUB, 'msg': MSG, 'eg': EG}

    def fields(self, rng, c, kind, k, Q):
        """(own fields, curve fields or None)"""
        P = c.mul(c.G, rng.randrange(1, c.n))
        if kind == 'priv':
            return [('k', octs(ibytes(k)))], curve_fields(c)
        if kind == 'pub':
            return [('pt', octs(c.encode(Q, True)))], curve_fields(c)
        if kind == 'eg':
            return [('c', octs(c.encode(P, True))), ('d', octs(c.encode(c.add(P, Q), True)))], curve_fields(c)
        return [('pt', octs(c.encode(P, True))), ('nonce', octs(rng.randbytes(24))), ('ct', octs(rng.randbytes(rng.randrange(1, 60))))], None

    def damage(self, rng, c, kind, k, Q):
        """(file bytes, must fail, why)"""
        if kind == 'raw':
            # only emptiness is damage
            return b'', True, 'empty input'
        if kind == 'signed':
            m = rng.randbytes(rng.randrange(1, 100))
            L = (c.n.bit_length() + 7) // 8
            good = signed_file(m, rng.randbytes(2 * L))
        else:
            fl, cf = self.fields(rng, c, kind, k, Q)
            der = der_of(kind, fl, cf)
            good = wrap(der, self.TAG[kind])
        lv = rng.random()
        if lv < 0.22:
            return self.raw_damage(rng, good, kind)
        if lv < 0.3:
            return self.wrap_damage(rng, good, kind)
        if kind == 'signed':
            b = rng.choice([
                lambda: signed_file(m, rng.randbytes(rng.choice([1, 2, L, 2 * L - 1, 2 * L + 1, 4 * L, 5000]))),
                lambda: wrap(m, SMSG), lambda: wrap(m, SIG), lambda: wrap(b'', SMSG) + wrap(rng.randbytes(2 * L), SIG), lambda: wrap(m, SMSG) + wrap(b'', SIG),
                lambda: signed_file(rng.randbytes(40000), rng.randbytes(2 * L)), lambda: signed_file(m, bytes(2 * L)), lambda: signed_file(m, b'\xff' * 2 * L)])()
            return b, True, 'signed message content'
        if lv < 0.42:
            b = bytearray(der)
            if rng.random() < 0.4:
                cut = rng.randrange(0, len(b)) if rng.random() < 0.7 else rng.randrange(0, min(len(b), 8))
                return wrap(bytes(b[:cut]), self.TAG[kind]), True, 'DER cut to %d bytes' % cut
            for _ in range(rng.randrange(1, 4)):
                i = rng.randrange(len(b)) if rng.random() < 0.5 else rng.randrange(min(len(b), 12))
                b[i] = rng.choice([b[i] ^ 1 << rng.randrange(8), rng.randrange(256), 0, 0x80, 0xff, 0x84])
            return wrap(bytes(b), self.TAG[kind]), False, 'DER bytes'
        if lv < 0.72 or kind == 'msg' and lv < 0.85:
            # a field
            n = rng.randrange(len(fl) + (len(CURVE_FIELDS) if cf else 0))
            if n < len(fl):
                v, _ = rd(fl[n][1], 0, 4)
                fl[n] = (fl[n][0], weird_octets(rng, v))
                w = fl[n][0]
            else:
                w = CURVE_FIELDS[n - len(fl)]
                if w in ('type', 'bits'):
                    v, _ = rd(cf[w], 0, 10 if w == 'type' else 2)
                    cf[w] = weird_int(rng, int.from_bytes(v, 'big'), 10 if w == 'type' else 2)
                else:
                    v, _ = rd(cf[w], 0, 4)
                    cf[w] = weird_octets(rng, v)
            return wrap(der_of(kind, fl, cf), self.TAG[kind]), False, 'field ' + w
        # semantic damage that makes the content unusable
        why = rng.choice([x for x in ('point', 'neutral', 'zero', 'type', 'generator', 'nonce', 'p') if
                          x in {'priv': ('zero', 'type', 'generator', 'p'), 'pub': ('point', 'neutral', 'type', 'generator', 'p'),
                                'eg': ('point', 'type', 'generator', 'p'), 'msg': ('point', 'nonce')}[kind]])
        if why == 'zero':
            fl[0] = ('k', octs(rng.choice([b'\0', bytes(20), ibytes(c.n), ibytes(c.n * rng.randrange(2, 300))])))
        elif why == 'neutral':
            fl[0] = ('pt', octs(c.encode(c.O, rng.random() < 0.7)))
        elif why == 'nonce':
            fl[1] = ('nonce', octs(rng.randbytes(rng.choice([1, 8, 12, 16, 23, 25, 32, 64]))))
        elif why == 'type':
            cf['type'] = tlv(10, bytes([rng.choice([0, 1, 6, 7, 100])]))
        elif why == 'generator':
            for _ in range(100):
                x, y = rng.choice([(c.G[0], (c.G[1] + 1) % c.p), (rng.randrange(c.p), rng.randrange(c.p)), (c.G[1], c.G[0]), (0, 0)])
                if not c.on(x, y):
                    break
            else:
                raise Skip()
            cf['gx'], cf['gy'] = octs(ibytes(x)), octs(ibytes(y))
        elif why == 'p':
            cf['p'] = octs(ibytes(rng.choice([0, 1, 1 << 1024, (1 << 1100) + 1, 1 << 20000])))
        elif why == 'point':
            i = 0 if kind != 'eg' else rng.randrange(2)
            for _ in range(100):
                t = rng.random()
                x = rng.randrange(c.p)
                b = (bytes([rng.choice([2, 3])]) + x.to_bytes(c.blen, 'big') if t < 0.4 else b'\4' + x.to_bytes(c.blen, 'big') + rng.randrange(c.p).to_bytes(c.blen, 'big') if t < 0.7
                     else c.encode(Q, True)[:-1] if t < 0.8 else bytes([rng.choice([1, 5, 6, 7, 255])]) + c.encode(Q, True)[1:] if t < 0.9 else c.encode(Q, True) + b'\0')
                if c.decode(b) == Curve.REJECT:
                    break
            else:
                raise Skip()
            fl[i] = (fl[i][0], octs(b))
        return wrap(der_of(kind, fl, cf), self.TAG[kind]), True, why

    def raw_damage(self, rng, good, kind):
        b = bytearray(good)
        t = rng.randrange(9)
        if t == 0:
            cut = rng.randrange(0, good.rindex(b'-----END') + 9)
            return good[:cut], True, 'file cut to %d bytes' % cut
        if t == 1:
            return rng.choice([b'', b'\n', b'-', b'-----', b'\0', b'-----BEGIN ', b'BEGIN', bytes(20000), b'-' * 40000, rng.randbytes(rng.choice([1, 100, 16000, 16001, 40000]))]), True, 'no content'
        if t == 2:
            tag = good[11:good.index(b'-', 11)]
            return rng.choice([b'-----BEGIN ' + tag + b'-----', b'-----BEGIN ' + tag + b'-----\n-----END ' + tag + b'-----\n', b'-----BEGIN ' + tag + b'-----=-----END ' + tag + b'-----',
                               b'-----BEGIN ' + tag + b'-----A-----END ' + tag + b'-----', b'-----BEGIN ' + tag + b'-----AA-----END ' + tag + b'-----',
                               b'-----BEGIN ' + tag + b'-----\xff\xfe\x80-----END ' + tag + b'-----']), True, 'tag without content'
        if t == 3:
            i = rng.randrange(0, good.rindex(b'-----END'))
            b[i:i] = b'\0'
            return bytes(b), True, 'NUL byte at %d' % i
        if t == 4:
            return bytes(b) + rng.choice([bytes(b), rng.randbytes(50), b'\0' * 20000, b'x' * 16000]), False, 'extended'
        if t == 5:
            return rng.choice([b'x' * 15990, b' ' * 16000, b'\n' * 50, rng.randbytes(50)]) + bytes(b), False, 'prefixed'
        for _ in range(rng.choice([1, 1, 2, 5, 30])):
            i = rng.randrange(len(b))
            o = rng.random()
            if o < 0.5:
                b[i] = rng.randrange(256)
            elif o < 0.75:
                del b[i]
            else:
                b[i:i] = rng.choice([b'-', b'=', b'\n', b'A', rng.randbytes(1), b'\xff'])
            if not b:
                b = bytearray(b'x')
        return bytes(b), False, 'raw bytes'

    def wrap_damage(self, rng, good, kind):
        t = good.decode()
        tag = t[11:t.index('-', 11)]
        o = {'priv': PUB, 'pub': PRIV}.get(kind, PRIV)
        x = rng.choice([t.replace(tag, o), t.replace('BEGIN', 'START', 1), t.replace('END', 'EMD', 1), t.replace(tag, tag.lower()), t.replace(tag, tag + ' '), t.replace('BEGIN ', 'BEGIN', 1),
                        t.replace(tag, tag[:-1], 1), t.replace('-', '_'), t.replace('END ' + tag, 'END ' + o), t.replace('-----\n', '\n', 1)])
        return x.encode(), True, 'wrapping'

    def gen(self, rng, env):
        r = rng.random()
        c = rng.choice(list(ref.NAMED.values())) if r < 0.45 else env['pool'].pick(rng, 0.6, 0.3)
        tool = rng.choice(list(self.USES))
        k = pick_key(c, rng)
        Q = c.mul(c.G, k)
        if Q == c.O:
            Q = c.G
        uses = self.USES[tool]
        w = rng.randrange(len(uses))
        if uses[w][1] == 'raw' and rng.random() < 0.9:
            w = 0
        case = {'tool': tool, 'how': rng.randrange(8)}
        for i, (slot, kind) in enumerate(uses):
            if i == w:
                try:
                    b, must, why = self.damage(rng, c, kind, k, Q)
                except Skip:
                    b, must, why = b'', True, 'empty'
                case['must'], case['why'], case['bad'] = must, why, slot
            elif kind == 'raw':
                b = rng.randbytes(rng.randrange(1, 60))
            elif kind == 'signed':
                z = hashlib.sha512(b'hello').digest()
                sg = None
                for _ in range(20):
                    sg = sg or ref.ecdsa_sign(c, k, z, rng.randrange(1, c.n))
                b = signed_file(b'hello', sig_bytes(c, *(sg or (1, 1))))
            else:
                b = wrap(der_of(kind, *self.fields(rng, c, kind, k, Q)), self.TAG[kind])
            case[slot] = b.hex()
        return case

    def fixed_cases(self, tier, env):
        """the listed findings, directories in place of files, and empty input to every tool"""
        out = self.findings()
        c = ref.NAMED['secp256k1']
        rng = random.Random(23)
        for tool, uses in self.USES.items():
            base = {'tool': tool, 'how': 1}
            for slot, kind in uses:
                if kind == 'raw':
                    base[slot] = b'hello'.hex()
                elif kind == 'signed':
                    base[slot] = signed_file(b'hello', sig_bytes(c, *ref.ecdsa_sign(c, 77, hashlib.sha512(b'hello').digest(), 1234567))).hex()
                else:
                    base[slot] = wrap(der_of(kind, *self.fields(rng, c, kind, 77, c.mul(c.G, 77))), self.TAG[kind]).hex()
            out.append(dict(base, must=False, why='undamaged', bad='key', good=1))
            out.append(dict(base, must=False, why='undamaged', bad='key', good=1, real=1))
            for slot, kind in uses:
                out.append(dict(base, **{slot: '', 'must': True, 'why': 'empty', 'bad': slot}))
                out.append(dict(base, dir=slot, must=True, why='directory', bad=slot))
                if slot == 'in':
                    out.append(dict(base, how=0, **{slot: '', 'must': True, 'why': 'empty', 'bad': slot}))
        return out

    def shrinks(self, case):
        return
        yield

    # the listed findings, each shown on the tools as they are
    def findings(self):
        """(key, tool, slot, damage)"""
        c = ref.NAMED['secp256k1']
        rng = random.Random(24)
        fl = lambda kind: self.fields(rng, c, kind, 77, c.mul(c.G, 77))        # noqa: E731
        out = []

        def put(key, tool, slot, data=None, **kw):
            case = {'tool': tool, 'how': 1, 'must': True, 'why': key, 'bad': slot, 'finding': key, 'real': 1}
            for sl, kind in self.USES[tool]:
                case[sl] = (b'hello' if kind == 'raw' else signed_file(b'hello', sig_bytes(c, *ref.ecdsa_sign(c, 77, hashlib.sha512(b'hello').digest(), 1234567))) if kind == 'signed'
                            else wrap(der_of(kind, *fl(kind)), self.TAG[kind])).hex()
            if data is not None:
                case[slot] = data.hex()
            out.append(dict(case, **kw))
        for tool, uses in self.USES.items():
            for slot, kind in uses:
                put('directory-%s-%s' % (tool, slot), tool, slot, dir=slot)
                if kind == 'raw':
                    put('empty-' + tool, tool, slot, b'')
                    continue
                if kind == 'signed':
                    put('unterminated-' + tool, tool, slot, wrap(b'hello', SMSG))
                    continue
                f, cf = fl(kind)
                put('absent-value-%s-%s' % (tool, slot), tool, slot, wrap(der_of(kind, [(f[0][0], octs(b''))] + f[1:], cf), self.TAG[kind]))
                if cf:
                    put('oversized-integer-%s-%s' % (tool, slot), tool, slot, wrap(der_of(kind, f, dict(cf, bits=tlv(2, b'\x01' * 9))), self.TAG[kind]))
                    put('unusable-curve-%s-%s' % (tool, slot), tool, slot, wrap(der_of(kind, f, dict(cf, type=tlv(10, b'\x07'))), self.TAG[kind]))
                if kind in ('pub', 'eg', 'msg'):
                    put('bad-point-%s-%s' % (tool, slot), tool, slot, wrap(der_of(kind, [(f[0][0], octs(b'\2' + b'\0' * 31 + b'\5'))] + f[1:], cf), self.TAG[kind]))
                if kind == 'pub':
                    e = ref.NAMED['Ed25519']
                    put('neutral-%s-%s' % (tool, slot), tool, slot, wrap(der_of(kind, [('pt', octs(e.encode(e.O, True)))], curve_fields(e)), self.TAG[kind]))
                if kind == 'priv':
                    put('zero-%s-%s' % (tool, slot), tool, slot, wrap(der_of(kind, [('k', octs(bytes(20)))], cf), self.TAG[kind]))
                if kind == 'msg':
                    put('short-nonce-' + tool, tool, slot, wrap(der_of(kind, [f[0], ('nonce', octs(b'1234567')), f[2]], None), self.TAG[kind]))
        return out

    def run(self, case, env):
        if case.get('finding'):
            env['tools'] = 'cli'
            self.timeout = 5
            try:
                t = self.soft(env, case['finding'], lambda: self.one(case, env))
            finally:
                self.timeout = CliCheck.timeout
            return dict(t, findings=1)
        # the search runs on the tools with the proposed repairs of the listed findings, so that it is not blocked by these
        real = case.get('real') or env['built']['repaired'][env['variant']] is None
        env['tools'] = 'cli' if real else 'repaired'
        if real and not case.get('good'):
            raise Skip('the repairs do not apply')
        return self.one(case, env)

    def one(self, case, env):
        tool, how = case['tool'], case['how']
        a = self.inp(env, tool, bytes.fromhex(case['key']) if 'key' in case else None, bytes.fromhex(case['in']), how)
        if case.get('dir'):
            del a['files'][case['dir']]
            a['args'] = ['.' if x == case['dir'] else x for x in a['args']]
        what = '%s (%s file: %s)' % (tool, case['bad'], case['why'])
        if case.get('good'):
            self.ok(env, **a)
            return {'undamaged': 1}
        if case['must']:
            self.refused(env, what, **a)
            return {tool + '_refused': 1}
        rc, so, se = self.run_tool(env, **a)
        if rc == 0:
            if not so:
                raise Violation('%s reports success and writes nothing' % what)
            return {tool + '_read': 1}
        if so or not se:
            raise Violation('%s: status %d with output %r and message %r' % (what, rc, so[:200], se[:200]))
        return {tool + '_refused': 1}

    def nontrivial(self, case, tags):
        return True


CHECKS = {'X01': X01, 'X02': X02, 'X03': X03}
