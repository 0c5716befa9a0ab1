"""Property-based-testing engine: drivers, generation, shrinking, replay, evidence."""
import copy
import errno
import fcntl
import hashlib
import json
import os
import re
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NPROC = int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1))
SHRINK_S = float(os.environ.get('VERIF_SHRINK_S') or 60)


class Violation(Exception):
    def __init__(self, msg, key=None, kind='value', detail=None):
        super().__init__(msg)
        self.msg, self.key, self.kind, self.detail = msg, key, kind, detail


class Skip(Exception):
    """The case is not a valid input for this property (only happens while shrinking or by design)."""


class Inconclusive(Exception):
    pass


class HarnessError(Exception):
    pass


# ----------------------------------------------------------------- building
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise HarnessError('build failed: %s\n%s' % (' '.join(map(str, cmd)), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout


def tree_files(*dirs):
    out = []
    for d in dirs:
        if os.path.isfile(d):
            out.append(d)
            continue
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if not x.startswith('.') and x not in ('_build', '__pycache__'))
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.go', '.py', '.asn', '.s', '.S', '.inc', '.cc')):
                    out.append(os.path.join(root, f))
    return out


def content_key(files, *extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def cached_build(name, files, extra, fn):
    """Build once per content of every input file; the key covers all sources."""
    key = content_key(files, name, extra)
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, name + '-' + key)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'DONE')):
            shutil.rmtree(d, ignore_errors=True)
            # drop stale builds of the same variant, if no live process is likely to use them
            for o in sorted(os.listdir(BUILD)):
                if o.startswith(name + '-') and len(o) == len(name) + 21:
                    p = os.path.join(BUILD, o)
                    try:
                        if time.time() - os.path.getmtime(p) > 3600:
                            shutil.rmtree(p, ignore_errors=True)
                    except OSError:
                        pass
            os.makedirs(d)
            fn(d)
            open(os.path.join(d, 'DONE'), 'w').close()
    return d


CFLAGS = ['-g', '-O2', '-Wall', '-DSAFE_CLEAN']   # what the repository itself is built with
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


# further build configurations: compiler, flags, header switches turned off
CONFIGS = {
    'noclean': ('gcc', ['-g', '-O2'], []),                                       # configure --disable-safe-clean
    'o0': ('gcc', ['-g', '-O0', '-DSAFE_CLEAN'], []),
    'o3lto': ('gcc', ['-O3', '-flto', '-march=native', '-DSAFE_CLEAN'], []),
    'os': ('gcc', ['-Os', '-DSAFE_CLEAN', '-fstack-protector-all'], []),
    'clang': ('clang', ['-O3', '-DSAFE_CLEAN'], []),
    'ndebug': ('gcc', ['-g', '-O2', '-DSAFE_CLEAN', '-DNDEBUG'], []),
    'clangno': ('clang', ['-O1'], []),
    'jac': ('gcc', ['-g', '-O2', '-DSAFE_CLEAN'], ['_MPECP_USE_RCB']),             # switch in ecc/ecpoint.h
    'heap': ('gcc', ['-g', '-O2', '-DSAFE_CLEAN'], ['_MPECP_MPFP_NOMALLOC']),      # switch in ecpoint.c
}


def lib_sources():
    return sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.c'))


def c_driver(variant, src='cdrv.c', extra=()):
    if variant.startswith('t-'):        # threaded build of the driver
        return c_driver(variant[2:], src, tuple(extra) + ('-DTHREADS',))
    drv = os.path.join(VERIF, 'drivers', src)
    files = tree_files(os.path.join(REPO, 'src'), os.path.join(REPO, 'include')) + [drv]
    exe = src.replace('.c', '')
    cc, flags, drop = 'gcc', None, []
    if variant in CONFIGS:
        cc, flags, drop = CONFIGS[variant]
        flags = flags + ['-DTRACK_ALLOC']
    else:
        flags = {
            'plain': CFLAGS + ['-DTRACK_ALLOC'],
            'vg': CFLAGS,
            'asan': ['-g', '-O1', '-DSAFE_CLEAN', '-DEXACT_BUF'] + SAN,
            'tsan': ['-g', '-O1', '-DSAFE_CLEAN', '-fsanitize=thread'],
        }[variant]
    flags = flags + list(extra)

    def build(d):
        inc, srcs = os.path.join(REPO, 'include'), lib_sources()
        if drop:                        # a header switch is a line '#define NAME ...'
            t = os.path.join(d, 'tree')
            shutil.copytree(os.path.join(REPO, 'src'), os.path.join(t, 'src'), ignore=lambda a, b: [x for x in b if not x.endswith(('.c', '.h'))])
            shutil.copytree(inc, os.path.join(t, 'include'))
            for f in tree_files(t):
                text = open(f, errors='surrogateescape').read()
                new = re.sub(r'(?m)^[ \t]*#[ \t]*define[ \t]+(%s)\b.*$' % '|'.join(drop), '', text)
                if new != text:
                    open(f, 'w', errors='surrogateescape').write(new)
            inc, srcs = os.path.join(t, 'include'), [os.path.join(t, 'src', os.path.basename(x)) for x in srcs]
        cmd = [cc] + flags + ['-w', '-I', inc, '-o', os.path.join(d, exe), drv]
        cmd += srcs + ['-lgmp', '-lsodium', '-lpthread']
        sh(cmd)
        if drop:
            shutil.rmtree(os.path.join(d, 'tree'))
    d = cached_build('%s-%s%s' % (exe, variant, '-thr' if '-DTHREADS' in extra else ''), files, flags, build)
    return os.path.join(d, exe)


SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
}


# ----------------------------------------------------------------- drivers
class Driver:
    """A child process speaking one reply line per command line; '.' flushes."""

    def __init__(self, argv, env=None, cwd=None, timeout=20.0, end='.'):
        self.argv, self.cwd, self.timeout, self.end = argv, cwd, timeout, end
        self.env = dict(os.environ)
        self.env.update(SAN_ENV)
        if env:
            self.env.update(env)
        self.p = None
        self.ncmds = 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=self.env, cwd=self.cwd, bufsize=0, start_new_session=True)
        os.set_blocking(self.p.stdin.fileno(), False)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b''

    def stop(self):
        if self.p is None:
            return None
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            self._kill()
            rc = None
        self.p.stdout.close()
        self.err.close()
        self.p = None
        return rc

    def _kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def kill(self):
        if self.p is None:
            return
        self._kill()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()
        self.p = None

    def stderr_text(self):
        try:
            self.err.seek(0)
            return self.err.read(200000).decode(errors='replace')
        except (OSError, ValueError):
            return ''

    def batch(self, lines, timeout=None):
        """Send the lines, return the reply lines; Violation on crash or hang."""
        if self.p is None:
            self.start()
        self.ncmds += len(lines)
        data = ('\n'.join(lines) + '\n' + self.end + '\n').encode()
        want = len(lines) + 1
        out = []
        fi, fo = self.p.stdin.fileno(), self.p.stdout.fileno()
        deadline = time.monotonic() + (timeout or self.timeout)
        off = 0
        dead = False
        while len(out) < want:
            left = deadline - time.monotonic()
            if left <= 0:
                text = self.stderr_text()
                self.kill()
                raise Violation('no answer within %.0f s (hang) in: %s' % (timeout or self.timeout, _tail(lines, len(out))),
                                kind='hang', detail=text[-1500:])
            r, w, _ = select.select([fo], [fi] if off < len(data) else [], [], min(left, 5))
            if w:
                try:
                    off += os.write(fi, data[off:off + 65536])
                except BlockingIOError:
                    pass
                except OSError as e:
                    if e.errno != errno.EPIPE:
                        raise
                    off = len(data)
            if r:
                try:
                    chunk = os.read(fo, 1 << 20)
                except BlockingIOError:
                    continue
                if not chunk:
                    dead = True
                    break
                self.buf += chunk
                *full, self.buf = self.buf.split(b'\n')
                out.extend(x.decode(errors='replace') for x in full)
        if dead:
            rc = self.p.wait()
            text = self.stderr_text()
            self.kill()
            if rc == -signal.SIGKILL:
                raise Inconclusive('driver was killed (memory?)')
            if 'failed to allocate' in text or 'unable to allocate' in text or 'out-of-memory' in text:
                raise Inconclusive('driver ran out of memory')
            raise Violation('the process died (%s): %s' % (_rc(rc), crash_line(text)), kind='crash', detail=text[-3000:])
        if out[want - 1] != self.end:
            raise HarnessError('protocol: %r' % (out[-3:],))
        return out[:want - 1]


def _rc(rc):
    if rc is not None and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return 'signal %d' % -rc
    return 'exit status %s' % rc


def _tail(lines, done):
    return '; '.join(lines[max(0, done - 1):done + 1])[:300]


def crash_line(text):
    for l in text.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'WARNING: ThreadSanitizer' in l \
                or 'Fatal Python error' in l or l.startswith('panic:') or 'SIGSEGV' in l or 'unexpected fault' in l \
                or ('ERROR: ' in l) or 'free():' in l or 'malloc' in l or 'corrupt' in l or 'Invalid ' in l or 'uninitialised' in l:
            return l.strip()[:300]
    ls = [l for l in text.splitlines() if l.strip()]
    return ls[-1][:300] if ls else '(no message)'


def died(rc):
    """True when a tool's exit means it crashed (signal, sanitizer exit code)."""
    return rc is not None and (rc < 0 or rc in (99, 66, 134, 139))


# ----------------------------------------------------------------- checks
class Check:
    """Subclass: pid, rule, gen(rng, env)->case, run(case, env)->tags."""
    pid = None
    level = 'exploration'
    rule = ''
    assumptions = []
    variants = ['plain', 'asan']
    cases = {'quick': 4000, 'thorough': 60000}       # total, over all workers
    budget = {'quick': 150, 'thorough': 2400}        # seconds of generation, a ceiling only
    restart_every = 400
    weight = {}          # variant -> share of the per-worker quota
    timeout = 20.0
    workers = NPROC
    nondet = False       # outcome may depend on the library's own randomness/schedule

    def setup(self, tier):
        """Build things (parent, before forking)."""
        return {}

    def worker_init(self, env):
        pass

    def gen(self, rng, env):
        raise NotImplementedError

    def run(self, case, env):
        raise NotImplementedError

    def nontrivial(self, case, tags):
        return True

    def fixed_cases(self, tier, env):
        """Enumerated cases run before generation (worker-striped)."""
        return []

    def final(self, stats, env):
        """After all workers: aggregated oracle (statistics); may raise Violation."""
        return {}

    def sample(self, case):
        return case

    def soft(self, env, key, fn):
        """run one step of a case; a violation there that is a listed finding does not end the case"""
        try:
            fn()
        except Violation as v:
            v.key = key
            if key not in env.get('known', {}):
                raise
            return {'known-' + key: 1}
        return {}


class CCheck(Check):
    """A check whose driver is the C line-protocol driver."""
    driver_src = 'cdrv.c'

    def setup(self, tier):
        return {'exe': {v: c_driver(v, self.driver_src) for v in sorted(set(self.variants))}}

    def argv(self, env):
        v = env['variant']
        if v == 'vg':
            return ['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=no', env['built']['exe'][v]]
        return [env['built']['exe'][v]]

    def worker_init(self, env):
        t = self.timeout * (1 if env['variant'] == 'plain' else 4)
        env['drv'] = Driver(self.argv(env), timeout=t, env={'MALLOC_ARENA_MAX': '1'})

    def worker_done(self, env):
        if 'drv' in env:
            env['drv'].stop()


def ok(reply):
    if reply.startswith('BAD'):
        raise Skip(reply)
    if not reply.startswith('ok'):
        raise Violation('unexpected reply %r' % reply)
    return reply[3:].split(' ') if len(reply) > 3 else []


# ----------------------------------------------------------------- known findings
def load_known(pid):
    """Lines: 'finding: property=<id> key=<key> <text>' / 'fixed: property=...' (no effect)."""
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding:'):
                    parts = l.split(None, 3)
                    if parts[1] == 'property=' + pid and parts[2].startswith('key='):
                        out[parts[2][4:]] = parts[3] if len(parts) > 3 else ''
    except FileNotFoundError:
        pass
    return out


# ----------------------------------------------------------------- engine
def derive(seed, *parts):
    return int.from_bytes(hashlib.sha256(repr((seed,) + parts).encode()).digest()[:8], 'big')


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def new_env(chk, built, variant, tier, rng):
    env = {'built': built, 'variant': variant, 'tier': tier, 'rng': rng, 'stats': {}, 'known': load_known(chk.pid)}
    chk.worker_init(env)
    return env


def close_env(chk, env):
    f = getattr(chk, 'worker_done', None)
    if f:
        try:
            f(env)
        except Exception:
            pass


def worker_main(chk, built, tier, seed, w, stopfile, outpath, known, quota, deadline):
    variant = chk.variants[w % len(chk.variants)]
    rng = random.Random(derive(seed, chk.pid, w))
    st = {'n': 0, 'nontriv': 0, 'hashes': set(), 'tags': {}, 'samples': [], 'skips': 0, 'known': {}, 'violation': None,
          'variant': variant, 'inconclusive': 0, 'error': None, 'agg': {}, 'cmds': 0, 'timeup': False}
    try:
        env = new_env(chk, built, variant, tier, rng)
        history = []
        fixed = chk.fixed_cases(tier, env)
        todo = [c for i, c in enumerate(fixed) if i % chk.workers == w]
        i = 0
        while True:
            if i < len(todo):
                case = todo[i]
            elif i - len(todo) < quota:
                case = chk.gen(rng, env)
            else:
                break
            i += 1
            if time.monotonic() > deadline:
                st['timeup'] = True
                break
            if os.path.exists(stopfile):
                break
            if len(history) >= chk.restart_every:
                close_env(chk, env)
                agg = env['stats']
                env = new_env(chk, built, variant, tier, rng)
                env['stats'] = agg
                history = []
            history.append(case)
            try:
                tags = chk.run(case, env)
            except Skip as e:
                st['skips'] += 1
                st['tags']['skipped'] = st['tags'].get('skipped', 0) + 1
                st.setdefault('skipmsg', str(e))
                drv = env.get('drv')
                if drv is not None and hasattr(drv, 'batch') and drv.p is not None:
                    pass
                continue
            except Inconclusive as e:
                st['inconclusive'] += 1
                st['incmsg'] = str(e)
                close_env(chk, env)
                env = new_env(chk, built, variant, tier, rng)
                history = []
                if st['inconclusive'] > 8:
                    raise HarnessError('too many inconclusive cases: %s' % e)
                continue
            except Violation as v:
                if v.key is not None and v.key in known:
                    st['known'][v.key] = st['known'].get(v.key, 0) + 1
                    close_env(chk, env)
                    env = new_env(chk, built, variant, tier, rng)
                    history = []
                    continue
                st['violation'] = {'msg': v.msg, 'key': v.key, 'kind': v.kind, 'detail': v.detail, 'case': case,
                                   'history': history[-chk.restart_every:], 'variant': variant}
                open(stopfile, 'w').close()
                break
            st['n'] += 1
            tags = tags or {}
            if not isinstance(tags, dict):
                tags = {t: 1 for t in tags}
            for t, c in tags.items():
                st['tags'][t] = st['tags'].get(t, 0) + c
            if chk.nontrivial(case, tags):
                h = case_hash(case)
                if h not in st['hashes']:
                    st['hashes'].add(h)
                    if len(st['samples']) < 3 and (st['n'] % 7 == 1 or st['n'] > 30):
                        st['samples'].append(json.loads(json.dumps(chk.sample(case), default=str)))
        st['agg'] = env['stats']
        close_env(chk, env)
    except Violation as v:
        st['violation'] = {'msg': v.msg, 'key': v.key, 'kind': v.kind, 'detail': v.detail, 'case': None, 'history': [], 'variant': variant}
    except BaseException:
        st['error'] = traceback.format_exc()
    st['hashes'] = list(st['hashes'])
    with open(outpath + '.tmp', 'w') as f:
        json.dump(st, f, default=str)
    os.rename(outpath + '.tmp', outpath)


def attempt(chk, built, variant, tier, cases, slow=False):
    """Run the cases in a fresh environment; the Violation of the last failing one, or None."""
    rng = random.Random(1)
    if slow:
        chk = copy.copy(chk)
        chk.timeout = chk.timeout * 4
    env = new_env(chk, built, variant, tier, rng)
    try:
        for c in cases:
            try:
                chk.run(c, env)
            except Skip:
                return None
            except Inconclusive:
                return None
            except Violation as v:
                return v
    finally:
        close_env(chk, env)
    return None


def reproduce(chk, built, variant, tier, cases, tries, slow=False):
    for _ in range(tries):
        v = attempt(chk, built, variant, tier, cases, slow)
        if v is not None:
            return v
    return None


def shrink_candidates(node):
    """Smaller variants of a JSON value: drop list chunks, simplify ints and strings."""
    if isinstance(node, dict):
        for k in sorted(node):
            for c in shrink_candidates(node[k]):
                d = dict(node)
                d[k] = c
                yield d
    elif isinstance(node, list):
        n = len(node)
        if n and all(isinstance(x, list) for x in node):     # a list of operations
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    yield node[:i] + node[i + size:]
                size //= 2
        for i in range(n):
            for c in shrink_candidates(node[i]):
                yield node[:i] + [c] + node[i + 1:]
    elif isinstance(node, bool):
        return
    elif isinstance(node, int):
        seen = set()
        for v in (0, 1, 2, node // 2, node >> 8, node - 1, abs(node)):
            if v != node and abs(v) <= abs(node) and v not in seen:
                seen.add(v)
                yield v


def shrink(chk, built, variant, tier, case, key, budget=SHRINK_S, tries=1):
    end = time.monotonic() + budget
    best = case
    cand_fn = getattr(chk, 'shrinks', None) or shrink_candidates
    improved = True
    n = 0
    while improved and time.monotonic() < end:
        improved = False
        for cand in cand_fn(best):
            if time.monotonic() > end:
                break
            n += 1
            try:
                v = reproduce(chk, built, variant, tier, [cand], tries)
            except Exception:
                continue
            if v is not None and (key is None or v.key == key):
                best = cand
                improved = True
                break
    return best, n


def write_replay(chk, variant, cases, v, seed, tier):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    body = {'property': chk.pid, 'variant': variant, 'seed': seed, 'tier': tier, 'message': v['msg'], 'kind': v['kind'],
            'detail': v.get('detail'), 'cases': cases}
    path = os.path.join(d, '%s-%s.json' % (chk.pid, case_hash(cases)))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, default=str)
    return path


def run_check(chk, tier, seed):
    t0 = time.monotonic()
    known = load_known(chk.pid)
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (chk.pid, known[k]))
    built = chk.setup(tier)
    tbuild = time.monotonic() - t0
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % chk.pid)
    nw = chk.workers
    total = chk.cases[tier]
    deadline = time.monotonic() + chk.budget[tier]
    stopfile = os.path.join(tmp, 'stop')
    pids = []
    try:
        for w in range(nw):
            quota = total // nw + (1 if w < total % nw else 0)
            quota = int(quota * chk.weight.get(chk.variants[w % len(chk.variants)], 1)) or 1
            pid = os.fork()
            if pid == 0:
                try:
                    worker_main(chk, built, tier, seed, w, stopfile, os.path.join(tmp, 'w%d.json' % w), known, quota, deadline)
                finally:
                    os._exit(0)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        res = []
        for w in range(nw):
            try:
                with open(os.path.join(tmp, 'w%d.json' % w)) as f:
                    res.append(json.load(f))
            except FileNotFoundError:
                res.append({'error': 'worker %d vanished (killed?)' % w, 'n': 0, 'hashes': [], 'tags': {}, 'samples': [], 'skips': 0,
                            'known': {}, 'violation': None, 'variant': '?', 'agg': {}, 'inconclusive': 0})
        violations = [r['violation'] for r in res if r['violation']]
        errors = [r['error'] for r in res if r['error']]
        extra = {}
        if not violations and not errors:
            try:
                extra = chk.final([r['agg'] for r in res], {'built': built, 'tier': tier, 'seed': seed}) or {}
            except Violation as v:
                violations.append({'msg': v.msg, 'key': v.key, 'kind': v.kind, 'detail': v.detail, 'case': getattr(v, 'case', None),
                                   'history': [], 'variant': chk.variants[0], 'final': True})
        reported = None
        unrepro = []
        for v in violations:
            r = settle(chk, built, tier, seed, v)
            if r:
                reported = r
                break
            unrepro.append(v['msg'])
        hashes = set()
        tags = {}
        variants = {}
        for r in res:
            hashes.update(r['hashes'])
            variants[r['variant']] = variants.get(r['variant'], 0) + r['n']
            for t, c in r['tags'].items():
                tags[t] = tags.get(t, 0) + c
        ev = {
            'property': chk.pid, 'tier': tier, 'seed': seed, 'level': chk.level,
            'coverage': {
                'evaluations': sum(r['n'] for r in res),
                'distinct_nontrivial': len(hashes),
                'rule': chk.rule,
                'samples': [s for r in res for s in r['samples'][:2]][:8],
                'tags': tags,
                'cases_by_variant': variants,
                'skipped': sum(r['skips'] for r in res),
                'inconclusive': sum(r['inconclusive'] for r in res),
                'budget_reached': any(r.get('timeup') for r in res),
                'known_finding_hits': {k: sum(r['known'].get(k, 0) for r in res) for k in known},
            },
            'assumptions': chk.assumptions,
            'wall_s': round(time.monotonic() - t0, 2),
            'violations': 1 if reported else 0,
        }
        ev['coverage']['build_s'] = round(tbuild, 2)
        ev['coverage'].update(extra)
        if unrepro:
            ev['coverage']['unreproduced'] = unrepro
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', chk.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + '.tmp', p)
        print('%s tier=%s seed=%d cases=%d distinct_nontrivial=%d skipped=%d wall=%.1fs' % (
            chk.pid, tier, seed, ev['coverage']['evaluations'], len(hashes), ev['coverage']['skipped'], ev['wall_s']))
        if reported:
            print(reported[0])
            print('VIOLATION property=%s replay=%s' % (chk.pid, reported[1]))
            return 1
        if errors:
            print('ERROR in worker:\n' + errors[0])
            return 2
        if ev['coverage']['evaluations'] == 0:
            print('ERROR: nothing was evaluated')
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def settle(chk, built, tier, seed, v):
    """Confirm, shrink, write the replay file.  Returns (text, path) or None."""
    if v['case'] is None:
        path = write_replay(chk, v['variant'], [], v, seed, tier)
        return ('%s: %s' % (chk.pid, v['msg']), path)
    variant = v['variant']
    slow = v['kind'] == 'hang'
    tries = 1 if slow else 6 if chk.nondet else 3
    got = reproduce(chk, built, variant, tier, [v['case']], tries, slow)
    if got is not None:
        if slow:
            case, n = v['case'], 0
        else:
            case, n = shrink(chk, built, variant, tier, v['case'], v['key'], tries=3 if chk.nondet else 1)
        final = reproduce(chk, built, variant, tier, [case], tries, slow) or got
        vv = {'msg': final.msg, 'kind': final.kind, 'detail': final.detail}
        path = write_replay(chk, variant, [case], vv, seed, tier)
        return ('%s: %s\n  minimal case: %s' % (chk.pid, final.msg, json.dumps(case, default=str)[:1500]), path)
    hist = v['history']
    if len(hist) > 1:
        got = reproduce(chk, built, variant, tier, hist, 2, slow)
        if got is not None:
            # reduce the history of cases
            end = time.monotonic() + 0.75 * SHRINK_S
            size = len(hist) // 2
            while size >= 1 and time.monotonic() < end:
                i = 0
                while i < len(hist) - 1 and time.monotonic() < end:
                    cand = hist[:i] + hist[min(i + size, len(hist) - 1):]
                    if len(cand) < len(hist) and attempt(chk, built, variant, tier, cand) is not None:
                        hist = cand
                    else:
                        i += size
                size //= 2
            vv = {'msg': got.msg, 'kind': got.kind, 'detail': got.detail}
            path = write_replay(chk, variant, hist, vv, seed, tier)
            return ('%s: %s (after a history of %d cases)' % (chk.pid, got.msg, len(hist)), path)
    if v['kind'] == 'hang':
        return None            # not reproducible with a generous limit: load, not a finding
    # wrong values and crashes are facts about the code even when they depend on
    # its own randomness or on the schedule
    path = write_replay(chk, variant, [v['case']], v, seed, tier)
    return ('%s: %s (observed once; depends on the code\'s own randomness or schedule)' % (chk.pid, v['msg']), path)


def replay_file(chk, path):
    with open(path) as f:
        body = json.load(f)
    built = chk.setup(body.get('tier', 'quick'))
    if not body['cases']:
        print('replay: aggregate violation, re-running the check')
        return run_check(chk, body.get('tier', 'quick'), body.get('seed', 1))
    v = reproduce(chk, built, body['variant'], body.get('tier', 'quick'), body['cases'], 10 if chk.nondet else 3)
    if v is None:
        print('replay: the recorded case passes on this tree')
        return 0
    print('%s: %s' % (chk.pid, v.msg))
    if v.detail:
        print(v.detail)
    print('VIOLATION property=%s replay=%s' % (chk.pid, path))
    return 1


def main(get_check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    a = ap.parse_args(argv)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = derive(os.environ['VERIF_SEED']) & 0x7fffffff
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    chk = get_check(a.pid)
    try:
        if a.replay:
            return replay_file(chk, a.replay)
        return run_check(chk, tier, seed)
    except HarnessError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        print('ERROR: internal\n' + traceback.format_exc())
        return 2
