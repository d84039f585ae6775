"""Shared machinery of the checks: build, run, observe, report.

A check is a Python function that drives the real bic, built from the sources in
/repo with the monitors on, and hands what it observed to an oracle.  Its
verdict has three values: `violation' (with a replay), held on what was
observed, or inconclusive (which never turns into one of the other two)."""
import atexit, fcntl, hashlib, json, os, random, re, resource, shutil, signal
import subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BIC_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
SUPPORT = os.path.join(VERIF, 'support')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

T0 = time.time()


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- scratch
_scratch = None
_lock = threading.Lock()
_count = 0


def scratch_root():
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix='bicv.')
            os.chmod(_scratch, 0o755)
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def scratch(name='d'):
    global _count
    root = scratch_root()
    with _lock:
        _count += 1
        n = _count
    d = os.path.join(root, '%s%d' % (name, n))
    os.mkdir(d)
    return d


# ---------------------------------------------------------------- build
def source_key():
    h = hashlib.sha256()
    for d in (SRC, SUPPORT):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(f.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


_bics = None


def build():
    """Build bic from /repo's working tree; returns {variant: path}."""
    global _bics
    if _bics:
        return _bics
    os.makedirs(BUILD, exist_ok=True)
    key = source_key()
    d = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, '.done')):
            for old in os.listdir(BUILD):
                p = os.path.join(BUILD, old)
                if os.path.isdir(p) and old != key and \
                        time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, True)
            os.makedirs(d, exist_ok=True)
            env = dict(os.environ)
            for v in ('MAKEFLAGS', 'MFLAGS', 'MAKELEVEL', 'CFLAGS', 'CC'):
                env.pop(v, None)
            r = subprocess.run(['make', '-j%d' % JOBS, '-f', os.path.join(SUPPORT, 'Makefile'),
                                'SRC=' + SRC], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stderr.write(r.stdout.decode(errors='replace')[-4000:])
                raise HarnessError('build of bic failed')
            open(os.path.join(d, '.done'), 'w').close()
        os.utime(d)
    _bics = {v: os.path.join(d, v, 'bic') for v in ('plain', 'asan')}
    _bics['dir'] = d
    return _bics


# ---------------------------------------------------------------- run
class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'wall', 'maxrss', 'argv', 'big', 'hang')

    def san(self):
        """The sanitizer report of this run, if there is one."""
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*: runtime error: [^\n]*|'
                      r'ERROR: LeakSanitizer[^\n]*|AddressSanitizer: CHECK failed[^\n]*)', self.err)
        return m.group(1) if m else None

    def crashed(self):
        """None, or why this execution isn't an orderly one."""
        s = self.san()
        if s:
            where = re.search(r'\n\s+#\d+ \S+ in (\S+) [^\n]*/(?:src|gen)/(\S+?):\d+', self.err)
            return 'sanitizer: ' + re.sub(r'0x[0-9a-f]+', '0x..', re.sub(r'==\d+==', '', s)) + \
                (' in ' + where.group(1) if where else '')
        if self.big:
            return 'runaway output'
        if self.hang:
            return self.hang
        if self.rc < 0 and not self.timeout:
            return 'signal ' + signal.Signals(-self.rc).name
        return None


ASAN_OPTIONS = ('detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:'
                'allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:'
                'max_free_fill_size=65536:free_fill_byte=213:quarantine_size_mb=64:'
                'handle_segv=1:symbolize=1:hard_rss_limit_mb=6000:fast_unwind_on_malloc=1:'
                'malloc_context_size=5')
OUT_LIMIT = 24 << 20


def base_env(home=None):
    return {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': home or scratch_root(),
            'LC_ALL': 'C', 'TERM': 'dumb', 'ASAN_OPTIONS': ASAN_OPTIONS,
            'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
            'TMPDIR': scratch_root()}


# What bic did not end by itself.
IDLE_SLICES, SLICE, HUNG_LIMIT = 5, 5, 16
_hung = 0
_longest = [0, 0]


class Hung(Exception):
    """So many executions hang that there is no point in going on."""


def activity(pid):
    """(CPU seconds used by a child and its descendants, whether all of them sleep)."""
    cpu, asleep, todo = 0, True, [pid]
    while todo:
        p = todo.pop()
        try:
            with open('/proc/%d/stat' % p) as f:
                w = f.read().rsplit(')', 1)[1].split()
            with open('/proc/%d/task/%d/children' % (p, p)) as f:
                todo += [int(x) for x in f.read().split()]
        except (OSError, ValueError, IndexError):
            continue
        cpu += sum(int(x) for x in w[11:15])
        asleep = asleep and w[0] in 'SZ'
    return cpu / os.sysconf('SC_CLK_TCK'), asleep


def watch(p, stdin, timeout):
    """Wait for bic: (timeout, None or how it hangs).  It hangs when it and all its
    children sleep for a while with all its input there, or use very much more CPU time than any of the executions before."""
    end, idle, last = time.time() + timeout, 0, 0
    while True:
        try:
            p.communicate(stdin, timeout=max(.01, min(SLICE, end - time.time())))
            return False, None
        except subprocess.TimeoutExpired:
            stdin = None
        cpu, asleep = activity(p.pid)
        idle = idle + 1 if asleep and cpu - last < .02 else 0
        last = cpu
        if idle >= IDLE_SLICES:
            return False, 'hangs: all processes sleep'
        if cpu > 60 and _longest[1] >= 8 and cpu > 20 * _longest[0]:
            return False, 'does not end: %d s of CPU time, all others took at most %.1f s' % (cpu, _longest[0])
        if time.time() >= end:
            return True, None


def run(argv, stdin=b'', cwd=None, env=None, timeout=60, cpu=None, out_limit=OUT_LIMIT,
        merge=False, rlimits=(), uid=None, watched=False):
    """Run a command with bounded time and output; returns a Result."""
    d = cwd or scratch_root()
    cpu = cpu or int(timeout) + 5
    fo = tempfile.TemporaryFile(dir=scratch_root())
    fe = fo if merge else tempfile.TemporaryFile(dir=scratch_root())

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (out_limit, out_limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        for k, v in rlimits:
            resource.setrlimit(k, v)
    global _hung
    if watched and _hung >= HUNG_LIMIT:
        raise Hung()
    r = Result()
    r.argv = argv
    r.hang = None
    t = time.time()
    if isinstance(stdin, str):
        stdin = stdin.encode('latin-1')
    p = subprocess.Popen(argv, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=fo, stderr=fe, cwd=d, env=env or base_env(), preexec_fn=pre)
    r.timeout = False
    try:
        if watched:
            r.timeout, r.hang = watch(p, stdin, timeout)
        else:
            p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
    except BrokenPipeError:
        pass
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
    r.wall = time.time() - t
    r.rc = p.returncode
    if r.rc in (-signal.SIGXCPU, ):
        r.timeout = True
    if watched:
        with _lock:
            if r.timeout or r.hang:
                _hung += 1
            else:
                _longest[0], _longest[1] = max(_longest[0], r.wall), _longest[1] + 1
    fo.seek(0, 2)
    r.big = fo.tell() >= out_limit - 4096 or r.rc == -signal.SIGXFSZ
    fo.seek(0)
    r.out = fo.read(out_limit).decode('latin-1')
    if merge:
        r.err = r.out
    else:
        fe.seek(0, 2)
        r.big = r.big or fe.tell() >= out_limit - 4096
        fe.seek(0)
        r.err = fe.read(out_limit).decode('latin-1')
        fe.close()
    fo.close()
    return r


def bic(args, stdin=b'', variant='asan', gc=None, gclog=None, cwd=None, timeout=60, env=None,
        rl=False, home=None, stat=None, **kw):
    e = base_env(home)
    if gc:
        e['BIC_VERIF_GC'] = gc
    if gclog:
        e['BIC_VERIF_GC_LOG'] = gclog
    if rl:
        e['BIC_VERIF_RL'] = '1'
    if stat:
        e['BIC_VERIF_STAT'] = stat
    if env:
        e.update(env)
        e = {k: v for k, v in e.items() if v is not None}
    return run([build()[variant]] + list(args), stdin, cwd, e, timeout, watched=True, **kw)


def pmap(fn, items):
    items = list(items)
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


def write(path, text):
    mode = 'wb' if isinstance(text, bytes) else 'w'
    with open(path, mode, **({} if mode == 'wb' else {'encoding': 'latin-1'})) as f:
        f.write(text)
    return path


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = SEED
        self.rng = random.Random('%s/%d/%s' % (pid, SEED, TIER))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.inconclusive = []
        self.known_hit = set()
        self.rule = ''
        self.assumptions = []
        self.lock = threading.Lock()
        self.known = []
        try:
            with open(os.path.join(VERIF, 'known-findings.json')) as f:
                self.known = [k for k in json.load(f)['known'] if k['property'] == pid]
        except FileNotFoundError:
            pass

    # -- what was observed
    def count(self, key, n=1):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + n

    def case(self, nontrivial_key=None, n=1):
        """An execution of one case was observed; `nontrivial_key' identifies
        it among the distinct non-trivial ones."""
        with self.lock:
            self.evaluations += n
            if nontrivial_key is not None:
                self.distinct.add(hashlib.md5(nontrivial_key.encode('latin-1', 'replace')).digest())

    def sample(self, s, limit=5):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    # -- verdicts
    def violation(self, what, files=None, key=None):
        """`files': {name: content} that reproduce it."""
        key = key or what
        for k in self.known:
            if k['match'] in key:
                with self.lock:
                    self.known_hit.add(k['what'])
                return
        with self.lock:
            n = len(self.violations)
            if n >= 10:
                self.violations.append(None)
                return
            d = os.path.join(VERIF, 'replays', self.pid, 'seed%d-%d' % (SEED, n))
            shutil.rmtree(d, True)
            os.makedirs(d)
            self.violations.append((what, d))
        write(os.path.join(d, 'what.txt'), what + '\n')
        for name, content in (files or {}).items():
            write(os.path.join(d, name), content)
        if os.environ.get('BIC_STOP'):
            # For the mutation campaign (tools/mutants.py): the first one is enough.
            print('VIOLATION property=%s replay=%s\n  %s' % (self.pid, d, what[:500]), flush=True)
            if _scratch:
                shutil.rmtree(_scratch, True)
            os._exit(1)

    def inconclusive_case(self, what):
        with self.lock:
            self.inconclusive.append(what)

    def finish(self, minimum=1):
        ev = {
            'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.rule,
                'samples': self.samples or ['none'],
                'observed': self.counts,
                'inconclusive': len(self.inconclusive),
                'inconclusive_samples': self.inconclusive[:3],
                'exhaustive': False,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - T0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        write(os.path.join(VERIF, 'evidence', self.pid + '.json'), json.dumps(ev, indent=1))
        for k in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for v in self.violations:
            if v:
                print('VIOLATION property=%s replay=%s' % (self.pid, v[1]))
                print('  ' + v[0].replace('\n', '\n  ')[:1500])
        print('%s: %d executions, %d distinct non-trivial, %d inconclusive, %d violations, %.1f s'
              % (self.pid, self.evaluations, len(self.distinct), len(self.inconclusive),
                 len(self.violations), time.time() - T0))
        if self.violations:
            return 1
        if len(self.distinct) < minimum:
            print('error: only %d distinct cases were observed, expected at least %d'
                  % (len(self.distinct), minimum), file=sys.stderr)
            return 2
        return 0
