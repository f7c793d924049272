"""Shared machinery: building the tree under test, recording evidence, reporting violations."""
import atexit, hashlib, json, os, re, resource, selectors, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
def _lower(what, v):
    hard = resource.getrlimit(what)[1]
    if hard == resource.RLIM_INFINITY or hard > v: resource.setrlimit(what, (v, v))
_lower(resource.RLIMIT_DATA, 5 << 30)       # a broken tool must not exhaust the machine
_lower(resource.RLIMIT_FSIZE, 4 << 30)

_scratch = []
_live = {}
_main_pid = os.getpid()

class CheckError(Exception):
    """The check itself cannot run (build failure, missing tool): exit 2, never a violation."""

class TreeError(CheckError):
    """A tool of the tree under test fails on an ordinary program of the harness, or keeps hanging: a violation."""

CURRENT = None      # the report of the running check
MAX_OUT = 200 << 20
_timeouts = [0]

def scratch(name='s'):
    d = tempfile.mkdtemp(prefix='vfx-%s-' % name, dir=os.environ.get('TMPDIR', '/tmp'))
    _scratch.append(d)
    return d

def _cleanup():
    if os.getpid() != _main_pid:
        return
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)
def stop_all():
    for pid in list(_live):
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
    _cleanup()
def _on_term(sig, frm):
    stop_all()
    os._exit(2)
signal.signal(signal.SIGTERM, _on_term)

CLEAN_ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/lib/llvm-18/bin',
             'HOME': '/root', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}

def communicate(p, input, timeout):
    """As Popen.communicate, but a process that writes without end is stopped."""
    if input is not None: return p.communicate(input, timeout=timeout)
    end = time.time() + timeout
    out = {p.stdout: [], p.stderr: []}; n = 0
    with selectors.DefaultSelector() as sel:
        for f in out: sel.register(f, selectors.EVENT_READ)
        while sel.get_map():
            left = end - time.time()
            if left <= 0: raise subprocess.TimeoutExpired(p.args, timeout)
            for key, _ in sel.select(left):
                d = os.read(key.fd, 1 << 18)
                if d: out[key.fileobj].append(d); n += len(d)
                else: sel.unregister(key.fileobj)
            if n > MAX_OUT: raise subprocess.TimeoutExpired(p.args, timeout)
    p.wait(timeout=max(0.1, end - time.time()))
    o, e = b''.join(out[p.stdout]), b''.join(out[p.stderr])
    p.stdout.close(); p.stderr.close()
    return o, e

def sh(cmd, timeout=120, cwd=None, input=None, env=None, mem_mb=None):
    """Runs cmd (list); returns (rc, stdout bytes, stderr bytes). rc=-signal when killed, 'timeout' on timeout."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         env=env or CLEAN_ENV, start_new_session=True)
    if mem_mb:
        try: resource.prlimit(p.pid, resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        except (ProcessLookupError, PermissionError): pass
    _live[p.pid] = p
    try:
        o, e = communicate(p, input, timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        try: o, e = p.communicate(timeout=10)
        except Exception: o, e = b'', b''
        _timeouts[0] += 1
        if _timeouts[0] >= 12 and timeout >= 20:
            raise TreeError('%d commands did not end in time; the last one: %s' % (_timeouts[0], cmd))
        return 'timeout', o, e
    finally:
        _live.pop(p.pid, None)

def pmap(fn, items, n=NCPU):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))

def copy_tree(dst):
    """The current working tree (tracked or not, without build output) of /repo."""
    for d in ('src', 'include', 'libsrc', 'examples', 'tests', 'tool'):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, d), symlinks=True,
                            ignore=shutil.ignore_patterns('*.o', '*.a', 'obj', '*.wasm', 'a.out', 'node_modules'))
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and f in ('Makefile', 'package.json', 'package-lock.json', 'compile_flags.txt'):
            shutil.copy2(p, dst)
    os.makedirs(os.path.join(dst, 'lib'), exist_ok=True)

class Build:
    """A private build of the tree under test."""
    def __init__(self, libs=True, wcc=False, optimize='-O1 -Wno-error', arch=None, cc='gcc', exes=True, extra=()):
        self.dir = scratch('build')
        copy_tree(self.dir)
        self.arch = arch
        mk = ['make', '-j%d' % NCPU, 'OPTIMIZE=' + optimize, 'CC=' + cc] + list(extra)
        if arch: mk.append('ARCHTYPE=' + arch)
        if exes: self._make(mk + ['exes'])
        if libs: self._make(mk + ['libs'])
        if wcc: self._make(mk + ['wcc'])
    def _make(self, cmd):
        rc, o, e = sh(cmd, timeout=600, cwd=self.dir)
        if rc != 0:
            raise CheckError('build failed: %s\n%s' % (' '.join(cmd), (o + e).decode('utf-8', 'replace')[-3000:]))
    def exe(self, name):
        return os.path.join(self.dir, name)
    @property
    def xcc(self): return self.exe('xcc')
    @property
    def wcc(self): return self.exe('wcc')

# ---------------------------------------------------------------- reporting

class Report:
    def __init__(self, pid, level='model_checking'):
        global CURRENT
        CURRENT = self
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.counts = {}
        self.samples = []
        self.violations = []     # (case id, text)
        self.known_hit = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.max_print = 20
        self.exhaustive = True
        self.rule = ''
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n
    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)
    def violation(self, case, text, replay=None):
        """case: stable identifier of the failing input. replay: dict or str saved to the replay file."""
        for k in self.known:
            if k['_re'].fullmatch(case):
                self.known_hit.setdefault(k['case'], []).append(case)
                return False
        self.violations.append((case, text, replay))
        return True
    def finish(self):
        for k in self.known:
            if k['case'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s (%s; %d case(s))' % (
                    self.pid, k['what'], k['case'], len(self.known_hit[k['case']])))
        rdir = os.path.join(VERIF, 'replays')
        rc = 0
        for i, (case, text, replay) in enumerate(self.violations):
            if i >= self.max_print:
                print('... and %d more' % (len(self.violations) - i))
                break
            os.makedirs(rdir, exist_ok=True)
            fn = os.path.join(rdir, '%s-%s.txt' % (self.pid, re.sub(r'[^A-Za-z0-9_.-]+', '_', case)[:80] + '-' + hashlib.sha1(case.encode()).hexdigest()[:8]))
            with open(fn, 'w', errors='replace') as f:
                f.write('property: %s\ncase: %s\n%s\n' % (self.pid, case, text))
                if replay is not None:
                    f.write('---- replay ----\n')
                    f.write(replay if isinstance(replay, str) else json.dumps(replay, indent=1))
                    f.write('\n')
            print('VIOLATION property=%s replay=%s' % (self.pid, fn))
            print('   case %s: %s' % (case, text.strip().split('\n')[0][:300]))
            rc = 1
        self.write_evidence()
        print('%s: %s; %d violation(s); %.1f s' % (
            self.pid, ', '.join('%s=%d' % kv for kv in sorted(self.counts.items())), len(self.violations), time.time() - self.t0))
        return rc
    def write_evidence(self):
        c = dict(self.counts)
        cov = {'samples': self.samples or ['(none)'], 'rule': self.rule, 'exhaustive': self.exhaustive}
        cov.update(c)
        if self.level == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.setdefault(k, 0)
        else:
            for k in ('evaluations', 'distinct_nontrivial'):
                cov.setdefault(k, 0)
        cov['known_findings_hit'] = {k: len(v) for k, v in self.known_hit.items()}
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')

def load_known(pid):
    out = []
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            d = json.loads(line)
            if d.get('property') == pid and d.get('status') == 'known':
                d['_re'] = re.compile(d['case'])
                out.append(d)
    return out
