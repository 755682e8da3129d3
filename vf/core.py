"""Building the linker, running things, and turning what the oracles say into a verdict."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
DLD = os.path.join(BUILD, 'target', 'debug', 'dld')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = max(2, min(8, os.cpu_count() or 2))
NOBODY = 65534
CLEAN_ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             'LANG': 'C', 'HOME': '/nonexistent'}


class Inconclusive(Exception):
    """The machinery could not observe what it needed; says nothing about the linker."""


def build():
    """Builds the linker from the current tree of the repository."""
    env = dict(os.environ)
    env.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
               CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never',
               RUSTC_WRAPPER='', CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
    env.pop('RUSTFLAGS', None)
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run(['cargo', 'build', '--bin', 'dld', '--locked', '--offline',
                        '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(DLD):
        sys.stdout.write(p.stdout[-4000:])
        print('ERROR: the linker does not build')
        sys.exit(2)


_private = None


def dld_path():
    """A copy of the linker that every user can run (/verif may be out of reach for nobody)."""
    return _private or DLD


class Scratch:
    """A directory of our own, in memory when possible."""

    def __init__(self, name='vf'):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK | os.X_OK) else '/tmp'
        self.dir = tempfile.mkdtemp(prefix=name + '-', dir=base)
        os.chmod(self.dir, 0o755)

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


Result = collections.namedtuple('Result', 'rc out err cpu timeout')


def run(argv, cwd, env=None, timeout=60, stdin=None, limits=None, user=None, text=True,
        stdout=None):
    """Runs a command; rc is negative when a signal ended it."""
    def pre():
        for k, v in (limits or {}).items():
            resource.setrlimit(k, (v, v))
        os.setsid()
    t0 = resource.getrusage(resource.RUSAGE_CHILDREN)
    kw = {}
    if user is not None and os.getuid() == 0:
        kw = dict(user=user, group=user, extra_groups=[])
    if limits:
        kw['preexec_fn'] = pre
    p = subprocess.Popen(argv, cwd=cwd, env=CLEAN_ENV if env is None else env,
                         stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE if stdout is None else stdout,
                         stderr=subprocess.PIPE, **kw)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        p.kill()
        out, err = p.communicate()
    t1 = resource.getrusage(resource.RUSAGE_CHILDREN)
    out = out or b''
    err = err or b''
    if text:
        out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
    return Result(p.returncode, out, err, t1.ru_utime + t1.ru_stime - t0.ru_utime - t0.ru_stime, to)


def dld(args, cwd, **kw):
    """Runs the linker, which takes milliseconds: one that doesn't end hangs."""
    kw.setdefault('timeout', 40)
    res = run([dld_path()] + list(args), cwd, **kw)
    if res.timeout:
        # was it the machine?
        res = run([dld_path()] + list(args), cwd, **kw)
    return res


def can_setuid():
    try:
        return os.getuid() == 0 and subprocess.run(
            ['/bin/true'], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except Exception:
        return False


_setuid = None


def can_setuid_cached():
    global _setuid
    if _setuid is None:
        _setuid = can_setuid()
    return _setuid


class Report:
    """What one case observed: counters, and violations as (signature, message)."""

    def __init__(self):
        self.counts = collections.Counter()
        self.violations = []
        self.shapes = set()
        self.samples = []
        self.inconclusive = []

    def count(self, what, n=1):
        self.counts[what] += n

    def shape(self, *what):
        """Notes a distinct, non-trivial situation."""
        self.shapes.add(hashlib.md5(repr(what).encode()).hexdigest()[:16])

    def bad(self, msg, sig=None):
        self.violations.append((sig or msg, msg))

    def sample(self, what):
        if len(self.samples) < 3:
            self.samples.append(what)

    def merge(self, other):
        self.counts.update(other.counts)
        self.shapes |= other.shapes
        self.samples = (self.samples + other.samples)[:5]
        self.inconclusive += other.inconclusive


_cases = {}


def _worker(args):
    label, prop, idx, scratch = args
    fn = _cases[label]
    rng = random.Random('%s/%d/%s' % (prop, SEED, idx))
    rep = Report()
    d = os.path.join(scratch, 'c%s' % idx)
    os.makedirs(d)
    err = None
    try:
        fn(rng, idx, d, rep)
    except Inconclusive as e:
        rep.inconclusive.append('case %s: %s' % (idx, e))
    except Exception:
        err = 'case %s: %s' % (idx, traceback.format_exc())
    keep = None
    if rep.violations or err:
        keep = os.path.join(VERIF, 'replays', '%s-%s-%d-%s' % (prop, TIER, SEED, idx))
        try:
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(d, keep, symlinks=True)
            with open(os.path.join(keep, 'REPORT.txt'), 'w') as f:
                f.write('property %s, tier %s, VERIF_SEED=%d, case %s\n' % (prop, TIER, SEED, idx))
                for _, m in rep.violations:
                    f.write(m + '\n')
                if err:
                    f.write(err)
        except Exception as e:
            keep = d
    shutil.rmtree(d, ignore_errors=True)
    return idx, rep, keep, err


class Check:
    """Runs numbered cases in parallel and decides."""

    def __init__(self, prop, level='exploration', rule='', assumptions=()):
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.t0 = time.time()
        self.total = Report()
        self.violations = []
        self.errors = []
        self.cases = 0
        self.known = load_known(prop)
        self.known_seen = {}
        global _private
        if not os.environ.get('VF_NOBUILD'):
            build()
        self.scratch = Scratch('vf-' + prop)
        _private = os.path.join(self.scratch.dir, 'dld')
        shutil.copy(DLD, _private)
        os.chmod(_private, 0o755)

    def run(self, fn, n, budget, label=''):
        """Runs fn(rng, idx, dir, report) for n cases, stopping after `budget` seconds."""
        start = time.time()
        only = os.environ.get('VF_CASE')
        ids = ['%s%d' % (label, i) for i in range(n)]
        if only:
            ids = [i for i in ids if i == only]
        if not ids:
            return
        # the workers inherit the function, which need not be picklable
        _cases[label] = fn
        ctx = multiprocessing.get_context('fork')
        it = iter(ids)
        with ctx.Pool(JOBS, initializer=_init) as pool:
            pending = collections.deque()

            def feed():
                i = next(it, None)
                if i is not None and time.time() - start < budget:
                    pending.append(pool.apply_async(
                        _worker, ((label, self.prop, i, self.scratch.dir),)))
            for _ in range(JOBS * 4):
                feed()
            while pending:
                r = pending.popleft()
                try:
                    idx, rep, keep, err = r.get(timeout=300)
                except multiprocessing.TimeoutError:
                    self.errors.append('a case of %s did not end' % label)
                    pool.terminate()
                    return
                self.cases += 1
                self.total.merge(rep)
                for sig, msg in rep.violations:
                    k = self.match_known(sig)
                    if k:
                        self.known_seen[k] = msg
                    else:
                        self.violations.append((msg, keep))
                if err:
                    self.errors.append(err)
                if len(self.violations) > 20 or len(self.errors) > 20:
                    pool.terminate()
                    return
                feed()

    def match_known(self, sig):
        for k in self.known:
            if k['signature'] == sig:
                return k['signature']
        return None

    def finish(self):
        t = self.total
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'evaluations': self.cases, 'distinct_nontrivial': len(t.shapes), 'rule': self.rule,
               'samples': t.samples or ['none'], 'observed': dict(sorted(t.counts.items())),
               'inconclusive': len(t.inconclusive)}
        if t.inconclusive:
            cov['inconclusive_samples'] = t.inconclusive[:5]
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
              'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.scratch.__exit__()
        for k in self.known:
            if k['signature'] in self.known_seen:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        print('%s: %d cases, %d distinct, %s' % (self.prop, self.cases, len(t.shapes),
                                                 dict(sorted(t.counts.items()))))
        if t.inconclusive:
            print('%d inconclusive: %s' % (len(t.inconclusive), t.inconclusive[:3]))
        if self.violations:
            for msg, keep in self.violations[:10]:
                print(msg)
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][1]))
            sys.exit(1)
        if self.errors:
            print('ERROR: %s' % self.errors[0])
            sys.exit(2)
        if not self.cases or not t.shapes:
            print('ERROR: nothing was observed')
            sys.exit(2)
        if len(t.inconclusive) * 4 > self.cases:
            print('ERROR: too little was observed')
            sys.exit(2)
        sys.exit(0)


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                sig, what = line[len('known: property=%s ' % prop):].split(' | ', 1)
                out.append({'signature': sig, 'what': what})
    return out
