"""C15: the same inputs and options always give the same result."""
import hashlib
import os
import shutil
import stat
import subprocess

from . import c05
from .common import *
from .gen import *

L = '/usr/lib/x86_64-linux-gnu'


def profile(rng):
    k = rng.randrange(4)
    p = dict(big=0.01, narch=rng.choice([0, 1, 2, 3]), nlib=rng.choice([0, 1, 2, 3]))
    if k == 0:
        p.update(nglob=(10, 80), nobj=(2, 12), nrel=(2, 12))
    elif k == 1:
        p.update(nobj=(3, 8), nsec=(5, 30), nrel=(10, 40))
    elif k == 2:
        p.update(nlib=3, nglob=(10, 60), sym_weights=[2, 1, 3, 2, 12, 3, 0], nrel=(10, 30))
    return p


def environment(rng):
    e = dict(core.CLEAN_ENV)
    for k, v in (('RUST_LOG', ['off', 'error', 'debug', 'trace', 'dld=info']),
                 ('RUST_BACKTRACE', ['0', '1', 'full']), ('LANG', ['C', 'C.UTF-8', 'tr_TR.UTF-8']),
                 ('LC_ALL', ['C', 'POSIX', 'de_DE']), ('HOME', ['/', '/root', '']),
                 ('TMPDIR', ['/nonexistent', '/tmp']), ('SOURCE_DATE_EPOCH', ['0', '1', '1700000000']),
                 ('LD_LIBRARY_PATH', ['/nonexistent']), ('LIBRARY_PATH', ['/usr/lib', '.']),
                 ('LD_RUN_PATH', ['/x']), ('LDFLAGS', ['-s']), ('USER', ['a', 'b']),
                 ('TERM', ['dumb', 'xterm-256color']), ('COLUMNS', ['1']), ('PWD', ['/wrong']),
                 ('MALLOC_PERTURB_', ['85', '170']), ('X' * 40, ['y' * rng.randrange(1, 5000)])):
        if rng.random() < 0.4:
            e[k] = rng.choice(v)
    return e


class Run:
    """One way to run the same link."""

    def __init__(self, rng, d, n, args, files):
        self.what = []
        self.cwd, self.env = d, dict(core.CLEAN_ENV)
        self.args = list(args)
        self.out = os.path.join(d, args[args.index('-o') + 1])
        self.pre, self.user, self.stdout = [], None, None
        if n == 0:
            return
        self.moved = False
        if rng.random() < 0.5:
            self.env = environment(rng)
            self.what.append('environment')
        k = rng.random()
        if k < 0.2:
            # a copy of the inputs somewhere else, written in another order and at another time
            new = os.path.join(d, 'copy%d' % n, 'a' * rng.randrange(1, 100))
            lst = list(files)
            rng.shuffle(lst)
            for f in lst:
                os.makedirs(os.path.dirname(os.path.join(new, f)), exist_ok=True)
                shutil.copyfile(os.path.join(d, f), os.path.join(new, f))
                os.utime(os.path.join(new, f), (rng.randrange(1 << 31), rng.randrange(1 << 31)))
            self.cwd = new
            self.what.append('copied inputs')
        elif k < 0.4:
            # from elsewhere, with absolute names
            self.args = [os.path.join(d, a) if a in files else a for a in self.args]
            self.cwd = rng.choice(['/', '/usr', os.path.dirname(d)])
            self.what.append('working directory')
        elif k < 0.5:
            self.args = ['./' + a if a in files else a for a in self.args]
            self.what.append('other spellings')
        o = os.path.join(d, 'r%d' % n)
        os.makedirs(o)
        os.chmod(o, 0o777)
        self.out = os.path.join(o, rng.choice(['out', 'o', 'a.out', 'x' * 200, 'sub/out', 'out.so',
                                               'a b', '-x']))
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        os.chmod(os.path.dirname(self.out), 0o777)
        name = self.out
        if rng.random() < 0.3:
            name = os.path.relpath(self.out, self.cwd)
        self.args[self.args.index('-o') + 1] = name
        if rng.random() < 0.3:
            # not the first output of this name
            with open(self.out, 'wb') as f:
                f.write(rng.randbytes(rng.choice([0, 10, 1 << 20])))
            os.chmod(self.out, rng.choice([0o644, 0o755, 0o400]))
            self.what.append('older output')
        if rng.random() < 0.2:
            self.pre += ['setarch', '-R']
            self.what.append('no ASLR')
        if rng.random() < 0.2:
            self.pre += ['nice', '-n', '10']
        if rng.random() < 0.2:
            self.stdout = rng.choice(['/dev/full', '/dev/null', 'closed'])
            self.what.append('stdout ' + self.stdout)
        if rng.random() < 0.15:
            self.umask = rng.choice([0o077, 0o777, 0])
            self.what.append('umask')
        else:
            self.umask = 0o022

    def start(self):
        out = open('/dev/full' if self.stdout == '/dev/full' else '/dev/null', 'wb')
        umask = getattr(self, 'umask', 0o022)
        closed = self.stdout == 'closed'

        def pre():
            os.umask(umask)
            if closed:
                os.close(1)
        self.p = subprocess.Popen(self.pre + [core.dld_path()] + self.args, cwd=self.cwd,
                                  env=self.env, stdin=subprocess.DEVNULL, stdout=out,
                                  stderr=subprocess.DEVNULL, preexec_fn=pre)
        out.close()

    def result(self):
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = 'none after 60 s'
        data = None
        if rc == 0 and os.path.isfile(self.out):
            with open(self.out, 'rb') as f:
                data = f.read()
        return rc, data


def compare(rng, d, rep, args, files, n):
    runs = [Run(rng, d, i, args, files) for i in range(n)]
    if rng.random() < 0.4:
        for r in runs:
            r.start()
        res = [r.result() for r in runs]
        rep.count('runs at the same time', n)
    else:
        res = []
        for r in runs:
            r.start()
            res.append(r.result())
    for r, (rc, data) in zip(runs, res):
        for x in r.what:
            rep.count('varied: ' + x)
        if (rc == 0) != (res[0][0] == 0):
            rep.bad('the link ends with status %s, and with %s when run again with another %s' % (
                res[0][0], rc, ', '.join(r.what) or 'process'))
        elif rc == 0 and data is None:
            rep.bad('a link succeeds without an output (%s)' % ', '.join(r.what))
        elif data != res[0][1]:
            a, b = res[0][1], data
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            rep.bad('the outputs of two runs differ, first at offset %#x (%d and %d bytes; %s)' % (
                k, len(a), len(b), ', '.join(r.what) or 'another process'))
    rep.count('runs', n)
    rep.count('links that succeed' if res[0][0] == 0 else 'links that fail')
    rep.count('bytes compared', sum(len(x[1] or b'') for x in res[1:]))
    return res[0][0]


def all_files(d):
    return {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}


def case(rng, idx, d, rep):
    g = Gen(rng, **profile(rng))
    w = g.build()
    broken = rng.random() < 0.15 and c05.break_world(rng, g, w)
    if broken:
        w.resolve()
    w.emit(d, rng)
    with open(os.path.join(d, 'cmd.txt'), 'w') as f:
        f.write('\n'.join(w.args()) + '\n')
    files = all_files(d) - {'cmd.txt'}
    rc = compare(rng, d, rep, w.args(), files, rng.choice([3, 4, 5, 6]))
    if rc and not broken:
        rep.bad('a link that has to succeed ends with status %s' % rc)
    rep.shape(rc, *world_shape(w))
    if not rc:
        rep.sample(describe(w))


def libc_case(rng, idx, d, rep):
    """Programs with the C library."""
    src = 'int printf(const char *, ...); extern char **environ; int x%d;' % rng.randrange(9)
    fs = rng.sample(['puts', 'getenv', 'malloc', 'free', 'strlen', 'qsort', 'abs', 'time', 'rand',
                     'atoi', 'fopen', 'fclose', 'read', 'write', 'signal', 'sin'], rng.randrange(1, 12))
    if 'sin' in fs:
        fs.remove('sin')
    src += ''.join('void %s(void);' % f for f in fs)
    src += 'void *p[] = {%s};' % ','.join('(void *) ' + f for f in fs)
    src += 'int main(void) { printf("%%p", environ); %s return 0; }' % ''.join(
        '%s();' % f for f in fs)
    with open(os.path.join(d, 'm.c'), 'w') as f:
        f.write(src)
    o = ['-O%d' % rng.randrange(3), rng.choice(['-fpic', '-fno-pic', '-fpie']),
         rng.choice(['-g', '-g0', '-fno-plt'])]
    r = core.run(['gcc', '-w', '-fno-builtin', '-c', 'm.c', '-o', 'm.o'] + o, d,
                 env=dict(os.environ))
    if r.rc:
        raise core.Inconclusive('gcc: ' + r.err[:300])
    G = core.run(['gcc', '-print-libgcc-file-name'], d, env=dict(os.environ)).out.strip()
    G = os.path.dirname(G)
    args = ['-o', 'out', L + '/crt1.o', L + '/crti.o', G + '/crtbegin.o', '-L' + G, '-L' + L, 'm.o',
            '-lgcc', '--as-needed', '-lgcc_s', '--no-as-needed', '-lc', '-lgcc', G + '/crtend.o',
            L + '/crtn.o']
    rc = compare(rng, d, rep, args, {'m.o'}, 5)
    if rc:
        rep.bad('a program with libc isn\'t linked: status %s' % rc)
    rep.shape('libc', sorted(fs), o)


def main():
    c = core.Check('C15', rule='random worlds (15% of them broken) and programs with libc, each '
                   'linked 3 to 6 times, one after the other and at the same time, with another '
                   'environment, working directory, spelling or copy of the inputs, output '
                   'location, older output, umask and address-space layout; status and bytes are '
                   'compared; distinct by shape of the world')
    T = core.THOROUGH
    c.run(case, 20000 if T else 1200, 1200 if T else 50, 'w')
    c.run(libc_case, 300 if T else 30, 200 if T else 15, 'l')
    c.finish()
