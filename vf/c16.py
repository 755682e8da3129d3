"""C16: failures are reported, leave no executable behind, and change nothing else."""
import errno
import hashlib
import os
import resource
import shutil
import signal
import stat
import subprocess

from . import c05
from .common import *
from .gen import *

SHIM = None


def build_shim(c):
    global SHIM
    SHIM = os.path.join(c.scratch.dir, 'fault.so')
    r = core.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-fno-delete-null-pointer-checks', '-o', SHIM,
                  os.path.join(core.VERIF, 'vf', 'fault.c'), '-ldl'], c.scratch.dir,
                 env=dict(os.environ))
    if r.rc:
        print('ERROR: ' + r.err)
        raise SystemExit(2)
    os.chmod(SHIM, 0o755)


def snapshot(d, skip=()):
    """Everything below a directory."""
    out = {}
    for p, ds, fs in os.walk(d):
        for f in ds + fs:
            q = os.path.join(p, f)
            r = os.path.relpath(q, d)
            if r in skip:
                continue
            st = os.lstat(q)
            if stat.S_ISLNK(st.st_mode):
                out[r] = ('link', os.readlink(q))
            elif stat.S_ISREG(st.st_mode):
                with open(q, 'rb') as g:
                    out[r] = ('file', stat.S_IMODE(st.st_mode), st.st_mtime_ns, st.st_uid,
                              hashlib.sha1(g.read()).hexdigest())
            else:
                out[r] = ('other', st.st_mode)
    return out


def changes(a, b):
    return ['%s %s' % (k, 'is gone' if k not in b else 'is new' if k not in a else 'has changed')
            for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


class Older:
    """What is at the output path before the link."""

    def __init__(self, rng, path, kinds=('none', 'exec', 'exec', 'file', 'ro', 'big')):
        self.kind = rng.choice(kinds)
        self.path, self.data = path, None
        if self.kind == 'none':
            return
        self.data = b'#!/bin/sh\nexit 0\n' + rng.randbytes(
            1 << 18 if self.kind == 'big' else rng.randrange(100))
        with open(path, 'wb') as f:
            f.write(self.data)
        self.mode = {'file': 0o644, 'ro': 0o444}.get(self.kind, 0o755)
        os.chmod(path, self.mode)

    def judge(self, res, ref, rep, what, strict=True):
        """Judges what is at the output path after the link; `ref`: the complete executable, if
        there is one."""
        now = None
        if os.path.isfile(self.path):
            with open(self.path, 'rb') as f:
                now = f.read()
            mode = stat.S_IMODE(os.stat(self.path).st_mode)
        if res.timeout:
            rep.bad('%s: the link does not end' % what)
        elif res.rc == 0:
            rep.count('links that succeed')
            if now is None:
                rep.bad('%s: the link succeeds, but there is no output' % what)
            elif ref is None:
                rep.bad('%s: the link succeeds' % what)
            elif now != ref:
                rep.bad('%s: the link succeeds, but the output isn\'t complete (%d bytes instead '
                        'of %d)' % (what, len(now), len(ref)))
            elif mode & 0o555 != 0o555:
                rep.bad('%s: the link succeeds, but the output has mode %o' % (what, mode))
            return
        else:
            rep.count('links that fail')
            if res.rc < 0 and strict:
                rep.bad('%s: the link ends with signal %d' % (what, -res.rc))
            elif not res.err.strip() and strict:
                rep.bad('%s: the link fails without a diagnostic' % what)
        if now is None:
            return
        if now == self.data:
            return
        if strict or mode & 0o111:
            rep.bad('%s: the link fails, but leaves a file of %d bytes with mode %o' % (
                what, len(now), mode))


FAULTS = {'openr': [errno.EACCES, errno.ENOENT, errno.EMFILE, errno.EIO, errno.EINTR],
          'openw': [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EINTR,
                    errno.EDQUOT],
          'read': [errno.EIO, errno.EINTR, 'short1', 'shorthalf', errno.EISDIR],
          'write': [errno.ENOSPC, errno.EIO, errno.EFBIG, errno.EDQUOT, errno.EINTR, 'short1',
                    'shorthalf', 'zero'],
          'chmod': [errno.EPERM, errno.EIO, errno.EROFS],
          'truncate': [errno.EIO], 'sync': [errno.EIO, errno.ENOSPC],
          'rename': [errno.EACCES, errno.EXDEV], 'unlink': [errno.EACCES, errno.EPERM, errno.EIO],
          'stat': [errno.EACCES, errno.EIO], 'realpath': [errno.EACCES, errno.EIO, errno.ELOOP]}


def small(rng):
    return dict(nobj=rng.choice([1, 1, 2, 3]), nsec=(1, 4), nglob=(1, 6), nrel=(0, 3),
                narch=rng.choice([0, 0, 1]), nlib=rng.choice([0, 1]), big=0.02)


def scripted(rng, w, d):
    """Gives an input through a script, now and then."""
    if rng.random() < 0.3:
        i = rng.choice([i for i, x in enumerate(w.cmd) if not isinstance(x, str)])
        with open(os.path.join(d, 'script.txt'), 'w') as f:
            n = w.cmd[i].name
            f.write('GROUP ( %s )\n' % n)
        w.cmd[i] = 'script.txt'


def optional(w):
    """Makes the link do without its libraries: none is needed, and all imports are weak."""
    names = {n for l in w.libs for n in l.exports()}
    for o in w.objs + [m for a in w.archives for m in a.members]:
        for s in o.syms:
            if s.bind == STB_GLOBAL and not s.defined and s.name in names:
                s.bind = STB_WEAK
    w.cmd = ['--as-needed'] + [x for x in w.cmd if x != '--no-as-needed']


def fault_case(rng, idx, d, rep):
    """Every file operation of a link fails once."""
    w = Gen(rng, **small(rng)).build()
    if w.libs and rng.random() < 0.6:
        optional(w)
        rep.count('links with nothing but weak imports')
    ind = os.path.join(d, 'in')
    os.makedirs(os.path.join(ind, 'o'))
    w.emit(ind, rng)
    scripted(rng, w, ind)
    w.cmd[w.cmd.index('-o') + 1] = 'o/out'
    out = os.path.join(ind, 'o', 'out')
    args = w.args()
    data = linked(core.dld(args, ind), ind, rep, out='o/out')
    if data is None:
        return
    os.unlink(out)
    env = dict(core.CLEAN_ENV, LD_PRELOAD=SHIM)
    log = os.path.join(d, 'log')

    def go(faults, older, what, strict=True):
        before = snapshot(ind, ('o/out',))
        e = dict(env, VF_FAULTS=','.join('%d:%s' % f for f in faults), VF_LOG=log)
        if os.path.exists(log):
            os.unlink(log)
        res = core.dld(args, ind, env=e)
        n = len(rep.violations)
        older.judge(res, data, rep, what, strict)
        if os.path.isdir(os.path.join(ind, 'o')):
            c = changes(before, snapshot(ind, ('o/out',)))
            if c:
                rep.bad('%s: %s' % (what, ', '.join(c[:5])))
        if len(rep.violations) > n:
            with open(os.path.join(d, 'how.txt'), 'a') as f:
                f.write('%s: VF_FAULTS=%s LD_PRELOAD=vf/fault.so dld %s (older output: %s)\n' % (
                    what, e['VF_FAULTS'], ' '.join(args), older.kind))
        if os.path.lexists(out):
            os.unlink(out)
        return res
    older = Older(rng, out)
    if go([], older, 'without faults').rc != 0:
        rep.bad('a link under observation fails')
        return
    events = [l.split(' ', 2) for l in open(log).read().splitlines()]
    rep.count('links observed')
    todo = []
    for n, op, path in events:
        for f in FAULTS[op]:
            todo.append((int(n), op, f))
        todo.append((int(n), op, 'kill'))
        rep.count('operations: ' + op)
    if not core.THOROUGH:
        # all of those on the output, and some of the others
        first = min([i for i, (n, op, p) in enumerate(events) if op == 'openw'] or [0]) + 1
        must = [t for t in todo if t[0] >= first]
        rest = [t for t in todo if t[0] < first]
        # each one fails at least once
        once = [rng.choice([t for t in rest if t[0] == n]) for n in sorted({t[0] for t in rest})]
        todo = sorted(must + once + rng.sample(rest, min(len(rest), 8)), key=lambda t: t[0])
    for n, op, f in todo:
        older = Older(rng, out)
        name = errno.errorcode.get(f, f)
        go([(n, f)], older, 'with %s at operation %d (%s)' % (name, n, op), f != 'kill')
        rep.count('faults: %s %s' % (op, name))
        rep.shape(op, name, older.kind, n, len(events))
    for _ in range(8 if core.THOROUGH else 3):
        a, b = sorted(rng.sample(range(len(todo)), 2))
        if todo[a][0] == todo[b][0] or 'kill' in (todo[a][2], todo[b][2]):
            continue
        older = Older(rng, out)
        go([(todo[a][0], todo[a][2]), (todo[b][0], todo[b][2])], older,
           'with two faults (%s)' % [todo[a], todo[b]], False)
        rep.count('pairs of faults')
    rep.sample('%d file operations: %s' % (len(events), ' '.join(e[1] for e in events)))


def limit_case(rng, idx, d, rep):
    """The output is larger than files may be."""
    w = Gen(rng, **small(rng)).build()
    ind = os.path.join(d, 'in')
    os.makedirs(ind)
    w.emit(ind, rng)
    args = w.args()
    out = os.path.join(ind, 'out')
    data = linked(core.dld(args, ind), ind, rep)
    if data is None:
        return
    os.unlink(out)
    for _ in range(6):
        n = rng.choice([0, 1, 100, 4096, len(data) - 1, len(data), len(data) + 1,
                        rng.randrange(len(data))])
        ignore = rng.random() < 0.7
        older = Older(rng, out)
        before = snapshot(ind, ('out',))

        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if ignore:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        p = subprocess.Popen([core.dld_path()] + args, cwd=ind, env=core.CLEAN_ENV,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, preexec_fn=pre, restore_signals=True)
        o, e = p.communicate(timeout=120)
        res = core.Result(p.returncode, o.decode(), e.decode(), 0, False)
        what = 'with files limited to %d bytes (of %d)' % (n, len(data))
        older.judge(res, data, rep, what, ignore)
        if n >= len(data) and res.rc:
            rep.bad('%s: the link ends with status %d: %s' % (what, res.rc, res.err[:200]))
        elif n < len(data) and res.rc == 0:
            rep.bad('%s: the link succeeds' % what)
        c = changes(before, snapshot(ind, ('out',)))
        if c:
            rep.bad('%s: %s' % (what, ', '.join(c[:5])))
        if os.path.lexists(out):
            os.unlink(out)
        rep.count('links with limited file size')
        rep.shape('limit', n < len(data), ignore, older.kind, n % 4096 == 0, n == len(data) - 1)


def place_case(rng, idx, d, rep):
    """Odd output paths, as a user who isn't allowed everything."""
    w = Gen(rng, **small(rng)).build()
    ind = os.path.join(d, 'in')
    os.makedirs(ind)
    w.emit(ind, rng)
    scripted(rng, w, ind)
    args = w.args()
    at = args.index('-o') + 1
    ref = linked(core.dld(args, ind), ind, rep)
    if ref is None:
        return
    os.unlink(os.path.join(ind, 'out'))
    as_nobody = core.can_setuid()
    o = os.path.join(d, 'where')
    os.makedirs(o)
    user = core.NOBODY if as_nobody else None

    def own(p, mode=None):
        if as_nobody:
            os.chown(p, core.NOBODY, core.NOBODY)
        if mode is not None:
            os.chmod(p, mode)

    def put(p, data=b'older', mode=0o644):
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, mode)
    own(o, 0o755)
    files = [c.name if not isinstance(c, str) else c for c in w.cmd
             if not isinstance(c, str) or c == 'script.txt']
    k = rng.choice(['missing directory', 'unwritable directory', 'directory', 'not a directory',
                    'long name', 'empty', 'unwritable file', "someone's file", 
                    'input', 'input', 'input link', 'symlink to input', 'symlink', 'dangling',
                    'hard link', 'twice', 'plain', 'dash', 'odd name', 'missing input',
                    'directory symlink'])
    path = os.path.join(o, 'out')
    may = None
    watch = None
    if k == 'missing directory':
        path, may = os.path.join(o, 'no', 'such', 'out'), False
    elif k == 'unwritable directory':
        os.makedirs(os.path.join(o, 'ro'))
        if as_nobody:
            may = False
            if rng.random() < 0.5:
                put(os.path.join(o, 'ro', 'out'), b'older', rng.choice([0o755, 0o644]))
        os.chmod(os.path.join(o, 'ro'), 0o555)
        path = os.path.join(o, 'ro', 'out')
    elif k == 'directory':
        os.makedirs(path)
        own(path)
        may = False
        if rng.random() < 0.5:
            path += '/'
    elif k == 'not a directory':
        put(path)
        path, may = path + '/out', False
    elif k == 'long name':
        path, may = os.path.join(o, 'x' * rng.choice([255, 256, 5000])), None
        if len(os.path.basename(path)) > 255:
            may = False
    elif k == 'empty':
        path, may = '', False
    elif k == 'unwritable file':
        put(path, b'#!/bin/sh\n', rng.choice([0o444, 0o555, 0o000]))
        own(path)
        may = True
    elif k == "someone's file":
        # that can be written, in a directory that cannot
        os.makedirs(os.path.join(o, 'ro'))
        path = os.path.join(o, 'ro', 'out')
        put(path, b'older', rng.choice([0o666, 0o777]))
        os.chmod(os.path.join(o, 'ro'), 0o555)
    elif k in ('input', 'input link'):
        f = rng.choice(files)
        p = os.path.join(ind, f)
        own(ind)
        own(os.path.dirname(p))
        own(p, rng.choice([0o644, 0o755]))
        path = rng.choice([p, os.path.join(ind, '.', f), os.path.join(ind, '..', 'in', f), f,
                           './' + f])
        may = False
        if k == 'input link':
            os.symlink(ind, os.path.join(o, 'l'))
            path = os.path.join(o, 'l', f)
    elif k == 'symlink to input':
        os.symlink(os.path.join(ind, rng.choice(files)), path)
        may = False
        own(ind)
    elif k in ('symlink', 'directory symlink'):
        os.makedirs(os.path.join(o, 'other'))
        own(os.path.join(o, 'other'))
        if k == 'symlink':
            watch = os.path.join(o, 'other', 'file')
            put(watch, b'something else', 0o755)
            own(watch)
            os.symlink(watch, path)
            if rng.random() < 0.5:
                may = True
        else:
            os.symlink('other', os.path.join(o, 'l'))
            path = os.path.join(o, 'l', 'out')
            may = True
    elif k == 'dangling':
        os.symlink('nothing', path)
    elif k == 'hard link':
        watch = os.path.join(o, 'file')
        put(watch, b'something else', 0o755)
        own(watch)
        os.link(watch, path)
        may = True
    elif k == 'twice':
        other = os.path.join(o, 'other')
        put(other)
        args[0:0] = ['-o', other]
        at += 2
        may = True
        watch = other
    elif k == 'dash':
        path, may = os.path.join(o, '-o'), True
    elif k == 'odd name':
        path, may = os.path.join(o, rng.choice(['a b', 'é', 'x.o', 'lib.so', "q'uote", '*'])), True
    elif k == 'missing input':
        args.insert(rng.choice([0, len(args)]), rng.choice(['nothing.o', '-lnothing', 'no/x.a']))
        at = args.index('-o') + 1
        may = False
    else:
        may = True
    if k in ('plain', 'odd name', 'missing input') and rng.random() < 0.5:
        put(path, b'#!/bin/sh\nexit\n', 0o755)
        own(path)
    args[at] = path
    out = os.path.join(ind, path) if path else None
    skip = {os.path.relpath(os.path.realpath(out), d), os.path.relpath(out, d)} if out else set()
    if may is False and k in ('input', 'input link', 'symlink to input', 'directory',
                              'unwritable directory'):
        skip = set()
    before = snapshot(d, skip)
    watched = open(watch, 'rb').read() if watch else None
    old = None
    if out and os.path.isfile(out):
        with open(out, 'rb') as f:
            old = f.read()
        old_mode = os.stat(out).st_mode
    res = core.dld(args, ind, user=user)
    what = 'with output to %s (%s)' % (path[-60:], k)
    if res.timeout:
        rep.bad('%s: the link does not end' % what)
        return
    c = changes(before, snapshot(d, skip))
    if k in ('symlink', 'directory symlink', 'dangling'):
        # the link itself may be replaced
        c = [x for x in c if not x.startswith(os.path.relpath(out, d))]
    if c:
        rep.bad('%s (status %d): %s' % (what, res.rc, ', '.join(c[:5])))
    if watch and open(watch, 'rb').read() != watched:
        rep.bad('%s: another file has changed' % what)
    now = None
    if out and os.path.isfile(out):
        with open(out, 'rb') as f:
            now = f.read()
        mode = stat.S_IMODE(os.stat(out).st_mode)
    if res.rc == 0:
        if may is False:
            rep.bad('%s: the link succeeds' % what)
        elif now != ref or mode & 0o555 != 0o555:
            rep.bad('%s: the link succeeds, but there is no complete executable' % what)
    else:
        if may is True:
            rep.bad('%s: the link ends with status %d: %s' % (what, res.rc, res.err[:300]))
        if res.rc < 0:
            rep.bad('%s: the link ends with signal %d' % (what, -res.rc))
        if not res.err.strip():
            rep.bad('%s: the link fails without a diagnostic' % what)
        if now is not None and now != old:
            rep.bad('%s: the link fails, but leaves a file of %d bytes with mode %o' % (
                what, len(now), mode))
    rep.count('output: ' + k)
    rep.count('links that succeed' if res.rc == 0 else 'links that fail')
    rep.shape('place', k, res.rc, old is not None)


def bad_case(rng, idx, d, rep):
    """Mistakes in the inputs; nothing else changes."""
    g = Gen(rng, **c05.profile(rng))
    w = g.build()
    broken = c05.break_world(rng, g, w) if rng.random() < 0.8 else None
    ind = os.path.join(d, 'in')
    os.makedirs(ind)
    w.resolve()
    w.emit(ind, rng)
    scripted(rng, w, ind)
    if broken and rng.random() < 0.3 and w.objs:
        with open(os.path.join(ind, rng.choice(w.objs).name), 'r+b') as f:
            f.truncate(rng.choice([0, 1, 17, 40, 64, 100]))
    out = os.path.join(ind, 'out')
    older = Older(rng, out)
    before = snapshot(ind, ('out',))
    args = w.args()
    res = core.dld(args, ind)
    if res.rc == 0:
        data, why = read_output(ind)
        if data is None:
            rep.bad('a link succeeds, but ' + why)
    else:
        older.judge(res, None, rep, 'a link with a mistake (%s)' % (broken,))
    c = changes(before, snapshot(ind, ('out',)))
    if c:
        rep.bad('a link (status %d): %s' % (res.rc, ', '.join(c[:5])))
    rep.count('mistakes' if broken else 'links without mistakes')
    rep.shape('bad', broken and broken[0], res.rc, older.kind, len(w.objs))


def main():
    c = core.Check('C16', rule='small random links: every file operation fails in turn in every way '
                   'its kind can (quick: all those after the output is opened, a sample of the '
                   'others), also in pairs, or the process is killed there; file size limits; '
                   'output paths of every sort as an unprivileged user; inputs with mistakes; the '
                   'output path, all inputs and the directories are compared afterwards; '
                   'distinct by operation, fault, number and what was there before')
    build_shim(c)
    T = core.THOROUGH
    c.run(fault_case, 600 if T else 120, 1000 if T else 40, 'f')
    c.run(limit_case, 2000 if T else 150, 200 if T else 15, 'l')
    c.run(place_case, 10000 if T else 1200, 300 if T else 30, 'p')
    c.run(bad_case, 10000 if T else 1200, 300 if T else 20, 'b')
    c.finish()
