"""C13: options, and the search for libraries."""
import os
import resource
import shutil

from .common import *
from .gen import *

NAMES = ['a', 'b', 'm', 'foo', 'foo.1', 'gcc_s', 'stdc++', 'c', 'x-y', 'L', 'o', 'lib', 'libfoo', 'a.so',
         '1', '_']


class Variant:
    """One file that may be found as a library."""

    def __init__(self, rng, d, dirname, lib, kind):
        self.dir, self.lib, self.kind = dirname, lib, kind
        self.name = 'lib%s.%s' % (lib, kind)
        self.path = os.path.join(dirname, self.name)
        self.tag = rng.randbytes(12)
        self.soname = None
        p = os.path.join(d, self.path)
        sym = 'sym_' + lib
        if kind == 'so':
            self.soname = '%s.%s.so' % (lib, dirname.replace('/', '_'))
            data = write_so([DynSym(sym)], self.soname, (), 'both', rng)
        else:
            m = Obj('m.o')
            s = m.sec('.text', SHT_PROGBITS, 6, 1, self.tag, tag=(0, self.tag))
            m.sym(sym, 1, 2, s, 0)
            data = write_archive([('m.o', write_obj(m, rng), [sym])], rng)
        with open(p, 'wb') as f:
            f.write(data)


def search_case(rng, idx, d, rep):
    """-l takes the first library of the search path."""
    dirs = ['d%d' % i for i in range(rng.choice([1, 2, 2, 3, 4, 6]))]
    if rng.random() < 0.3:
        dirs[0] = 'deep/er/dir'
    if rng.random() < 0.1:
        dirs[-1] = 'with space'
    if rng.random() < 0.2:
        dirs.append('.')
    libs = rng.sample(NAMES, rng.choice([1, 2, 3, 5]))
    have = {}
    for dn in dirs:
        os.makedirs(os.path.join(d, dn), exist_ok=True)
        for l in libs:
            for kind in ('so', 'a'):
                k = rng.random()
                if k < 0.4:
                    have[dn, l, kind] = Variant(rng, d, dn, l, kind)
                elif k < 0.45:
                    # a directory of that name is no library
                    os.makedirs(os.path.join(d, dn, 'lib%s.%s' % (l, kind)))
                    rep.count('directories named like libraries')
            # things that are not meant
            for junk in ('lib%s' % l, '%s.so' % l, '%s.a' % l, 'lib%s.so.1' % l, l,
                         'liblib%s.a' % l, 'lib%s.o' % l):
                if rng.random() < 0.08 and not os.path.lexists(os.path.join(d, dn, junk)) and \
                        junk not in ['lib%s.%s' % (x, k) for x in libs for k in ('so', 'a')] \
                        and junk not in dirs:
                    with open(os.path.join(d, dn, junk), 'wb') as f:
                        f.write(b'not a library at all')
                    rep.count('decoys')
    path = list(dirs)
    rng.shuffle(path)
    if rng.random() < 0.3:
        path = path[:rng.randrange(1, len(path) + 1)]
    if rng.random() < 0.2:
        path.insert(rng.randrange(len(path) + 1), rng.choice(path))
    if rng.random() < 0.2:
        path.insert(rng.randrange(len(path) + 1), 'no/such/dir')
    missing = []
    chosen = []
    for l in libs:
        for dn in path:
            v = have.get((dn, l, 'so')) or have.get((dn, l, 'a'))
            if v:
                chosen.append(v)
                break
        else:
            missing.append(l)
    # an object that wants them all
    o = Obj('o.o')
    tag = rng.randbytes(12)
    t = o.sec('.text', SHT_PROGBITS, 6, 1, tag, tag=(0, tag))
    o.sym('_start', 1, 2, t, 0)
    for l in libs:
        o.sym('sym_' + l, 1, 0, UND)
    with open(os.path.join(d, 'o.o'), 'wb') as f:
        f.write(write_obj(o, rng))
    cmd = []
    # the order among the -L, and among the -l, is kept; those of different kinds are mixed
    spell = lambda dn: rng.choice([dn, dn, './' + dn, os.path.join(d, dn), dn + '/'])
    Ls = [(lambda s: rng.choice([['-L', s], ['-L' + s]]))(spell(x)) for x in path]
    ls = [rng.choice([['-l', l], ['-l' + l]]) for l in libs]
    rest = [['o.o'], ['-o', 'out']]
    if rng.random() < 0.3:
        rest.append(['--hash-style=gnu'])
    if rng.random() < 0.2:
        rest.append(['-m', 'elf_x86_64'])
    if rng.random() < 0.2:
        rest.append(['-z', rng.choice(['now', 'relro', 'noexecstack', '-l'])])
    if rng.random() < 0.2:
        rest.append([rng.choice(['--eh-frame-hdr', '--start-group', '--end-group'])])
    lists = [Ls, ls] + [[x] for x in rest]
    while any(lists):
        x = rng.choice([x for x in lists if x])
        cmd.append(x.pop(0))
    args = [x for c in cmd for x in c]
    with open(os.path.join(d, 'cmd.txt'), 'w') as f:
        f.write('\n'.join(args) + '\n')
    res = core.dld(args, d)
    if missing:
        must_fail(res, d, rep, 'a link whose lib%s cannot be found' % missing[0])
        rep.count('links with missing libraries')
        rep.shape('missing', path, libs, sorted(have))
        return
    data = linked(res, d, rep)
    if data is None:
        return
    try:
        e = Elf(data)
        needed = needed_of(e)
    except (Malformed, struct.error, IndexError, KeyError) as x:
        rep.bad('the output cannot be interpreted: %r' % x)
        return
    want = [v.soname for v in chosen if v.kind == 'so']
    if needed != want:
        rep.bad('DT_NEEDED are %s instead of %s (search path %s)' % (needed, want, path))
    for v in have.values():
        if v.kind == 'a' and (v.tag in data) != (v in chosen):
            rep.bad('%s is %slinked (search path %s, chosen %s)' % (
                v.path, '' if v.tag in data else 'not ', path, [c.path for c in chosen]))
    rep.count('libraries found', len(chosen))
    rep.count('shared libraries found', len(want))
    rep.count('links')
    rep.shape('found', path, libs, [v.path for v in chosen])
    rep.sample(' '.join(args)[:300])


def needed_of(e):
    dyn, _ = e.dynamic()
    strtab = dict(dyn)[5]
    out = []
    for t, x in dyn:
        if t == 1:
            b = bytearray()
            a = strtab + x
            while True:
                c = e.mem(a, 1)
                if not c or c == b'\0':
                    break
                b += c
                a += 1
            out.append(b.decode())
    return out


def profile(rng):
    return dict(nobj=(1, 5), nsec=(1, 4), nglob=(1, 8), nrel=(0, 4), narch=rng.choice([0, 1]),
                nlib=rng.choice([0, 1, 2]), big=0, weird_align=0.02)


def order_case(rng, idx, d, rep):
    """Where the options stand, and how they are spelt, makes no difference."""
    w = Gen(rng, **profile(rng)).build()
    w.emit(d, rng)
    items = []
    opts = [['-o', 'out']]
    if rng.random() < 0.8:
        w.hash_style = rng.choice(['sysv', 'gnu', 'both'])
        opts.append(['H', w.hash_style])
    else:
        w.hash_style = 'both'
    if rng.random() < 0.6:
        w.interp = rng.choice(['/lib/ld.so', '/x', 'ld.so', '/a b/c', '/é/ld', '-o', '--help', 'o' * 300])
        opts.append(['-dynamic-linker', w.interp])
    else:
        w.interp = '/lib64/ld-linux-x86-64.so.2'
    if rng.random() < 0.3:
        opts.append(['-L', '/nonexistent'])
    if rng.random() < 0.3:
        opts.append(['-m', 'elf_x86_64'])
    if rng.random() < 0.3:
        opts.append(['--eh-frame-hdr'])
    if rng.random() < 0.3:
        opts.append(['-z', rng.choice(['relro', 'now', 'x=y', '--help'])])
    for c in w.cmd:
        if c in ('--as-needed', '--no-as-needed'):
            items.append([c])
        elif not isinstance(c, str):
            items.append([c.name])
    ref = None
    for k in range(4):
        cmd = list(items)
        for o in rng.sample(opts, len(opts)):
            at = rng.choice([0, len(cmd), rng.randrange(len(cmd) + 1)])
            if o[0] == 'H':
                o = rng.choice([['--hash-style', o[1]], ['--hash-style=' + o[1]]])
            elif o[0] == '-L':
                o = rng.choice([o, ['-L' + o[1]]])
            elif o[0] == '-o':
                o = ['-o', rng.choice(['out', './out', os.path.join(d, 'out')])]
            cmd.insert(at, o)
        args = [x for c in cmd for x in c]
        with open(os.path.join(d, 'cmd.txt'), 'w') as f:
            f.write('\n'.join(args) + '\n')
        data = linked(core.dld(args, d), d, rep)
        if data is None:
            return
        if ref is None:
            ref = data
            v = view(w, data, rep)
            if not v:
                return
            judge(settings, v, rep)
            judge(oracle_dynamic, v, rep)
        elif data != ref:
            rep.bad('the output depends on the order or spelling of options: %s' % args)
        os.unlink(os.path.join(d, 'out'))
        rep.count('orders of options')
    rep.shape('order', opts, len(items))
    rep.sample(' '.join(args)[:300])


def settings(v, rep):
    out = []
    e, w = v.elf, v.w
    p = [x for x in e.ph if x.type == 3]
    if len(p) != 1:
        return ['%d PT_INTERP' % len(p)]
    have = e.mem(p[0].vaddr, p[0].filesz)
    if have != w.interp.encode() + b'\0':
        out.append('PT_INTERP is %r instead of %r' % (have, w.interp))
    kinds = {s.type for s in e.sh if s.type in (SHT_HASH, SHT_GNU_HASH)}
    want = {'sysv': {SHT_HASH}, 'gnu': {SHT_GNU_HASH}, 'both': {SHT_HASH, SHT_GNU_HASH}}[w.hash_style]
    if kinds != want:
        out.append('hash style %s gives sections of type %s' % (w.hash_style, sorted(kinds)))
    rep.count('settings compared', 2)
    return out


BAD = [
    (['o.o', '-o'], 'no argument of -o'), (['o.o', '-o', 'out', '-L'], 'no argument of -L'),
    (['o.o', '-o', 'out', '-l'], 'no argument of -l'), (['o.o', '-o', 'out', '-m'], 'no argument of -m'),
    (['o.o', '-o', 'out', '-z'], 'no argument of -z'),
    (['o.o', '-o', 'out', '-dynamic-linker'], 'no argument of -dynamic-linker'),
    (['o.o', '-o', 'out', '--hash-style'], 'no argument of --hash-style'),
    (['-o', 'out', 'o.o', 'nothing.o'], 'a missing object'),
    (['-o', 'out', 'nothing.o', 'o.o'], 'a missing object'),
    (['-o', 'out', 'o.o', './no/such/lib.a'], 'a missing archive'),
    (['-o', 'out', 'o.o', '-lnothing'], 'a missing library'),
    (['-o', 'out', 'o.o', '-l', 'nothing', '-L.'], 'a missing library'),
    (['-o', 'out', 'o.o', '-ll.so', '-L.'], 'a missing library'),
    (['-o', 'out', 'o.o', '-lo.o', '-L.'], 'a missing library'),
    (['-o', 'out', 'o.o', '--as-needed', '-lnothing'], 'a missing library'),
    (['-o', 'out', 'o.o', '-lq'], 'a library without search path'),
    (['-o', 'out', 'o.o', '-lq', '-Lno'], 'a library that is in no searched directory'),
    (['-o', 'out', 'o.o', 'dir'], 'a directory'), (['-o', 'out', 'o.o', 'dir/'], 'a directory'),
    (['-o', 'out', 'o.o', 'dangling'], 'a dangling link'),
    (['-o', 'out', 'o.o', 'loop'], 'a link to itself'),
    (['-o', 'out', 'o.o', ''], 'an empty name'),
    (['-o', 'out', 'o.o', '--no-such-option'], 'an unknown option'),
    (['-o', 'out', '--no-such-option=3', 'o.o'], 'an unknown option'),
    (['-o', 'out', 'o.o', '-X'], 'an unknown option'), (['-o', 'out', '-', 'o.o'], 'a dash'),
    (['-o', 'out', '-static-pie', 'o.o'], 'an unknown option'),
    (['-o', 'out', 'o.o', '-m', 'nothing', 'l.so'], 'an unknown emulation'),
]
for x in ('', 'Gnu', 'sysv ', 'none', 'gnu,sysv', 'bot', 'boths', 'o.o'):
    BAD.append((['-o', 'out', '--hash-style', x, 'o.o'], 'an invalid hash style'))
    BAD.append((['-o', 'out', '--hash-style=' + x, 'o.o'], 'an invalid hash style'))
for x in ('', 'elf_i386', 'elf_x86_64 ', 'ELF_X86_64', 'elf32_x86_64', 'elf_x86_6', 'elf_x86_64_fbsd'):
    BAD.append((['-m', x, '-o', 'out', 'o.o'], 'an invalid emulation'))
for x in ('sha2', 'SHA1', 'crc', '1x00', 'sha'):
    BAD.append((['--build-id', x, '-o', 'out', 'o.o'], 'an invalid build id style'))


def bad_case(rng, idx, d, rep):
    o = Obj('o.o')
    tag = rng.randbytes(12)
    t = o.sec('.text', SHT_PROGBITS, 6, 1, tag, tag=(0, tag))
    o.sym('_start', 1, 2, t, 0)
    w = World()
    w.objs = [o]
    w.libs = [Lib('l.so', [DynSym('f')]), Lib('libq.so', [DynSym('g')])]
    w.emit(d, rng)
    os.makedirs(os.path.join(d, 'dir'))
    os.makedirs(os.path.join(d, 'no'))
    os.symlink('nowhere', os.path.join(d, 'dangling'))
    os.symlink('loop', os.path.join(d, 'loop'))
    args, what = BAD[int(idx[1:]) % len(BAD)]
    args = list(args)
    if int(idx[1:]) >= len(BAD):
        # among other options that are right
        extra = [['--eh-frame-hdr'], ['-z', 'now'], ['--as-needed'], ['l.so'], ['-m', 'elf_x86_64'],
                 ['-dynamic-linker', '/x']]
        for x in rng.sample(extra, rng.randrange(len(extra))):
            args[0:0] = x
    out = os.path.join(d, 'out')
    a = core.dld(args, d)
    must_fail(a, d, rep, 'a link with %s (%s)' % (what, ' '.join(args)))
    if os.path.exists(os.path.join(d, 'a.out')):
        rep.bad('a link with %s leaves a.out' % what)
    rep.count(what)
    rep.shape('bad', args)
    rep.sample(' '.join(args))


def unreadable_case(rng, idx, d, rep):
    """Inputs that may not be read."""
    if not core.can_setuid():
        return
    w = Gen(rng, **profile(rng)).build()
    ind = os.path.join(d, 'in')
    os.makedirs(ind)
    w.emit(ind, rng)
    os.chmod(ind, 0o777)
    x = rng.choice([c for c in w.cmd if not isinstance(c, str)]).name
    os.chmod(os.path.join(ind, x), rng.choice([0, 0o200]))
    res = core.dld(w.args(), ind, user=core.NOBODY)
    must_fail(res, ind, rep, 'a link whose %s cannot be read' % x)
    rep.count('unreadable inputs')
    rep.shape('unreadable', len(w.cmd), x)


def help_case(rng, idx, d, rep):
    r = core.dld([rng.choice(['-h', '--help'])], d)
    if r.rc or 'USAGE' not in r.out.upper():
        rep.bad('no help (status %d): %s' % (r.rc, r.err[:200]))
    if os.listdir(d):
        rep.bad('help leaves files')
    rep.shape('help')


def default_case(rng, idx, d, rep):
    """Without options: the documented defaults."""
    w = Gen(rng, **profile(rng)).build()
    w.cmd = [c for c in w.cmd if not isinstance(c, str)]
    for l in w.libs:
        l.as_needed = False
    w.hash_style, w.interp = 'both', '/lib64/ld-linux-x86-64.so.2'
    w.cmd += ['-o', 'out']
    w.resolve()
    w.emit(d, rng)
    data = linked(w.link(d), d, rep)
    v = data and view(w, data, rep)
    if v:
        judge(oracle_dynamic, v, rep)
    rep.count('links without options')
    rep.shape('default', *world_shape(w))


def main():
    c = core.Check('C13', rule='random directories with shared libraries and archives of the same '
                   'names, decoys and directories, and random search paths: DT_NEEDED and the '
                   'linked members tell which file was taken; random worlds with their options in '
                   'several orders and spellings (same bytes) whose interpreter, hash tables and '
                   'needed libraries are compared with what was asked for; a list of wrong command '
                   'lines, alone and among right options; distinct by command line')
    T = core.THOROUGH
    c.run(search_case, 60000 if T else 6000, 800 if T else 40, 's')
    c.run(order_case, 20000 if T else 1500, 500 if T else 30, 'o')
    c.run(bad_case, len(BAD) * (40 if T else 6), 200 if T else 20, 'b')
    c.run(unreadable_case, 1000 if T else 100, 60 if T else 10, 'u')
    c.run(default_case, 3000 if T else 300, 60 if T else 10, 'd')
    c.run(help_case, 4, 5, 'h')
    c.finish()
