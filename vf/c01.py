"""C01: programs behave as if another linker had linked them."""
from .common import *
from . import battery, prog


def command(g, rng):
    """The inputs, in an order of their own."""
    lists = [list(g.objects), list(g.archives), list(g.libfiles)]
    out = []
    while any(lists):
        out.append(rng.choice([l for l in lists if l]).pop(0))
    cmd = []
    as_needed = False
    for x in out:
        if x.endswith('.so') and rng.random() < 0.3:
            as_needed = not as_needed
            cmd.append('--as-needed' if as_needed else '--no-as-needed')
        cmd.append(x)
    if as_needed:
        cmd.append('--no-as-needed')
    return cmd


def program_case(rng, idx, d, rep):
    g = prog.ProgGen(rng).build()
    g.emit(d)
    if rng.random() < 0.3:
        g.objects = prog.transform(rng, g.objects, d, rep.count)
    args = prog.ref_args(g.objects, g.archives, g.libfiles)
    r = core.run(args, d)
    if r.rc:
        raise RuntimeError('the reference linker fails: %s' % r.err[-2000:])
    if prog.separated(d, g.libfiles):
        rep.count('reference links by lld')
        r = core.run(['ld.lld'] + args[1:], d)
        if r.rc:
            raise core.Inconclusive('the other reference linker fails: %s' % r.err[-300:])
    cmd = command(g, rng)
    opts = rng.choice([[], ['--hash-style=gnu'], ['--hash-style=sysv'], ['--hash-style=both']])
    if rng.random() < 0.1:
        rep.count('links by way of clang')
        res = prog.driver(rng, cmd, d)
    else:
        res = core.dld(prog.dld_args(cmd, opts=opts), d)
    what = ' '.join(cmd)
    if linked(res, d, rep, 'a link of %s' % what, 'prog') is None:
        return
    rep.count('links')
    prog.judge_run(d, rep, g, what)
    for k, n in g.counts.items():
        rep.count('programs with ' + k)
    for m in g.mods:
        rep.count('units by %s' % m.cc)
    rep.shape([m.text() for m in g.mods])
    rep.sample(what)


def battery_case(rng, idx, d, rep):
    """A program that leans on one feature."""
    it = battery.ITEMS[int(idx[1:]) % len(battery.ITEMS)]
    g = prog.ProgGen(rng)
    objects, members, libs = [], [], []
    for n, text in it['files'].items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(text)
        o = n[:-1] + 'o'
        m = prog.Mod(n, 'lib' if n.startswith('lib') else 'obj')
        if n.endswith('.s'):
            prog.tool(['as', '-o', o, n], d)
        else:
            m.flags = g.flags(m, unusual='nolibc' not in it['extra'])
            if any(f in ('-fpic', '-fPIC', '-fpie', '-fPIE') for f in it['flags']):
                # (together these take a relocation that isn't supported)
                m.flags = [f for f in m.flags if not f.startswith('-mcmodel')]
            prog.tool(['gcc', '-c', n, '-o', o, '-w'] + m.flags + it['flags'], d)
        rep.shape(it['name'], m.flags)
        if n.startswith('lib'):
            so = n[:-1] + 'so'
            prog.tool(['gcc', '-shared', '-o', so, o], d)
            libs.append(so)
        elif n.startswith('ar'):
            members.append(o)
        else:
            objects.append(o)
    archives = []
    if members:
        rng.shuffle(members)
        prog.tool(['ar', 'rcs', 'libar.a'] + members, d)
        archives = ['libar.a']
    rng.shuffle(objects)
    g.objects, g.archives, g.libfiles = objects, archives, libs
    cmd = command(g, rng)
    if 'nolibc' in it['extra']:
        r = core.run(['ld', '-o', 'ref'] + objects, d)
        args = ['-o', 'prog'] + cmd
    else:
        r = core.run(prog.ref_args(objects, archives + libs, it['libs'], opts=['--eh-frame-hdr']), d)
        args = None if rng.random() < 0.2 else \
            prog.dld_args(cmd + it['libs'], opts=['--eh-frame-hdr'])
    if r.rc:
        raise RuntimeError('the reference linker fails: %s' % r.err[-2000:])
    if args:
        res = core.dld(args, d)
    else:
        rep.count('links by way of clang')
        res = prog.driver(rng, cmd + it['libs'], d)
    what = 'program "%s" (%s)' % (it['name'], ' '.join(cmd))
    rep.count('program: ' + it['name'])
    if it['known'] == 'refuse' and res.rc:
        # an executable has to be right, but there needn't be any
        must_fail(res, d, rep, what, out='prog')
        return
    if linked(res, d, rep, what, 'prog') is None:
        return
    prog.judge_run(d, rep, g, what, it['env'], None if it['known'] == 'refuse' else it['known'])
    rep.sample(what)


def main():
    c = core.Check(
        'C01', rule='A case is a program: generated C and assembly units (distinct by their text), or '
        'one of the feature programs with the compiler options and link order drawn for it; both '
        'linkers link it and it runs with lazy and with eager binding.',
        assumptions=['GNU ld links the reference; programs are deterministic.',
                     'the C library is that of the sandbox'])
    T = core.THOROUGH
    c.run(program_case, 20000 if T else 600, 2000 if T else 90, 'p')
    c.run(battery_case, len(battery.ITEMS) * (40 if T else 3), 600 if T else 60, 'b')
    c.finish()
