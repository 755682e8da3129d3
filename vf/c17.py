"""C17: constructors and destructors."""
from .common import *
from .gen import *
from . import prog


def profile(rng):
    return dict(nobj=(1, 8), nrel=(0, 5), nsec=(1, 4), narch=rng.choice([0, 0, 1, 2]), arrays=True,
                nlib=rng.choice([0, 0, 1]), big=0)


def shape(w, v):
    return [[(s.name, s.size // 8, s.align) for s in o.secs
             if s.name.lstrip('.').startswith(('init', 'fini', 'preinit'))] for o in w.linked]


# -- programs that tell what runs --------------------------------------------------------------------

PRIOS = [101, 102, 110, 200, 1000, 9999, 10000, 65534, 65535]


class Unit:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.pre, self.init, self.ctors, self.dtors, self.fini = [], [], [], [], []
        self.text = []


def unit(r, name, kind, libc, style):
    """A source whose functions say their names. ctors and dtors: [(priority, says)] in the order
    in which they are in the object."""
    u = Unit(name, kind)
    t = u.text
    t.append('void say(const char *);')
    k = [0]

    def fn(what):
        k[0] += 1
        f = 'f%d' % k[0]
        says = '%s:%s%d' % (name, what, k[0])
        t.append('__attribute__((used)) static void %s(void) { say("%s\\n"); }' % (f, says))
        return f, says

    def entry(sec, typ, f):
        t.append('__asm__(".pushsection %s,\\"aw\\",@%s\\n.p2align 3\\n.quad %s\\n.popsection");' % (
            sec, typ, f))

    for _ in range(r.choice([0, 1, 1, 2, 5])):
        what = r.choice(['c', 'c', 'C', 'd', 'd', 'D', 'i', 'x', 'p'])
        if what in 'cd':
            f, s = fn(what)
            (u.ctors if what == 'c' else u.dtors).append((1 << 32, s))
            entry('.init_array' if what == 'c' else '.fini_array',
                  'init_array' if what == 'c' else 'fini_array', f)
        elif what in 'CD':
            p = r.choice(PRIOS + [0, 1, 9, 10])
            f, s = fn(what)
            (u.ctors if what == 'C' else u.dtors).append((p, s))
            a = 'init_array' if what == 'C' else 'fini_array'
            entry('.%s.%s' % (a, (style if p < 100 else '%05d') % p), a, f)
        elif what in 'ix' and libc:
            f, s = fn(what)
            al = r.choice([0, 0, 0, 2, 4, 5])
            (u.init if what == 'i' else u.fini).append(s)
            t.append('__asm__(".pushsection %s,\\"ax\\",@progbits\\n%scall %s\\n.popsection");' % (
                '.init' if what == 'i' else '.fini', '.p2align %d\\n' % al if al else '', f))
        elif what == 'p' and kind == 'obj' and libc:
            f, s = fn(what)
            u.pre.append(s)
            entry('.preinit_array', 'preinit_array', f)
    # the compiler's own way
    for _ in range(r.choice([0, 0, 1, 2])):
        c = r.random() < 0.5
        p = r.choice(PRIOS + [None] * 6)
        k[0] += 1
        says = '%s:%s%d' % (name, 'g', k[0])
        t.append('static __attribute__((%s%s)) void f%d(void) { say("%s\\n"); }' % (
            'constructor' if c else 'destructor', '(%d)' % p if p else '', k[0], says))
        (u.ctors if c else u.dtors).append((1 << 32 if p in (None, 65535) else p, says, 'gcc'))
    t.append('int %s_id(void) { return %d; }' % (name, k[0]))
    return u


def check_trace(got, units, archives, libs, libc, ending, order):
    """What is wrong with the lines that the program has written. `order` is the units and archives
    in link order."""
    lines = got.splitlines()
    out = []
    if 'main' not in lines:
        return ['main does not run: %r' % lines[:5]]
    if lines.count('main') != 1:
        return ['main runs %d times' % lines.count('main')]
    m = lines.index('main')
    before, after = lines[:m], lines[m + 1:]
    lib_names = {u.name for u in libs}
    mine = lambda ls: [l for l in ls if l.split(':')[0] not in lib_names]
    theirs = lambda ls: [l for l in ls if l.split(':')[0] in lib_names]
    atexit = [l for l in after if l.startswith('atexit')]
    after = [l for l in after if not l.startswith('atexit')]

    def array(which):
        """[(priority, position, unit, [says])]"""
        out = []
        for pos, x in enumerate(order):
            for u in (x if isinstance(x, list) else [x]):
                for prio in sorted({e[0] for e in getattr(u, which)}):
                    out.append((prio, pos, u, [e for e in getattr(u, which) if e[0] == prio]))
        out.sort(key=lambda x: x[:2])
        return out

    def fits(want, have, what):
        """want: [(key, key, unit, entries)], entries of equal keys and several units in any order
        of the units; within a unit in order, but what the compiler arranges in any."""
        flat = [e[1] for w in want for e in w[3]]
        if sorted(flat) != sorted(have):
            lost = [x for x in flat if have.count(x) < 1]
            more = [x for x in have if have.count(x) > flat.count(x)]
            return '%s: %s do not run, %s run too often or where they should not' % (what, lost,
                                                                                   more)
        where = {x: i for i, x in enumerate(have)}
        prev = None
        for k, w in enumerate(want):
            spots = [where[e[1]] for e in w[3]]
            fixed = [where[e[1]] for e in w[3] if len(e) < 3]
            if fixed != sorted(fixed):
                return '%s: functions of %s run in the order %s' % (what, w[2].name, [
                    x for x in have if x.startswith(w[2].name + ':')])
            for x in want[:k]:
                if x[:2] != w[:2] and max(where[e[1]] for e in x[3]) > min(spots):
                    return '%s: %s do not run before %s: %s' % (what, [e[1] for e in x[3]], [
                        e[1] for e in w[3]], have)
        return None

    frag = lambda which: [(0, pos, u, [(0, s) for s in getattr(u, which)])
                          for pos, x in enumerate(order)
                          for u in (x if isinstance(x, list) else [x]) if getattr(u, which)]
    want = frag('pre')
    n = sum(len(w[3]) for w in want)
    if theirs(before[:n]):
        out.append('functions of libraries run before those of .preinit_array: %r' % before[:n + 1])
    tb = theirs(before)
    if tb and libc:
        k = max(i for i, l in enumerate(before) if l in tb)
        if [l for l in mine(before[:k])][n:]:
            out.append('constructors run before those of libraries: %r' % before)
    b = mine(before)
    p = fits(want, b[:n], '.preinit_array')
    out += [p] if p else []
    want = frag('init')
    i = sum(len(w[3]) for w in want)
    p = fits(want, b[n:n + i], '.init')
    out += [p] if p else []
    p = fits(array('ctors'), b[n + i:], '.init_array')
    out += [p] if p else []
    wl = sorted(e[1] for u in libs for e in u.ctors) + []
    if sorted(tb) != sorted(wl + [s for u in libs for s in u.init]):
        out.append('constructors of libraries: %r instead of %r' % (tb, wl))
    if ending == '_exit':
        if after or atexit:
            out.append('after _exit there runs %r' % after)
        return out
    if ending == 'atexit' and atexit != ['atexit2', 'atexit1']:
        out.append('functions registered with atexit: %r' % atexit)
    a = mine(after)
    want = array('dtors')
    k = sum(len(w[3]) for w in want)
    p = fits(want, a[:k][::-1], '.fini_array (reversed)')
    out += [p] if p else []
    p = fits(frag('fini'), a[k:], '.fini')
    out += [p] if p else []
    ta = theirs(after)
    if ta and libc:
        j = min(i for i, l in enumerate(after) if l in ta)
        if mine(after[j:]):
            out.append('destructors run after those of libraries: %r' % after)
    if sorted(ta) != sorted([e[1] for u in libs for e in u.dtors] + [s for u in libs
                                                                     for s in u.fini]):
        out.append('destructors of libraries: %r' % ta)
    return out


def trace_case(rng, idx, d, rep):
    r = rng
    libc = r.random() < 0.75
    style = r.choice(['%05d', '%d'])
    objs = [unit(r, 'o%d' % i, 'obj', libc, style) for i in range(r.choice([0, 1, 2, 3, 6, 12]))]
    members = [unit(r, 'm%d' % i, 'member', libc, style) for i in range(r.choice([0, 0, 1, 2, 4]))]
    libs = [unit(r, 'l%d' % i, 'lib', True, style) for i in range(r.choice([0, 0, 1, 2]))] if libc else []
    ending = r.choice(['return', 'return', 'exit', 'atexit', '_exit', 'ctor']) if libc else 'return'
    pulled = [m for m in members if r.random() < 0.85]
    mu = unit(r, 'u', 'obj', libc, style)
    src = {u.name: '\n'.join(u.text) + '\n' for u in objs + members + libs}
    t = list(mu.text)
    # the members are found to be needed in any order
    chain = r.sample(pulled, len(pulled))
    direct = [m for k, m in enumerate(chain) if not k or r.random() < 0.5]
    for k, m in enumerate(chain):
        if m not in direct:
            x = r.choice(chain[:k])
            x.text.append('extern int %s_id(void); int %s_%s(void) { return %s_id(); }' % (
                m.name, x.name, m.name, m.name))
    src.update({u.name: '\n'.join(u.text) + '\n' for u in pulled})
    for m in direct:
        t.append('extern int %s_id(void);' % m.name)
    t.append('int used(void) { return 0 %s; }' % ''.join('+ %s_id()' % m.name for m in direct))
    for l in libs:
        t.append('extern int %s_id(void);' % l.name)
    t.append('int uses(void) { return 0 %s; }' % ''.join('+ %s_id()' % l.name for l in libs))
    if libc:
        t += ['#include <unistd.h>', '#include <string.h>', '#include <stdlib.h>',
              'void say(const char *s) { write(1, s, strlen(s)); }',
              'static void e1(void) { say("atexit1\\n"); } static void e2(void) { say("atexit2\\n"); }',
              'int main(void) { say("main\\n"); used(); uses(); %s }' % {
                  'return': 'return 0;', 'exit': 'exit(0);', '_exit': '_exit(0);', 'ctor': 'return 0;',
                  'atexit': 'atexit(e1); atexit(e2); return 0;'}[ending]]
    else:
        acc = r.choice(['plain', 'asm', 'table', 'weak'])
        w = ' __attribute__((weak))' if acc == 'weak' else ''
        t += ['typedef void fn(void);',
              'extern fn *__init_array_start[]%s, *__init_array_end[]%s;' % (w, w),
              'extern fn *__fini_array_start[]%s, *__fini_array_end[]%s;' % (w, w),
              'extern fn *__preinit_array_start[]%s, *__preinit_array_end[]%s;' % (w, w),
              'static long sys(long n, long a, long b, long c) { long r; __asm__ volatile("syscall" : '
              '"=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }',
              'void say(const char *s) { long n = 0; while (s[n]) { ++n; __asm__ volatile(""); } sys(1, 1, (long) s, n); }']
        if acc == 'table':
            t.append('static fn **volatile T[] = {__init_array_start, __init_array_end, '
                     '__fini_array_start, __fini_array_end, __preinit_array_start, __preinit_array_end};')
            b = ['T[%d]' % i for i in range(6)]
        elif acc == 'asm':
            t.append(r.choice([
                '#define B(n) ({ fn **p; __asm__("lea " #n "(%%rip), %0" : "=r"(p)); p; })',
                '#define B(n) ({ fn **p; __asm__("mov $" #n ", %k0" : "=r"(p)); p; })',
                '#define B(n) ({ fn **p; __asm__("mov " #n "@GOTPCREL(%%rip), %0" : "=r"(p)); p; })',
                '#define B(n) ({ fn **p; __asm__("movabs $" #n ", %0" : "=r"(p)); p; })']))
            b = ['B(__%s_array_%s)' % (a, e) for a in ('init', 'fini', 'preinit')
                 for e in ('start', 'end')]
        else:
            b = ['__%s_array_%s' % (a, e) for a in ('init', 'fini', 'preinit')
                 for e in ('start', 'end')]
        t.append('void start(void) { for (fn **p = %s; p != %s; ++p) (*p)(); say("main\\n"); '
                 'if (%s != %s) say("preinit:unexpected\\n"); '
                 'for (fn **p = %s; p != %s; ) (*--p)(); used(); sys(231, 0, 0, 0); }' % (
                     b[0], b[1], b[4], b[5], b[3], b[2]))
        t.append('__asm__(".globl _start\\n_start: and $-16, %rsp\\ncall start");')
    src['u'] = '\n'.join(t) + '\n'
    units = objs + [mu]
    for u in units + members + libs:
        with open(os.path.join(d, u.name + '.c'), 'w') as f:
            f.write(src[u.name])
        pic = ['-fPIC'] if u.kind == 'lib' else r.choice([['-fno-pic'], ['-fPIC'], ['-fpie']])
        prog.tool(['gcc', '-c', '-w', u.name + '.c', '-o',
                   u.name + '.o', '-fno-stack-protector'] + pic + [r.choice(['-O0', '-O1', '-O2'])], d)
    for l in libs:
        prog.tool(['gcc', '-shared', '-o', 'lib%s.so' % l.name, l.name + '.o'], d)
    r.shuffle(units)
    order = list(units)
    ars = []
    ms = list(members)
    r.shuffle(ms)
    files = {u.name: u.name + '.o' for u in units}
    while ms:
        k = r.randrange(1, len(ms) + 1)
        n = 'libar%d.a' % len(ars)
        prog.tool(['ar', 'rcs', n] + [m.name + '.o' for m in ms[:k]], d)
        part = [m for m in ms[:k] if m in pulled]
        ms = ms[k:]
        ars.append(n)
        order.insert(r.randrange(len(order) + 1), (n, part))
    cmd = [files[x.name] if isinstance(x, Unit) else x[0] for x in order]
    order = [x if isinstance(x, Unit) else x[1] for x in order]
    lcmd = list(cmd)
    for l in libs:
        lcmd.insert(r.randrange(len(lcmd) + 1), 'lib%s.so' % l.name)
    und = [y for m in pulled for y in ('-u', m.name + '_id')]
    tag = 'a trace program (%s)' % ' '.join(lcmd)
    if libc:
        args = prog.dld_args(lcmd)
        ref = prog.ref_args(lcmd, [], [], opts=und)
    else:
        args = ['-o', 'prog'] + lcmd
        ref = ['ld', '-o', 'ref'] + und + lcmd
    x = core.run(ref, d)
    if x.rc:
        raise RuntimeError('the reference linker fails: %s' % x.err[-2000:])
    a = prog.execute(d, 'ref')
    p = check_trace(a.out, units, ars, libs, libc, ending, order)
    if p or a.rc:
        raise RuntimeError('the model is wrong: %s %s %s' % (p, a, cmd))
    res = core.dld(args, d)
    if linked(res, d, rep, tag, 'prog') is None:
        return
    for now in ((False, True) if libc else (False,)):
        got = prog.execute(d, 'prog', now)
        if got.rc or got.timeout:
            rep.bad('%s ends with %d%s: %r' % (tag, got.rc, ' (timeout)' if got.timeout else '',
                                               got.out[-300:]))
            return
        for m in check_trace(got.out, units, ars, libs, libc, ending, order):
            rep.bad('%s: %s' % (tag, m))
        rep.count('functions seen to run', len(got.out.splitlines()) - 1)
    for u in units + pulled:
        for k in ('pre', 'init', 'ctors', 'dtors', 'fini'):
            rep.count('entries: ' + k, len(getattr(u, k)))
    rep.count('programs with libc' if libc else 'programs without libc')
    rep.shape(sorted(src.items()), cmd)
    rep.sample({'command': lcmd, 'trace': got.out.splitlines()})


def main():
    c = core.Check('C17', rule='A case is a random world with initialisation arrays (with and without '
                   'priorities) and fragments, judged by its file (distinct by the sizes of these), '
                   'or a program whose constructors, destructors, fragments and atexit functions '
                   'write a trace (distinct by its text and link order), which is checked against '
                   'a model that a link by GNU ld confirms each time.')
    T = core.THOROUGH
    c.run(world_case([oracle_arrays], profile, shape=shape), 40000 if T else 5000,
          900 if T else 60, 'w')
    c.run(trace_case, 8000 if T else 500, 1500 if T else 70, 't')
    c.finish()
