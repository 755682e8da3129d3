"""C12: linker scripts."""
import os

from .common import *
from .gen import *


def profile(rng):
    return dict(nobj=(1, 6), nsec=(1, 4), nglob=(1, 10), nrel=(0, 5), narch=rng.choice([0, 1, 2]),
                nlib=rng.choice([0, 1, 2, 3]), big=0, weird_align=0.02, name_style='plain', repeat=0)


def space(rng, must=False):
    """White space and comments."""
    out = ''
    while rng.random() < 0.5 or (must and not out):
        k = rng.random()
        if k < 0.75:
            out += rng.choice([' ', ' ', '\n', '\t', '  ', '\r\n', ' \n\t', '\n\n'])
        else:
            out += rng.choice([
                '/* comment */', '/**/', '/***/', '/* a * b / c ** d */', '/* GROUP ( nothing.o ) */',
                '/* /* */', '/*\n two\n lines */', '/* "quotes\' */', '/* AS_NEEDED( */', '/*)*/',
                '/* é */', '/*/ slash */', '/* **/', '/* https://example.org/x */', '/*x*//*y*/'])
    return out


def word_breaks(rng, items):
    """Items with at least one space or comment between any two words."""
    out = ''
    for i, x in enumerate(items):
        if i:
            # brackets need no space
            free = out.endswith(')') or x.startswith('(')
            out += space(rng, must=not free)
        else:
            out += space(rng)
        out += x
    return out + space(rng)


class Scripts:
    """Puts inputs into scripts. `plain` is the equivalent command line: (input, as needed)."""

    def __init__(self, rng, d, rep):
        self.r, self.d, self.rep, self.n = rng, d, rep, 0
        self.depth = 0

    def name(self):
        self.n += 1
        return self.r.choice(['s%d.txt', 'script%d', 'libscr%d.so', 'scr%d.ld', 'scr%d/s',
                              'libscr%d.a', 's+%d.so', 's~%d', 'S-%d@x']) % self.n

    def write(self, name, text):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='') as f:
            f.write(text)

    def spell(self, x):
        """A name of an input."""
        r = self.r
        k = r.random()
        if k < 0.6 or x.startswith('-l'):
            return x
        if k < 0.8:
            return './' + x
        return os.path.join(self.d, x)

    def make(self, items, depth=0):
        """items: [(input, as needed)]; writes a script for them, and returns its name. Those that
        are `as needed` must be put in AS_NEEDED."""
        r = self.r
        groups = []
        i = 0
        words = []

        def close():
            if words:
                groups.append(list(words))
                words.clear()
        while i < len(items):
            k = r.random()
            if k < 0.2:
                close()
            if r.random() < 0.1:
                words.append('AS_NEEDED' + space(r) + '(' + space(r) + ')')
            x, needed = items[i]
            n = r.randrange(1, len(items) - i + 1)
            same = [y for y in items[i:i + n]]
            if depth < 3 and r.random() < 0.25:
                # an inner script for some of them
                if needed and all(y[1] for y in same):
                    inner = self.make([(y, r.random() < 0.3) for y, _ in same], depth + 1)
                    words.append('AS_NEEDED' + space(r) + '(' + word_breaks(r, [self.spell(inner)])
                                 + ')')
                    self.rep.count('scripts in AS_NEEDED')
                else:
                    words.append(self.spell(self.make(same, depth + 1)))
                    self.rep.count('scripts in scripts')
                i += n
                continue
            if needed:
                k = 1
                while i + k < len(items) and items[i + k][1] and r.random() < 0.6:
                    k += 1
                words.append('AS_NEEDED' + space(r) + '(' + word_breaks(
                    r, [self.spell(y) for y, _ in items[i:i + k]]) + ')')
                self.rep.count('AS_NEEDED parts')
                i += k
            else:
                words.append(self.spell(x))
                i += 1
        close()
        if not groups and r.random() < 0.5:
            groups.append([])
        text = space(r)
        for g in groups:
            if r.random() < 0.3:
                text += 'OUTPUT_FORMAT' + space(r) + '(' + space(r) + 'elf64-x86-64' + space(r) + \
                    ')' + space(r)
                self.rep.count('OUTPUT_FORMAT commands')
            text += 'GROUP' + space(r) + '(' + word_breaks(r, g) + ')' + space(r)
            self.rep.count('GROUP commands')
        name = self.name()
        self.write(name, text or '\n')
        self.rep.count('scripts')
        return name


def needs(d, w):
    """The inputs of the command line: (name, as needed), and the options."""
    items, opts, as_needed = [], [], False
    it = iter(w.cmd)
    for c in it:
        if c in ('--as-needed', '--no-as-needed'):
            as_needed = c == '--as-needed'
        elif not isinstance(c, str):
            items.append((c.name, as_needed))
        elif c in ('-o', '--hash-style', '-dynamic-linker', '-m', '-z'):
            opts.append([c, next(it)])
        else:
            opts.append([c])
    return items, opts


def flags(rng, items):
    """A command line that gives the items."""
    out, cur = [], False
    for x, n in items:
        if n != cur or rng.random() < 0.1:
            out.append(['--as-needed' if n else '--no-as-needed'])
            cur = n
        out.append([x])
    return out


def same(rng, idx, d, rep):
    w = Gen(rng, **profile(rng)).build()
    w.emit(d, rng)
    ref = linked(w.link(d), d, rep, 'a link without scripts')
    if ref is None:
        return
    v = view(w, ref, rep)
    if not v:
        return
    os.rename(os.path.join(d, 'out'), os.path.join(d, 'ref'))
    items, opts = needs(d, w)
    # some archives are found with -l
    search = []
    for i, (x, n) in enumerate(items):
        b = os.path.basename(x)
        if rng.random() < 0.3 and x.startswith('lib') and b.endswith(('.a', '.so')):
            one = 'search%d' % i
            os.makedirs(os.path.join(d, one))
            os.rename(os.path.join(d, x), os.path.join(d, one, 'lib' + str(i) + b[3:]))
            if x.endswith('.so') and not [l for l in w.libs if l.name == x][0].soname:
                os.rename(os.path.join(d, one, 'lib' + str(i) + b[3:]), os.path.join(d, x))
                continue
            items[i] = ('-l' + str(i) + b[3:].rsplit('.', 1)[0], n)
            search.append(rng.choice([['-L', one], ['-L' + one]]))
            rep.count('-l inputs')
    # which parts of the list become scripts
    s = Scripts(rng, d, rep)
    cmd = []
    i = 0
    cur = False
    while i < len(items):
        if rng.random() < 0.6:
            n = rng.randrange(1, len(items) - i + 1)
            part = items[i:i + n]
            under = rng.random() < 0.3 and all(y[1] for y in part)
            if under:
                # the script inherits --as-needed
                if not cur or rng.random() < 0.1:
                    cmd.append(['--as-needed'])
                    cur = True
                name = s.make([(y, rng.random() < 0.5) for y, _ in part])
                rep.count('scripts after --as-needed')
            else:
                if cur:
                    cmd.append(['--no-as-needed'])
                    cur = False
                name = s.make(part)
            cmd.append([s.spell(name)])
            i += n
        else:
            x, n = items[i]
            if n != cur:
                cmd.append(['--as-needed' if n else '--no-as-needed'])
                cur = n
            cmd.append([x])
            i += 1
        if rng.random() < 0.05:
            cmd.append([s.make([])])
            rep.count('scripts without inputs')
    for o in opts + search:
        cmd.insert(rng.randrange(len(cmd) + 1), o)
    args = [x for c in cmd for x in c]
    with open(os.path.join(d, 'cmd.txt'), 'w') as f:
        f.write('\n'.join(args) + '\n')
    data = linked(core.dld(args, d), d, rep, 'a link with scripts')
    if data is None:
        return
    if data != ref:
        try:
            v2 = View(w, data)
            why = [m for f in ORACLES.values() for m in f(v2, core.Report())][:5]
        except Exception as x:
            why = [repr(x)]
        rep.bad('a link with scripts differs from the same link without (%d and %d bytes): %s' % (
            len(data), len(ref), why))
    judge(oracle_dynamic, v, rep)
    rep.count('links with scripts')
    rep.shape([len(c[0]) for c in cmd], s.n, len(items), [n for _, n in items])
    rep.sample(' '.join(args)[:300])


GOOD = ['GROUP ( o.o )', 'OUTPUT_FORMAT(elf64-x86-64)\nGROUP ( o.o )', 'GROUP(o.o AS_NEEDED(l.so))',
        '/* c */ GROUP ( o.o l.so )', 'GROUP(o.o) GROUP(l.so)']
BAD = ['GROP ( o.o )', 'group ( o.o )', 'GROUP o.o', 'GROUP ( o.o', 'GROUP ) o.o (', 'GROUP ( o.o ))',
       'GROUP (( o.o ))', 'INPUT ( o.o )', 'o.o', 'GROUP ( o.o ) /* never closed',
       'GROUP ( o.o ) *', '/ GROUP ( o.o )', 'GROUP ( o.o ) ;', 'GROUP ( o.o ) ENTRY(x)',
       'OUTPUT_FORMAT ( elf64-x86-64 GROUP ( o.o )', 'OUTPUT_FORMAT GROUP ( o.o )',
       'OUTPUT_FORMAT() GROUP ( o.o )', 'AS_NEEDED ( o.o )', 'GROUP ( o.o AS_NEEDED ( l.so )',
       'GROUP ( o.o AS_NEEDED l.so )', 'GROUP ( o.o AS_NEEDED ( AS_NEEDED ( l.so ) ) )',
       'GROUP ( o.o GROUP ( l.so ) )', 'GROUP ( o.o nothing.o )', 'GROUP ( o.o -lnothing )',
       'GROUP ( o.o ) x', 'x GROUP ( o.o )', '# GROUP ( o.o )', '// c\nGROUP ( o.o )',
       'GROUP ( o.o --hash-style=gnu )', 'GROUP ( o.o -o other )', 'GROUP ( o.o -L. )',
       'GROUP [ o.o ]', 'GROUP { o.o }', 'GROUP ( "o.o )', 'GROUP ( o.o ) GROUP', 'GROUP',
       'GROUP(o.o)GROUP(', 'GROUPS ( o.o )', 'GROUP ( o.o /* )', 'GROUP ( o.o | l.so )',
       'GROUP ( o.o ) \x01', 'GROUP ( o.o )\0', '\0', '\x01\x02\x03', '!<arch>', '!<arch> \n',
       'hello world', 'SECTIONS { .text : { *(.text) } }', '*/ GROUP ( o.o )', '\x7fEL', '#!/bin/sh\n',
       'GROUP ( o.o ) OUTPUT_FORMAT', 'OUTPUT_FORMAT(elf64-x86-64', 'GROUP ( o.o AS_NEEDED )',
       'AS_NEEDED', 'GROUP ( o.o ) AS_NEEDED ( l.so )', 'GROUP ( -unknown o.o )', 'VERSION { }',
       'GROUP ( o.o ) -l', 'TARGET(x)', 'GROUP ( o.o !l.so )', 'GROUP ( o.o (l.so) )']


def small(rng, d):
    o = Obj('o.o')
    tag = rng.randbytes(12)
    t = o.sec('.text', SHT_PROGBITS, 6, 1, tag, tag=(0, tag))
    o.sym('_start', 1, 2, t, 0)
    w = World()
    w.objs = [o]
    w.libs = [Lib('l.so', [DynSym('f')])]
    w.emit(d, rng)
    return w


def put(d, name, text):
    with open(os.path.join(d, name), 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def refuse(args, d, rep, what):
    res = core.dld(args, d, limits={core.resource.RLIMIT_CPU: 20,
                                    core.resource.RLIMIT_AS: 4 << 30})
    if res.rc < 0 and not res.timeout:
        rep.bad('%s ends with signal %d' % (what, -res.rc))
        return
    must_fail(res, d, rep, what)


def text_case(rng, idx, d, rep):
    """Text that is not a script as described."""
    small(rng, d)
    i = int(idx[1:])
    base = ['-o', 'out']
    if i < len(BAD):
        text = BAD[i]
    elif rng.random() < 0.5:
        # a good script that is damaged where it matters
        text = rng.choice(GOOD)
        k = rng.randrange(5)
        b = [j for j, ch in enumerate(text) if ch in '()']
        if k == 0:
            j = rng.choice(b)
            text = text[:j] + text[j + 1:]
        elif k == 1:
            j = rng.choice(b)
            text = text[:j] + rng.choice('()[{;,=!"') + text[j:]
        elif k == 2:
            j = max(b)
            text = text[:rng.randrange(text.index('(', text.index('GROUP')), j + 1)]
            if text.rstrip().endswith(')') and text.count('(') == text.count(')'):
                return
        elif k == 3:
            text += rng.choice([' x', ' )', ' ;', ' /*', ' GROUP', ' ENTRY ( _start )', ' {', '\0'])
        else:
            j = rng.randrange(len(text) + 1)
            if '/*' in text and j >= text.index('/*') and j <= text.index('*/') + 2:
                return
            text = text[:j] + rng.choice('=!"#$%&\'*<>?[]^`{|};\\\x01\x7f') + text[j:]
    else:
        text = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
        if text.startswith((b'!<arch>\n', b'\x7fELF')) or not text.strip():
            return
    put(d, 's.txt', text)
    # the rest of the link is complete without the script, or not
    args = base + rng.choice([['s.txt'], ['s.txt', 'l.so'], ['o.o', 's.txt'], ['s.txt', 'o.o']])
    if rng.random() < 0.2:
        put(d, 'outer.txt', 'GROUP ( s.txt )')
        args = [a if a != 's.txt' else 'outer.txt' for a in args]
    if rng.random() < 0.3:
        put(d, 'out', b'older')
        os.unlink(os.path.join(d, 'out'))
    refuse(args, d, rep, 'a link with the text %r' % text[:80])
    rep.count('texts that are no scripts')
    rep.shape('text', text)
    rep.sample(repr(text[:60]))


def cycle_case(rng, idx, d, rep):
    """Scripts that list themselves, and long chains that don't."""
    small(rng, d)
    n = rng.choice([1, 1, 2, 2, 3, 5, 20])
    names = ['s%d.txt' % i for i in range(n)]
    kind = rng.choice(['cycle', 'cycle', 'chain', 'diamond'])
    inner = rng.choice(['GROUP ( %s )', 'GROUP ( AS_NEEDED ( %s ) )', 'GROUP ( o.o %s )',
                        'GROUP ( l.so AS_NEEDED ( l.so %s ) )', 'GROUP ( %s %s )',
                        'OUTPUT_FORMAT(elf64-x86-64) GROUP ( %s )'])
    os.symlink('.', os.path.join(d, 'here'))

    def spell(x):
        k = rng.randrange(6)
        if k == 0:
            return './' + x
        if k == 1:
            return 'here/' + x
        if k == 2:
            return os.path.join(d, x)
        if k == 3:
            if not os.path.lexists(os.path.join(d, 'l-' + x)):
                os.symlink(x, os.path.join(d, 'l-' + x))
            return 'l-' + x
        if k == 4 and x.startswith('s'):
            # found in a search directory
            return x
        return x
    if kind == 'cycle':
        back = rng.randrange(n)
        for i, x in enumerate(names):
            to = names[i + 1] if i + 1 < n else names[back]
            put(d, x, inner.replace('%s', spell(to)))
        refuse(['-o', 'out', 'o.o', names[0]], d, rep, 'a link with scripts in a circle of %d' % n)
        rep.count('circles of scripts')
    elif kind == 'chain':
        for i, x in enumerate(names):
            put(d, x, 'GROUP ( %s )' % (spell(names[i + 1]) if i + 1 < n else 'o.o'))
        linked(core.dld(['-o', 'out', names[0]], d), d, rep, 'a chain of %d scripts' % n)
        rep.count('chains of scripts')
    else:
        # one script in several places lists itself nowhere
        put(d, 'leaf', 'GROUP ( l.so )')
        for x in names:
            put(d, x, 'GROUP ( %s )' % spell('leaf'))
        linked(core.dld(['-o', 'out', 'o.o'] + names + ['leaf'], d), d, rep,
               'a script that is listed %d times' % (n + 1))
        rep.count('scripts listed repeatedly')
    rep.shape(kind, n, inner, [os.path.realpath(x) for x in ()], rng.randrange(50))


def main():
    c = core.Check('C12', rule='random worlds whose inputs are given by scripts (nested, with '
                   'AS_NEEDED, comments and white space in any layout, -l), which must give the '
                   'same bytes as the plain command line; texts that are no scripts, damaged '
                   'scripts and random bytes, which must be refused; circles and chains of '
                   'scripts; distinct by the command line, by the text or by the chain')
    T = core.THOROUGH
    c.run(same, 40000 if T else 6000, 1000 if T else 50, 's')
    c.run(text_case, 40000 if T else 4000, 300 if T else 30, 't')
    c.run(cycle_case, 4000 if T else 300, 200 if T else 15, 'c')
    c.finish()
