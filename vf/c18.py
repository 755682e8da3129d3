"""C18: debugging information, and whatever else isn't loaded, arrives complete."""
import re

from .common import *
from .gen import *
from . import c01, prog

NAMES = ['.debug_info', '.debug_abbrev', '.debug_line', '.debug_str', '.debug_ranges', '.debug_loc',
         '.debug_aranges', '.debug_frame', '.debug_types', '.debug_macro', '.debug_rnglists',
         '.debug_loclists', '.debug_addr', '.debug_line_str', '.debug_str_offsets', '.debug_names',
         '.comment', '.stab', '.gnu.attributes', '.my_notes', 'no_dot', '.note.x', '.GCC.command.line']


def oracle_unloaded(v, rep):
    """Each section that isn't loaded is in the section of its name, intact and in order."""
    e, w = v.elf, v.w
    out = list(v.problems)
    groups = {}
    pos = positions(w)
    for k, o in enumerate(w.linked):
        for j, s in enumerate(o.secs):
            if not s.alloc and s in v.addr and s.type not in (SHT_REL, SHT_RELA):
                groups.setdefault(s.name, []).append((pos[o], k, j, s))
    objs = {id(s) for o in w.objs for s in o.secs}
    for name, parts in groups.items():
        outs = e.sections(name)
        if len(outs) != 1:
            out.append('there are %d output sections named %r' % (len(outs), name))
            continue
        t = outs[0]
        if t.flags & SHF_ALLOC or t.addr:
            out.append('%r is loaded at %#x' % (name, t.addr))
        if t.flags & SHF_COMPRESSED:
            out.append('%r is compressed' % name)
        c = e.content(t)
        prev, end = None, 0
        for p, k, j, s in sorted(parts, key=lambda x: x[:3]):
            a = v.addr[s] - t.addr
            rep.count('sections compared')
            if s.align > 1 and a % s.align:
                out.append('%r is at offset %#x, which is no multiple of %d' % (s, a, s.align))
            if a + s.size > t.size:
                out.append('%r at offset %#x is not within %r' % (s, a, t))
                continue
            m = c[a:a + s.size]
            mask = reloc_mask(s)
            rep.count('bytes compared', len(m) - sum(mask))
            bad = [i for i in range(len(m)) if not mask[i] and m[i] != s.data[i]]
            if bad:
                out.append('%r: %d bytes differ, first at offset %#x' % (s, len(bad), bad[0]))
            if prev and (id(s) in objs or prev[0] != p):
                if a < prev[1]:
                    out.append('%r at offset %#x does not come after %r, which ends at %#x' % (
                        s, a, prev[2], prev[1]))
                rep.count('pairs in order')
            prev = (p, a + s.size, s)
        spans = sorted((v.addr[s], v.addr[s] + s.size, s) for _, _, _, s in parts)
        for x, y in zip(spans, spans[1:]):
            if y[0] < x[1]:
                out.append('%r and %r overlap' % (x[2], y[2]))
    return out


def profile(rng):
    return dict(nobj=(1, 8), nsec=(2, 12), nrel=(2, 16), nglob=(2, 12), big=0.03, weird_align=0.1,
                kinds=['debug', 'dstr', 'debug', 'text', 'data', 'rodata', 'bss'],
                unloaded=NAMES, groups=rng.choice([0, 0, 0, 2]))


# -- programs with debugging information ------------------------------------------------------------

GCC = [['-g'], ['-g', '-gdwarf-2'], ['-g', '-gdwarf-3'], ['-g', '-gdwarf-4'], ['-g', '-gdwarf-5'],
       ['-g1'], ['-g3'], ['-ggdb'], ['-g', '-fdebug-types-section', '-gdwarf-4'],
       ['-g', '-fdebug-types-section'], ['-g', '-gdwarf64'], ['-g', '-gno-as-locview-support'],
       ['-g', '-ffunction-sections', '-fdata-sections'], ['-g', '-gas-loc-support'],
       ['-g', '-gno-as-loc-support'], ['-g', '-gpubnames'], ['-g', '-ggnu-pubnames'],
       ['-g3', '-gdwarf-4'], ['-g', '-gdwarf-4', '-fno-dwarf2-cfi-asm'], ['-g', '-gno-strict-dwarf'],
       ['-g', '-fno-merge-debug-strings'], ['-g', '-gno-inline-points'], ['-g', '-femit-struct-debug-baseonly'],
       ['-g', '-grecord-gcc-switches'], ['-g', '-frecord-gcc-switches'], ['-g', '-gcolumn-info'], []]
CLANG = [['-g'], ['-g', '-gdwarf-4'], ['-gline-tables-only'], ['-g', '-fdebug-macro'],
         ['-g', '-gdwarf-5'], ['-glldb'], ['-g', '-fstandalone-debug'], ['-g', '-gdwarf-3'],
         ['-g', '-fdebug-types-section'], ['-g', '-fno-debug-macro'], ['-g', '-gembed-source']]


def functions(e):
    """The functions of our units: (unit, name, number) -> symbol."""
    out, unit, seen = {}, '', {}
    for y in e.symtab:
        if y.type == STT_FILE:
            unit = y.name
        elif y.bind == STB_LOCAL and y.type == STT_FUNC and y.shndx and y.size:
            k = (unit, y.name)
            n = seen[k] = seen.get(k, 0) + 1
            out[k + (n,)] = y
        elif y.type == STT_FUNC and y.shndx and y.size:
            out[('', y.name, 1)] = y
    return out


def lines_of(d, exe, funcs, tool):
    ask, at = [], []
    for k, y in funcs:
        for o in range(0, y.size, 1 if y.size < 40 else 3):
            ask.append('0x%x' % (y.value + o))
            at.append((k, o))
    r = core.run(tool + ['-e', exe], d, stdin='\n'.join(ask).encode() + b'\n', timeout=60)
    if r.rc or r.timeout:
        raise RuntimeError('%s fails on %s: %s' % (tool[0], exe, r.err[-500:]))
    parts = re.split(r'^0x[0-9a-f]+\n', r.out, flags=re.M)[1:]
    if len(parts) != len(at):
        raise core.Inconclusive('%s answers %d questions of %d' % (tool[0], len(parts), len(at)))
    return dict(zip(at, parts))


HEX = re.compile(r'0x[0-9a-f]+')
# where a unit's part of another section is
PLACES = re.compile(r'DW_AT_(stmt_list|macros|macro_info|GNU_macros|str_offsets_base|addr_base|'
                    r'rnglists_base|loclists_base|GNU_locviews|GNU_addr_base|GNU_ranges_base|sibling)\b')
LISTS = re.compile(r'(DW_AT_\w+\t\()(?:indexed \(0x[0-9a-f]+\) (?:loclist|rangelist) = )?'
                   r'0x[0-9a-f]+(: ?)?$')


def unit_lines(d, exe):
    """The units of the debugging information: name -> (offset, lines)."""
    r = core.run(['llvm-dwarfdump', '--debug-info', '--debug-types', exe], d, timeout=60)
    if r.rc or r.timeout:
        raise RuntimeError('llvm-dwarfdump fails: %s' % r.err[-500:])
    out, seen = {}, {}
    for part in re.split(r'^(?=0x[0-9a-f]+: (?:Compile|Type|Partial|Skeleton) Unit:)', r.out,
                         flags=re.M)[1:]:
        lines = part.splitlines()
        m = re.search(r'type_signature = (0x[0-9a-f]+)', lines[0]) or \
            re.search(r'DW_AT_name\t\("(.*)"\)', part)
        k = m.group(1) if m else '?'
        n = seen[k] = seen.get(k, 0) + 1
        off = int(lines[0].split(':')[0], 16)
        head = re.sub(r'(abbr_offset =|next unit at) 0x[0-9a-f]+', r'\1', lines[0])
        out[k, n] = off, [head.split(':', 1)[1]] + [
            re.sub(r'^0x[0-9a-f]+:', '', x) for x in lines[1:] if x.strip() and
            ' contents:' not in x]
    return out, r.err


class Map:
    """What the addresses of the reference are in our executable."""

    def __init__(self, ref, ours):
        self.ref, self.ours = ref, ours
        a, b = self.named(ref), self.named(ours)
        self.spans = sorted((a[k].value, a[k].size, b[k].value) for k in a if k in b and
                            a[k].size == b[k].size)
        self.imports = {y.value for y in ref.symtab if y.shndx == 0} | {
            y.value for y in ref.dynsym}
        self.plt = [(s.addr, s.addr + s.size) for s in ref.sh if s.name.startswith('.plt')]

    @staticmethod
    def named(e):
        out, unit, seen = {}, '', {}
        for y in e.symtab:
            if y.type == STT_FILE:
                unit = y.name
            elif y.shndx and y.type in (0, 1, 2):
                k = (unit if y.bind == STB_LOCAL else '', y.name)
                n = seen[k] = seen.get(k, 0) + 1
                out[k + (n,)] = y
        return out

    def add(self, low, high):
        n = high[0] - low[0]
        if n != high[1] - low[1] or not 0 < n < 1 << 20 or \
                any(v <= low[0] < v + k for v, k, _ in self.spans):
            return
        x, y = self.ref.mem(low[0], n), self.ours.mem(low[1], n)
        # but for what is relocated
        if x and y and sum(p == q for p, q in zip(x, y)) * 3 >= n:
            self.spans.append((low[0], n, low[1]))

    def fits(self, a, b):
        if a == b:
            return True
        for v, n, w in self.spans:
            if v <= a <= v + n and w + a - v == b:
                return True
        return False

    def string(self, a, b):
        x, y = self.ref.mem(a, 1), self.ours.mem(b, 1)
        n = 0
        while x and y and x == y and x != b'\0' and n < 200:
            a, b, n = a + 1, b + 1, n + 1
            x, y = self.ref.mem(a, 1), self.ours.mem(b, 1)
        return bool(x) and x == y

    def foreign(self, a):
        """Is it of something that a library defines?"""
        return a in self.imports or any(x <= a < y for x, y in self.plt)


def compare_unit(m, name, a, b, rep):
    """What is wrong with our unit b, compared with the reference's a."""
    delta = b[0] - a[0]
    if len(a[1]) != len(b[1]):
        k = next((k for k, (x, y) in enumerate(zip(a[1], b[1])) if HEX.sub('', x) != HEX.sub('', y)),
                 -1)
        return 'unit %s has %d lines instead of %d, such as %r instead of %r' % (
            name, len(b[1]), len(a[1]), b[1][k:k + 2], a[1][k:k + 2])
    low = None
    for x, y in zip(a[1], b[1]):
        # functions without a symbol, whose name means another definition
        if 'DW_AT_low_pc' in x and 'DW_AT_low_pc' in y:
            low = [int(HEX.search(t).group(), 16) for t in (x, y)]
        elif 'DW_AT_high_pc' in x and 'DW_AT_high_pc' in y and low:
            m.add(low, [int(HEX.search(t).group(), 16) for t in (x, y)])
        elif re.match(r' *\[0x[0-9a-f]+, 0x[0-9a-f]+\)\)?$', x):
            p = [[int(t, 16) for t in HEX.findall(z)] for z in (x, y)]
            if len(p[1]) == 2:
                m.add([p[0][0], p[1][0]], [p[0][1], p[1][1]])
    for x, y in zip(a[1], b[1]):
        if x == y:
            continue
        if PLACES.search(x):
            x, y = HEX.sub('N', x), HEX.sub('N', y)
        x, y = LISTS.sub(r'\1', x), LISTS.sub(r'\1', y)
        if HEX.sub('N', x) != HEX.sub('N', y):
            return 'unit %s has %r instead of %r' % (name, y.strip(), x.strip())
        for p, q in zip(HEX.findall(x), HEX.findall(y)):
            p, q = int(p, 16), int(q, 16)
            if q - p == delta and (' "' in x or 'DW_AT_' in x and 'DW_OP' not in x) or m.fits(p, q):
                rep.count('addresses in debugging information', p != q)
            elif m.foreign(p):
                rep.count('addresses of imports')
            elif 'DW_OP_addr' in x and m.string(p, q):
                rep.count('addresses of constants')
            else:
                return 'unit %s has %r instead of %r' % (name, y.strip(), x.strip())
    rep.count('lines about units', len(a[1]))


def type_unit(x):
    return x[0], [l for l in x[1] if 'DW_AT_decl_file' not in l]


def frames(d, exe):
    """How to unwind each function: start -> (size, rows)."""
    r = core.run(['readelf', '-W', '--debug-dump=frames-interp', exe], d, timeout=60)
    if r.rc or r.timeout:
        raise RuntimeError('readelf fails: %s' % r.err[-500:])
    out = {}
    for part in re.split(r'\n\s*\n', r.out):
        h = re.match(r'\S+ \S+ \S+ FDE .*pc=([0-9a-f]+)\.\.([0-9a-f]+)', part)
        if h:
            a, z = int(h.group(1), 16), int(h.group(2), 16)
            lines = part.split('\n')[1:]
            rows = [lines[0].split()] if lines else []
            for x in lines[1:]:
                x = x.split()
                rows.append([int(x[0], 16) - a] + x[1:])
            out.setdefault(a, []).append((z - a, repr(rows)))
    for v in out.values():
        v.sort()
    return out


def program_case(rng, idx, d, rep):
    zip_ = idx.startswith('z')
    g = prog.ProgGen(rng, nlib=rng.choice([0, 0, 1]), clang=0.2, nobj=rng.choice([1, 2, 3, 5, 8]),
                     asflags=rng.choice([[], ['-g'], ['-gdwarf-4'], ['-gdwarf-5']])).build()
    zipped = False
    for m in g.mods:
        if m.asm or m.kind == 'lib':
            continue
        m.flags = [f for f in m.flags if not f.startswith('-g')]
        m.flags += rng.choice(GCC if m.cc == 'gcc' else CLANG)
        if zip_ and (rng.random() < 0.5 or m.name == 'main'):
            m.flags += [rng.choice(['-gz', '-gz=zlib'])] + ([] if '-g' in m.flags else ['-g'])
            zipped = True
        rep.shape(m.cc, m.flags)
    g.emit(d)
    if not zip_ and rng.random() < 0.25:
        g.objects = prog.transform(rng, g.objects, d, rep.count, False)
    r = core.run(prog.ref_args(g.objects, g.archives, g.libfiles), d)
    if r.rc:
        raise RuntimeError('the reference linker fails: %s' % r.err[-2000:])
    cmd = c01.command(g, rng)
    res = core.dld(prog.dld_args(cmd), d)
    what = ' '.join(cmd)
    if zipped and res.rc:
        must_fail(res, d, rep, 'a link of compressed sections (%s)' % what, out='prog')
        rep.count('refused links of compressed sections')
        return
    data = linked(res, d, rep, 'a link of %s' % what, 'prog')
    if data is None:
        return
    rep.count('programs')
    with open(os.path.join(d, 'ref'), 'rb') as f:
        ref = Elf(f.read())
    try:
        e = Elf(data)
        ours, theirs = functions(e), functions(ref)
    except (Malformed, struct.error, IndexError, ValueError) as x:
        rep.bad('the output cannot be interpreted: %r' % x)
        return
    units = {m.name + ('.s' if m.asm else '.c') for m in g.mods if m.kind != 'lib'}
    names = {x.name for x in g.ents} | {'main'} | {'run_' + m.name for m in g.mods}
    mine = [k for k in theirs if k in ours and (k[0] in units or not k[0] and k[1] in names)]
    for k in mine:
        if ours[k].size != theirs[k].size:
            rep.bad('%s: %s has %d bytes instead of %d' % (what, k, ours[k].size, theirs[k].size))
            return
    tool = ['llvm-symbolizer', '-a', '--no-demangle']
    try:
        want = lines_of(d, 'ref', [(k, theirs[k]) for k in mine], tool)
        a, why = unit_lines(d, 'ref')
        fa = frames(d, 'ref')
    except RuntimeError as x:
        raise core.Inconclusive(str(x))
    if why:
        raise core.Inconclusive('the reference is not understood: %s' % why[:300])
    try:
        got = lines_of(d, 'prog', [(k, ours[k]) for k in mine], tool)
        b, why = unit_lines(d, 'prog')
        fb = frames(d, 'prog')
    except (RuntimeError, core.Inconclusive) as x:
        rep.bad('%s: %s' % (what, x))
        return
    bad = [k for k in want if got[k] != want[k]]
    rep.count('addresses looked up', len(want))
    rep.count('lines told', sum(':?' not in x and ':0' not in x for x in want.values()))
    if bad:
        rep.bad('%s: %d of %d addresses are told apart from the reference, such as %s: '
                '%r instead of %r' % (what, len(bad), len(want), bad[0], got[bad[0]],
                                      want[bad[0]]))
        return
    if why:
        rep.bad('%s: the debugging information has errors: %s' % (what, why[:300]))
        return
    # the reference has each type unit once only
    all_ = b
    b = {k: v for k, v in b.items() if k in a or not (k[1] > 1 and k[0].startswith('0x'))}
    if sorted(a) != sorted(b):
        rep.bad('%s: there is debugging information of %s instead of %s' % (
            what, sorted(set(b) - set(a)), sorted(set(a) - set(b))))
        return
    m = Map(ref, e)
    for k in a:
        if k[0].startswith('0x'):
            # one of several units has been chosen
            p = [compare_unit(m, k, type_unit(a[k]), type_unit(v), rep)
                 for j, v in all_.items() if j[0] == k[0]]
            p = None if None in p else p[0]
        else:
            p = compare_unit(m, k, a[k], b[k], rep)
        if p:
            rep.bad('%s: %s' % (what, p))
            return
        rep.count('units compared')
    for k in mine:
        x, y = fa.get(theirs[k].value), fb.get(ours[k].value)
        if x != y:
            rep.bad('%s: %s is unwound by %s instead of %s' % (what, k, str(y)[:200], str(x)[:200]))
            return
        rep.count('functions unwound', x is not None)
    rep.sample(what)


def main():
    c = core.Check(
        'C18', rule='random worlds with many sections that are not loaded (distinct by names, sizes '
        'and relocation types), and programs whose units have debugging information of many kinds '
        '(distinct by compiler and flags of the units), whose entries, '
        'lines and frames have to be those of the reference link, with our addresses',
        assumptions=['the tools that read debugging information are right about the reference'])
    T = core.THOROUGH
    c.run(world_case([oracle_unloaded, oracle_relocs], profile), 40000 if T else 3000,
          900 if T else 40, 'w')
    c.run(program_case, 4000 if T else 160, 1500 if T else 70, 'p')
    c.run(program_case, 300 if T else 16, 200 if T else 20, 'z')
    c.finish()
