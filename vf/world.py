"""A set of inputs for one link, what the rules say about it, and the oracles that compare this
with the executable the linker produces."""
import os
import struct

from . import core
from .elfr import Elf, Malformed
from .elfw import *

M64 = (1 << 64) - 1


class Archive:
    def __init__(self, name, members, as_lib=None):
        """members: [Obj]"""
        self.name, self.members = name, members

    def first_definer(self):
        """What the archive's index says: the first member to define each name."""
        out = {}
        for m in self.members:
            for s in m.syms:
                if s.bind != STB_LOCAL and s.defined:
                    out.setdefault(s.name, m)
        return out


class Lib:
    def __init__(self, name, syms, soname=None, hash_style='both', needed=()):
        self.name, self.syms, self.soname, self.hash_style, self.needed = \
            name, syms, soname, hash_style, needed
        self.as_needed = False
        self.repeated = False

    def exports(self):
        return {s.name: s for s in self.syms if s.defined and s.bind != STB_LOCAL}

    def needed_name(self):
        return self.soname or os.path.basename(self.name)


class World:
    def __init__(self):
        self.objs, self.archives, self.libs = [], [], []
        # the command line: Obj, Archive, Lib or a string
        self.cmd = []
        self.files = {}
        self.output = 'out'
        self.hash_style = 'both'
        self.interp = '/lib64/ld-linux-x86-64.so.2'
        self.notes = []

    # -- the reference semantics ---------------------------------------------------------------

    def resolve(self):
        """Which objects are linked, what every name refers to, and what is wrong with it."""
        linked = list(self.objs)
        definers = [(a, a.first_definer()) for a in self.archives]
        exports = [(l, l.exports()) for l in self.libs]
        lib_of = {}
        for l, e in exports:
            for n, s in e.items():
                lib_of.setdefault(n, (l, s))
        while True:
            repeated = self.repeated_sections(linked)
            defined = {s.name for o in linked for s in o.syms if s.bind != STB_LOCAL and s.defined
                       and s.sec not in repeated}
            wanted = []
            for o in linked:
                for s in o.syms:
                    if s.bind == STB_GLOBAL and not s.defined and s.name not in defined \
                            and s.name not in lib_of and s.name not in wanted:
                        wanted.append(s.name)
            wanted += self.left_by_libs(linked, defined)
            new = None
            for n in wanted:
                for a, d in definers:
                    if n in d and d[n] not in linked:
                        new = d[n]
                        break
                if new:
                    break
            if new is None:
                break
            linked.append(new)
        self.linked = linked
        self.binding = {}
        self.duplicate, self.undefined = [], []
        names = {}
        for o in linked:
            for s in o.syms:
                if s.bind != STB_LOCAL:
                    names.setdefault(s.name, []).append(s)
        for n, ss in names.items():
            strong = [s for s in ss if s.bind == STB_GLOBAL and s.sec not in (UND, COM) and
                      s.sec not in repeated]
            common = [s for s in ss if s.sec == COM]
            weak = [s for s in ss if s.bind in (STB_WEAK, STB_UNIQUE) and s.defined and s.sec != COM and
                    s.sec not in repeated]
            if len(strong) > 1:
                self.duplicate.append(n)
            if strong:
                self.binding[n] = ('def', strong[0])
            elif common:
                self.binding[n] = ('common', common[0], max(s.size for s in common),
                                   max(s.value for s in common))
            elif weak:
                self.binding[n] = ('def', weak[0])
            elif n in lib_of:
                self.binding[n] = ('import',) + lib_of[n]
            elif n in LINKER_DEFINED:
                self.binding[n] = ('linker', n)
            elif any(s.bind == STB_GLOBAL for s in ss):
                self.undefined.append(n)
                self.binding[n] = ('missing',)
            else:
                self.binding[n] = ('zero',)
        self.imports = {n: b for n, b in self.binding.items() if b[0] == 'import'}
        self.ok = not self.undefined and not self.duplicate
        return self.ok

    def left_by_libs(self, linked, defined):
        """What the libraries that are needed so far leave to the program."""
        exports = [l.exports() for l in self.libs]
        strong = {s.name for o in linked for s in o.syms if s.bind == STB_GLOBAL and not s.defined}
        out, given = [], set(defined)
        for l, e in zip(self.libs, exports):
            if not l.as_needed or any(n in e and n not in given for n in strong):
                out += [s.name for s in l.syms if not s.defined and s.bind == STB_GLOBAL]
            given.update(e)
        libs = {n for e in exports for n in e}
        return [n for n in dict.fromkeys(out) if n not in libs and n not in defined]

    @staticmethod
    def repeated_sections(linked):
        """Of COMDAT groups, the first one of each name counts."""
        repeated, groups = set(), set()
        for o in linked:
            for g in o.groups:
                if g.group_flags & 1 and g.signature() in groups:
                    repeated.update(g.secs)
                elif g.group_flags & 1:
                    groups.add(g.signature())
        return repeated

    # -- running the linker --------------------------------------------------------------------

    def emit(self, d, rng):
        def put(name, data):
            p = os.path.join(d, name)
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
        for o in self.objs:
            put(o.name, write_obj(o, rng))
        for a in self.archives:
            put(a.name, write_archive(
                [(os.path.basename(m.name), write_obj(m, rng),
                  [s.name for s in m.syms if s.bind != STB_LOCAL and s.defined])
                 for m in a.members], rng))
        for l in self.libs:
            put(l.name, write_so(l.syms, l.soname, l.needed, l.hash_style, rng))
        for name, data in self.files.items():
            put(name, data if isinstance(data, bytes) else data.encode())

    def args(self):
        return [c if isinstance(c, str) else c.name for c in self.cmd]

    def link(self, d, **kw):
        with open(os.path.join(d, 'cmd.txt'), 'w') as f:
            f.write('\n'.join(self.args()) + '\n')
        return core.dld(self.args(), d, **kw)


LINKER_DEFINED = {'_GLOBAL_OFFSET_TABLE_'} | {
    '__%s_array_%s' % (a, b) for a in ('preinit', 'init', 'fini') for b in ('start', 'end')}
SYNTHETIC = {'.symtab', '.strtab', '.shstrtab', '.dynsym', '.dynstr', '.interp', '.got', '.got.plt',
             '.plt', '.dynamic', '.rela.dyn', '.rela.plt', '.hash', '.gnu.hash', '.copyrel',
             '.eh_frame_hdr'}
ARRAYS = ('.init_array', '.fini_array')


def outname(name):
    """The output section for an input section."""
    for a in ARRAYS:
        if name.startswith(a + '.') and name[len(a) + 1:].isdigit():
            return a
    return name


def positions(w):
    """Where each object, or the archive that it is from, is among the inputs."""
    pos = {}
    for k, c in enumerate(w.cmd):
        if isinstance(c, Archive):
            for m in c.members:
                pos.setdefault(m, k)
        elif not isinstance(c, str):
            pos.setdefault(c, k)
    for o in w.linked:
        pos.setdefault(o, len(w.cmd))
    return pos


def init_prio(name):
    for a in ARRAYS:
        if name.startswith(a + '.') and name[len(a) + 1:].isdigit():
            return int(name[len(a) + 1:])
    return 1 << 32


class View:
    """The executable, and where the parts of the world have ended up in it."""

    def __init__(self, world, data):
        self.w = world
        self.elf = Elf(data)
        self.addr = {}
        self.problems = []
        self._locate()
        self.dyn_relocs()

    def _locate(self):
        e = self.elf
        index = {}
        for s in e.sh:
            if not s.flags & SHF_ALLOC and s.type not in (0, 8):
                index[s.name] = s
        for o in self.w.linked:
            for s in o.secs:
                if s.tag is None:
                    continue
                at, tag = s.tag
                if s.alloc:
                    found = e.find_all(tag)
                else:
                    out = index.get(outname(s.name))
                    found = []
                    if out is not None:
                        c = e.content(out)
                        i = c.find(tag)
                        while i >= 0:
                            found.append(out.addr + i)
                            i = c.find(tag, i + 1)
                if len(found) != 1:
                    self.problems.append('section %r is in the output %d times' % (s, len(found)))
                    if not found:
                        continue
                self.addr[s] = found[0] - at
        # those that are too small to be told apart, or have no content
        for o in self.w.linked:
            for s in o.secs:
                for r in s.relocs:
                    if r.type == R['R64'] and s in self.addr and s.alloc:
                        t = r.sym.sec if r.sym else None
                        if isinstance(t, Sec) and t.obj is o and t not in self.addr and \
                                (r.sym.bind == STB_LOCAL or
                                 self.w.binding.get(r.sym.name) == ('def', r.sym)):
                            v = e.u64(self.addr[s] + r.off)
                            if v is not None:
                                self.addr[t] = (v - r.addend - r.sym.value) & M64
        for o in self.w.linked:
            for s in o.secs:
                if s.alloc and s not in self.addr and s.tag is None and s.probed:
                    self.problems.append('section %r cannot be found' % s)

    def dyn_relocs(self):
        e = self.elf
        self.dynrel, self.jmprel = [], []
        self.dyn = []
        try:
            self.dyn, self.dyn_len = e.dynamic()
            d = dict(self.dyn)
            if 7 in d:
                self.dynrel = e.relas(d[7], d.get(8, 0))
            if 23 in d:
                self.jmprel = e.relas(d[23], d.get(2, 0))
            self.dynsyms = e.dynsym
        except Malformed as x:
            self.dynsyms = []
            self.dyn_problem = str(x)
        self.rel_at = {}
        for o, t, y, a in self.dynrel + self.jmprel:
            self.rel_at.setdefault(o, []).append((t, y, a))

    def dynname(self, i):
        return self.dynsyms[i].name if 0 <= i < len(self.dynsyms) else None

    def symtab_value(self, name):
        v = [s for s in self.elf.symtab if s.name == name and s.bind != 0]
        return v[0] if len(v) == 1 else None

    def value(self, sym):
        """The address that a reference to `sym` must see: (kind, value)."""
        if sym is None:
            return 'abs', 0
        b = ('def', sym) if sym.bind == STB_LOCAL else self.w.binding[sym.name]
        if b[0] == 'def':
            s = b[1]
            if s.sec == ABS:
                return 'abs', s.value & M64
            if s.sec == UND:
                return 'abs', 0
            if s.sec not in self.addr:
                return 'unknown', None
            return 'addr', (self.addr[s.sec] + s.value) & M64
        if b[0] == 'zero':
            return 'abs', 0
        if b[0] in ('common', 'linker'):
            y = self.symtab_value(sym.name)
            return ('addr', y.value) if y else ('unknown', None)
        if b[0] == 'import':
            return 'import', b
        return 'unknown', None


# -- oracles: each returns a list of messages -----------------------------------------------------


def reloc_mask(s):
    m = bytearray(len(s.data))
    for r in s.relocs:
        n = 8 if r.type in (R['R64'], R['PC64'], R['GOTOFF64']) else \
            0 if r.type == R['NONE'] else 4
        a = max(0, r.off - 3) if r.type in (R['GOTPCRELX'], R['REX_GOTPCRELX']) else r.off
        for i in range(a, min(len(m), r.off + n)):
            m[i] = 1
    return m


def commons(v):
    """Name, binding, symbol of the output's table"""
    for n, b in v.w.binding.items():
        if b[0] == 'common':
            y = v.symtab_value(n)
            if y:
                yield n, b, y


def common_blocks(v, rep):
    out = []
    for n, b, y in commons(v):
        rep.count('common blocks placed')
        m = v.elf.mem(y.value, b[2])
        if m is None or m.count(0) != len(m):
            out.append('common %s at %#x+%#x is not zeroed memory' % (n, y.value, b[2]))
        if y.value % max(b[3], 1):
            out.append('common %s at %#x is not aligned to %d' % (n, y.value, b[3]))
    return out


def oracle_commons(v, rep):
    """C04: the block of a common symbol is what each of the objects asked for, and its own"""
    out = common_blocks(v, rep)
    spans = [(y.value, y.value + b[2], 'common ' + n) for n, b, y in commons(v)]
    if spans:
        spans += [(v.addr[s], v.addr[s] + s.size, repr(s)) for o in v.w.linked for s in o.secs
                  if s.alloc and s in v.addr]
    hi = None
    for x in sorted(x for x in spans if x[1] > x[0]):
        if hi and x[0] < hi[1] and 'common ' in x[2] + hi[2]:
            out.append('%s at %#x-%#x and %s at %#x-%#x overlap' % (hi[2], hi[0], hi[1], x[2],
                                                                    x[0], x[1]))
        if hi is None or x[1] > hi[1]:
            hi = x
    return out


def oracle_layout(v, rep):
    """C03"""
    out = list(v.problems)
    e, w = v.elf, v.w
    spans = []
    for o in w.linked:
        for s in o.secs:
            if not s.alloc or s not in v.addr:
                continue
            a = v.addr[s]
            rep.count('sections placed')
            if s.align > 1 and a % s.align:
                out.append('%r is at %#x, which is not a multiple of its alignment %d'
                           % (s, a, s.align))
            if s.size:
                spans.append((a, a + s.size, repr(s)))
                m = e.mem(a, s.size)
                if m is None:
                    out.append('%r at %#x+%#x is not in memory' % (s, a, s.size))
                elif s.type == SHT_NOBITS:
                    rep.count('zero-initialised bytes compared', s.size)
                    if m.count(0) != len(m):
                        out.append('%r at %#x is not zero' % (s, a))
                else:
                    mask = reloc_mask(s)
                    rep.count('bytes compared', len(m) - sum(mask))
                    bad = [i for i in range(len(m)) if not mask[i] and m[i] != s.data[i]]
                    if bad:
                        out.append('%r at %#x: %d bytes differ, first at offset %#x'
                                   % (s, a, len(bad), bad[0]))
    for s in e.sh:
        if s.flags & SHF_ALLOC and s.size and s.name in SYNTHETIC:
            spans.append((s.addr, s.addr + s.size, 'table ' + s.name))
    base = [p for p in e.loads if p.off == 0]
    if base:
        spans.append((base[0].vaddr, base[0].vaddr + 64, 'the ELF header'))
        spans.append((base[0].vaddr + e.phoff, base[0].vaddr + e.phoff + 56 * e.phnum,
                      'the program headers'))
    out += common_blocks(v, rep)
    spans += [(y.value, y.value + b[2], 'common ' + n) for n, b, y in commons(v)]
    spans = sorted(x for x in spans if x[1] > x[0])
    hi = None
    for x in spans:
        if hi and x[0] < hi[1]:
            out.append('%s at %#x-%#x and %s at %#x-%#x overlap' % (hi[2], hi[0], hi[1], x[2],
                                                                    x[0], x[1]))
        if hi is None or x[1] > hi[1]:
            hi = x
    # gathering
    groups = {}
    pos = positions(w)
    for k, o in enumerate(w.linked):
        for j, s in enumerate(o.secs):
            if s.alloc and s in v.addr:
                groups.setdefault(outname(s.name), []).append(
                    (init_prio(s.name), pos[o], k, j, s))
    objs = {id(s) for o in w.objs for s in o.secs}
    for name, parts in groups.items():
        outs = e.sections(name)
        if len(outs) != 1:
            out.append('there are %d output sections named %r' % (len(outs), name))
            continue
        os_ = outs[0]
        flags = 0
        parts.sort(key=lambda x: x[:4])
        prev = None
        for p, q, k, j, s in parts:
            flags |= s.flags & 7
            a = v.addr[s]
            if not (os_.addr <= a and a + s.size <= os_.addr + os_.size):
                out.append('%r at %#x+%#x is not within its output section %r' % (s, a, s.size,
                                                                                  os_))
            # the order of the members of an archive among themselves is not specified
            if prev and (id(s) in objs or prev[1] != q) and prev[0] == p:
                rep.count('pairs in order')
                ps = prev[2]
                if a < v.addr[ps] + ps.size:
                    out.append('%r at %#x does not come after %r at %#x+%#x'
                               % (s, a, ps, v.addr[ps], ps.size))
            prev = (p, q, s)
        if os_.flags & flags & 7 != flags:
            out.append('output section %s allows %#x, its parts need %#x' % (name, os_.flags & 7,
                                                                             flags))
        seg = e.segment(os_.addr) if os_.size else None
        if seg is not None:
            need = 4 | (2 if flags & SHF_WRITE else 0) | (1 if flags & SHF_EXEC else 0)
            if seg.flags & need != need:
                out.append('section %s is in segment %r but needs permissions %d' % (name, seg,
                                                                                     need))
    return out


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def plt_stub(v, addr):
    """Decodes a PLT entry: the address of its slot, or None."""
    b = v.elf.mem(addr, 16)
    if b is None:
        return None
    o = 0
    if b[:4] == b'\xf3\x0f\x1e\xfa':
        o = 4
    if b[o:o + 1] == b'\xf2':
        o += 1
    if b[o:o + 2] != b'\xff\x25':
        return None
    return (addr + o + 6 + struct.unpack_from('<i', b, o + 2)[0]) & M64


def import_function_at(v, addr, name):
    """Is `addr` a linkage entry that leads to the imported function `name`? None or a problem."""
    slot = plt_stub(v, addr)
    if slot is None:
        return '%#x is not a linkage entry' % addr
    rels = v.rel_at.get(slot, [])
    if len(rels) != 1:
        return 'slot %#x of the linkage entry at %#x has %d dynamic relocations' % (slot, addr,
                                                                                   len(rels))
    t, y, a = rels[0]
    if t not in (R['JUMP_SLOT'], R['GLOB_DAT']) or v.dynname(y) != name or a != 0:
        return 'slot %#x has relocation %s against %r%+d instead of %r' % (
            slot, RNAME.get(t, t), v.dynname(y), a, name)
    return None


def import_address(v, name, is_obj):
    """The address that an imported symbol has for all: the dynamic symbol's value."""
    ys = [y for y in v.dynsyms if y.name == name]
    if len(ys) != 1:
        return None
    return ys[0].value or None


def check_field(v, s, r, rep):
    """Is the field of one relocation as the psABI wants it? None or a problem."""
    e = v.elf
    t = r.type
    if t == R['NONE']:
        return None
    if s not in v.addr:
        return None
    p = v.addr[s] + r.off
    if s.alloc:
        base = e.mem
    else:
        o = e.section(outname(s.name))
        c = e.content(o)

        def base(a, n):
            b = c[a - o.addr:a - o.addr + n]
            return b if len(b) == n else None
    kind, val = v.value(r.sym)
    if kind == 'unknown':
        return None
    wide = t in (R['R64'], R['PC64'], R['GOTOFF64'], R['SIZE64'])
    n = 8 if wide else 4
    b = base(p, n)
    if b is None:
        return 'field is not in the output'
    field = int.from_bytes(b, 'little')
    sfield = signed(field, 8 * n)
    rep.count('R_' + RNAME.get(t, str(t)))
    got_like = t in (R['GOTPCREL'], R['GOTPCRELX'], R['REX_GOTPCRELX'], R['GOT32'])
    name = r.sym.name if r.sym else ''
    if not got_like:
        if kind == 'import':
            isobj = val[2].type == STT_OBJECT
            rels = v.rel_at.get(p, [])
            if rels:
                if t == R['R64'] and len(rels) == 1 and rels[0][0] == R['R64'] and \
                        v.dynname(rels[0][1]) == name and rels[0][2] == r.addend:
                    return None
                return 'unexpected dynamic relocation %r' % (rels,)
            x = {R['R64']: field - r.addend, R['R32']: field - r.addend,
                 R['R32S']: sfield - r.addend, R['PC32']: sfield - r.addend + p,
                 R['PLT32']: sfield - r.addend + p}.get(t)
            if x is None:
                return None
            x &= M64
            if isobj:
                want = import_address(v, name, True)
                if want != x:
                    return 'refers to %#x, but imported object %s is at %r' % (
                        x, name, want and hex(want))
                return None
            bad = import_function_at(v, x, name)
            if bad:
                return bad
            if t != R['PLT32'] and r.form != 'call':
                want = import_address(v, name, False)
                if want != x:
                    return 'takes the address of imported function %s as %#x, others see %r' % (
                        name, x, want and hex(want))
            return None
        size = (v.w.binding[name][1].size if r.sym and r.sym.bind != STB_LOCAL and
                v.w.binding[name][0] == 'def' else r.sym.size if r.sym else 0)
        want = {R['R64']: val + r.addend, R['R32']: val + r.addend, R['R32S']: val + r.addend,
                R['PC32']: val + r.addend - p, R['PLT32']: val + r.addend - p,
                R['PC64']: val + r.addend - p, R['R16']: val + r.addend, R['R8']: val + r.addend,
                R['SIZE32']: size + r.addend, R['SIZE64']: size + r.addend}.get(t)
        if t in (R['R16'], R['R8'], R['PC16'], R['PC8']):
            return None
        if t == R['GOTOFF64']:
            want = val + r.addend - got_base(v)
        if t == R['GOTPC32']:
            want = got_base(v) + r.addend - p
        if want is None:
            return 'a link with relocation %s must fail' % RNAME.get(t, t)
        if t in (R['PC32'], R['PLT32'], R['R32S'], R['GOTPC32'], R['SIZE32']):
            have = sfield
            want = signed(want, 64)
        elif t == R['R32']:
            have = field
            want &= M64
        else:
            have = field
            want &= M64
        if have != want:
            if t in (R['PLT32'],) and plt_stub(v, (sfield - r.addend + p) & M64):
                slot = plt_stub(v, (sfield - r.addend + p) & M64)
                if not v.rel_at.get(slot) and e.u64(slot) == val:
                    return None
            return 'contains %#x instead of %#x' % (have & M64, want & M64)
        return None
    # through the GOT, or relaxed
    if t == R['GOT32']:
        slot = (sfield - r.addend + got_base(v)) & M64
        return check_slot(v, slot, kind, val, name, rep)
    pre = bytes(s.data[max(0, r.off - 3):r.off])
    new = base(v.addr[s] + max(0, r.off - 3), len(pre))
    if new is None:
        return 'instruction is not in the output'
    if new == pre:
        slot = (sfield - r.addend + p) & M64
        return check_slot(v, slot, kind, val, name, rep)
    rep.count('relaxed instructions')
    if kind == 'import':
        return 'relaxed although %s is imported' % name
    if t not in (R['GOTPCRELX'], R['REX_GOTPCRELX']):
        return 'instruction was changed'
    full = base(v.addr[s] + max(0, r.off - 3), len(pre) + 4)
    return check_relaxed(pre, full, p, val, r, t == R['REX_GOTPCRELX'])


def check_relaxed(pre, full, p, val, r, rex):
    """`full`: the instruction's new bytes up to the end of the field at p."""
    k = len(pre)
    disp = struct.unpack_from('<i', full, k)[0]
    new = full[:k]
    if r.addend == -4 and pre[-2:] in (b'\xff\x15', b'\xff\x25') and not rex:
        call = pre[-1] == 0x15
        if new[:-2] != pre[:-2]:
            return 'bytes before the instruction were changed'
        body = full[k - 2:]
        op = 0xe8 if call else 0xe9
        if body[0] == op and body[5] == 0x90:
            tgt = p - 2 + 5 + struct.unpack_from('<i', body, 1)[0]
        elif body[1] == op and body[0] in ((0x67,) if call else (0x90, 0x67)):
            tgt = p + 4 + disp
        else:
            return 'branch was relaxed to %s' % body.hex()
        return None if tgt & M64 == val else 'relaxed branch leads to %#x instead of %#x' % (
            tgt & M64, val)
    if r.addend != -4:
        return 'instruction with an immediate was relaxed'
    opc, modrm = pre[-2], pre[-1]
    reg = modrm >> 3 & 7
    if rex:
        w, rr = pre[-3] >> 3 & 1, pre[-3] >> 2 & 1
        if new[:-3] != pre[:-3]:
            return 'bytes before the instruction were changed'
        nrex = new[-3]
        if nrex & 0xf8 != pre[-3] & 0xf8:
            return 'REX prefix became %#x' % nrex
    else:
        w, rr = 0, 0
        if new[:-2] != pre[:-2]:
            return 'bytes before the instruction were changed'
        nrex = 0x40
    nopc, nmod = new[-2], new[-1]
    if opc == 0x8b and nopc == 0x8d:
        if nmod != modrm or (rex and (nrex & 0xc) != (pre[-3] & 0xc)):
            return 'lea has another operand'
        tgt = p + 4 + disp
        return None if tgt & M64 == val else 'lea yields %#x instead of %#x' % (tgt & M64, val)
    if opc == 0x8b and nopc == 0xc7 and nmod == 0xc0 | reg and (nrex & 1) == rr:
        pass
    elif opc == 0x85 and nopc == 0xf7 and nmod == 0xc0 | reg and (nrex & 1) == rr:
        pass
    elif opc & 0xc7 == 0x03 and nopc == 0x81 and nmod == 0xc0 | (opc & 0x38) | reg and \
            (nrex & 1) == rr:
        pass
    else:
        return 'instruction was relaxed to %s' % full.hex()
    have = disp & (M64 if w else 0xffffffff)
    want = val & (M64 if w else 0xffffffff)
    return None if have == want else 'immediate is %#x instead of %#x' % (have, want)


def got_base(v):
    y = v.symtab_value('_GLOBAL_OFFSET_TABLE_')
    if y:
        return y.value
    return dict(v.dyn).get(3, 0)


def check_slot(v, slot, kind, val, name, rep):
    """Does the GOT slot lead to the symbol?"""
    e = v.elf
    if slot % 8:
        return 'GOT slot %#x is not aligned' % slot
    g = [s for s in e.sh if s.name in ('.got', '.got.plt') and s.addr <= slot < s.addr + s.size]
    if not g:
        return 'GOT slot %#x is not in the GOT' % slot
    rep.count('GOT slots read')
    rels = v.rel_at.get(slot, [])
    if kind == 'import':
        if len(rels) != 1 or rels[0][0] not in (R['GLOB_DAT'], R['R64']) or rels[0][2] != 0 or \
                v.dynname(rels[0][1]) != name:
            return 'GOT slot %#x for imported %s has relocations %r' % (
                slot, name, [(RNAME.get(t, t), v.dynname(y), a) for t, y, a in rels])
        return None
    if rels:
        return 'GOT slot %#x for %s has relocations %r' % (slot, name, rels)
    have = e.u64(slot)
    return None if have == val else 'GOT slot %#x contains %r instead of %#x' % (
        slot, have and hex(have), val)


def oracle_relocs(v, rep, only=None):
    """C02: every relocated field"""
    out = []
    for o in v.w.linked:
        for s in o.secs:
            for r in s.relocs:
                if only and not only(o, s, r):
                    continue
                bad = check_field(v, s, r, rep)
                rep.count('relocations checked')
                if bad:
                    out.append('%r in %r: %s' % (r, s, bad))
    return out


def oracle_binding(v, rep):
    """C04: references by name lead to the selected definition, seen through R_X86_64_64"""
    out = []
    for o in v.w.linked:
        for s in o.secs:
            for r in s.relocs:
                if r.type != R['R64'] or not r.sym or r.sym.type == STT_SECTION or s not in v.addr \
                        or not s.alloc:
                    continue
                kind, val = v.value(r.sym)
                b = ('local',) if r.sym.bind == STB_LOCAL else v.w.binding[r.sym.name]
                rep.count('references to ' + b[0])
                if kind in ('unknown', 'import'):
                    continue
                have = v.elf.u64(v.addr[s] + r.off)
                if have != (val + r.addend) & M64:
                    cands = ['%r@%#x' % (x.obj.name, v.addr.get(x.sec, 0) + x.value)
                             for p in v.w.linked for x in p.syms
                             if x.name == r.sym.name and isinstance(x.sec, Sec)]
                    out.append('%s refers to %s at %r, but %#x is selected (%s; candidates %s)'
                               % (o.name, r.sym.name, have and hex(have - r.addend & M64), val, b,
                                  cands))
    return out


def oracle_symtab(v, rep):
    """C07"""
    out = []
    e, w = v.elf, v.w
    t = e.by_type(2)
    if len(t) != 1:
        return ['there are %d symbol tables' % len(t)]
    syms = e.symtab
    first = t[0].info
    if not syms or (syms[0].name, syms[0].value, syms[0].shndx, syms[0].bind) != ('', 0, 0, 0):
        out.append('the first symbol is %r' % (syms and syms[0]))
    for i, y in enumerate(syms):
        if (y.bind == 0) != (i < first):
            out.append('symbol %d %r is on the wrong side of sh_info %d' % (i, y, first))
            break
    glob, locs = {}, {}
    for y in syms:
        (locs if y.bind == 0 else glob).setdefault(y.raw, []).append(y)

    def expect(s, where):
        """(shndx or None, value or None)"""
        if s.sec == ABS:
            return SHN_ABS, s.value & M64
        if s.sec == UND:
            return 0, None
        o = e.sections(outname(s.sec.name))
        sh = o[0].index if len(o) == 1 else None
        a = v.addr.get(s.sec)
        if a is None and o:
            a = None
        return sh, None if a is None else (a + s.value) & M64

    def same(y, s, bind, typ, size, exp, what):
        sh, val = exp
        if y.bind != bind or y.type != typ:
            out.append('%s has binding %d and type %d instead of %d and %d' % (what, y.bind, y.type,
                                                                              bind, typ))
        if y.size != size:
            out.append('%s has size %d instead of %d' % (what, y.size, size))
        if sh is not None and y.shndx != sh:
            out.append('%s is in section %d instead of %d' % (what, y.shndx, sh))
        if val is not None and y.value != val:
            out.append('%s has value %#x instead of %#x' % (what, y.value, val))
    defined = set()
    for n, b in w.binding.items():
        ys = glob.get(n.encode(), [])
        if b[0] == 'def':
            s = b[1]
            defined.add(n)
            rep.count('global symbols compared')
            if len(ys) != 1:
                out.append('there are %d entries for global %r' % (len(ys), n))
                continue
            same(ys[0], s, s.bind, s.type, s.size, expect(s, n), 'symbol %r' % n)
        elif b[0] == 'common':
            rep.count('common symbols compared')
            if len(ys) != 1:
                out.append('there are %d entries for common %r' % (len(ys), n))
                continue
            y = ys[0]
            if y.size != b[2] or y.bind == 0 or y.shndx in (0, SHN_COMMON, SHN_ABS) or \
                    y.shndx >= e.shnum or not (
                        e.sh[y.shndx].addr <= y.value and
                        y.value + y.size <= e.sh[y.shndx].addr + e.sh[y.shndx].size):
                out.append('common %r became %r' % (n, y))
        else:
            if len(ys) > 1:
                out.append('there are %d entries for %r' % (len(ys), n))
    wanted = {}
    for o in w.linked:
        for s in o.syms:
            if s.bind == STB_LOCAL and s.name and s.type != STT_SECTION and \
                    s.sec not in o.groups:
                sh, val = expect(s, s.name)
                wanted.setdefault(s.name.encode(), []).append((s, sh, val))
    for n, lst in wanted.items():
        ys = list(locs.get(n, []))
        if len(ys) != len(lst):
            out.append('there are %d entries for local %r of %d objects' % (len(ys), n, len(lst)))
            continue
        # first those that only one entry can be
        for s, sh, val in sorted(lst, key=lambda x: (x[2] is None, x[1] is None)):
            rep.count('local symbols compared')
            m = [y for y in ys if y.type == s.type and y.size == s.size and
                 (sh is None or y.shndx == sh) and (val is None or y.value == val)]
            if not m:
                out.append('no entry for local %r of %s (%s %s): %r' % (
                    n, s.obj.name, sh, val and hex(val), ys))
            else:
                ys.remove(m[0])
    for n, ys in glob.items():
        name = n.decode('utf-8', 'replace')
        if name in w.binding or name in LINKER_DEFINED:
            continue
        out.append('nobody has asked for symbol %r' % ys[0])
    for n, ys in locs.items():
        if n and n not in wanted and any(y.type != STT_SECTION for y in ys):
            out.append('nobody has asked for local symbol %r' % ys[0])
    return out


def lookup_sysv(e, sec, dynsyms, name):
    c = e.content(sec)
    nb, nc = struct.unpack_from('<II', c)
    if nb == 0:
        raise Malformed('no buckets')
    if len(c) < 4 * (2 + nb + nc):
        raise Malformed('.hash is too short')
    i = struct.unpack_from('<I', c, 8 + 4 * (elf_hash(name) % nb))[0]
    steps = 0
    while i:
        steps += 1
        if steps > nc + 1:
            raise Malformed('chain of %r does not end' % name)
        if i >= nc or i >= len(dynsyms):
            raise Malformed('chain of %r leads to symbol %d' % (name, i))
        if dynsyms[i].name == name:
            return i
        i = struct.unpack_from('<I', c, 8 + 4 * nb + 4 * i)[0]
    return None


def lookup_gnu(e, sec, dynsyms, name):
    c = e.content(sec)
    nb, off, nbl, shift = struct.unpack_from('<IIII', c)
    if nb == 0 or nbl == 0 or nbl & nbl - 1:
        raise Malformed('%d buckets, %d Bloom words' % (nb, nbl))
    h = gnu_hash(name)
    if len(c) < 16 + 8 * nbl + 4 * nb:
        raise Malformed('.gnu.hash is too short')
    word = struct.unpack_from('<Q', c, 16 + 8 * (h // 64 % nbl))[0]
    if not (word >> (h % 64) & 1 and word >> ((h >> shift) % 64) & 1):
        return None
    i = struct.unpack_from('<I', c, 16 + 8 * nbl + 4 * (h % nb))[0]
    if i == 0:
        return None
    if i < off:
        raise Malformed('bucket of %r leads to symbol %d' % (name, i))
    while True:
        at = 16 + 8 * nbl + 4 * nb + 4 * (i - off)
        if at + 4 > len(c) or i >= len(dynsyms):
            raise Malformed('chain of %r does not end' % name)
        ch = struct.unpack_from('<I', c, at)[0]
        if ch | 1 == h | 1 and dynsyms[i].name == name:
            return i
        if ch & 1:
            return None
        i += 1


def oracle_hash(v, rep, absent=()):
    """C08"""
    out = []
    e, w = v.elf, v.w
    ys = e.dynsym
    sysv, gnu = e.by_type(SHT_HASH), e.by_type(SHT_GNU_HASH)
    want = {'sysv': (1, 0), 'gnu': (0, 1), 'both': (1, 1)}[w.hash_style]
    if (len(sysv), len(gnu)) != want:
        out.append('hash style %s: %d SysV and %d GNU tables' % (w.hash_style, len(sysv), len(gnu)))
    d = [t for t, _ in v.dyn]
    if (d.count(4), d.count(0x6ffffef5)) != want:
        out.append('hash style %s: %d DT_HASH and %d DT_GNU_HASH' % (
            w.hash_style, d.count(4), d.count(0x6ffffef5)))
    dd = dict(v.dyn)
    for lst, tag in ((sysv, 4), (gnu, 0x6ffffef5)):
        if lst and dd.get(tag) != lst[0].addr:
            out.append('the dynamic section announces another hash table')
    names = {}
    for y in ys[1:]:
        names.setdefault(y.name, []).append(y.index)
    for n, idx in names.items():
        if len(idx) > 1:
            out.append('%d dynamic symbols named %r' % (len(idx), n))
    for n in w.imports:
        if n not in names:
            out.append('%r is not a dynamic symbol' % n)
    absent = [n for n in absent if n not in names]
    for sec, look in [(s, lookup_sysv) for s in sysv] + [(s, lookup_gnu) for s in gnu]:
        kind = look.__name__
        c = e.content(sec)
        if look is lookup_sysv:
            if len(c) >= 8 and struct.unpack_from('<I', c, 4)[0] != len(ys):
                out.append('.hash covers %d of %d symbols' % (struct.unpack_from('<I', c, 4)[0],
                                                              len(ys)))
        for n, idx in names.items():
            rep.count(kind + ' hits')
            try:
                got = look(e, sec, ys, n)
            except (Malformed, struct.error) as x:
                got = 'failure: %s' % x
            if got not in idx:
                out.append('%s of %r finds %r instead of %r' % (kind, n, got, idx))
        for n in absent:
            rep.count(kind + ' misses')
            try:
                got = look(e, sec, ys, n)
            except (Malformed, struct.error) as x:
                got = 'failure: %s' % x
            if got is not None:
                out.append('%s of the absent %r finds %r' % (kind, n, got))
    return out


DT = dict(NEEDED=1, PLTRELSZ=2, PLTGOT=3, HASH=4, STRTAB=5, SYMTAB=6, RELA=7, RELASZ=8, RELAENT=9,
          STRSZ=10, SYMENT=11, INIT=12, FINI=13, SONAME=14, PLTREL=20, JMPREL=23, INIT_ARRAY=25,
          FINI_ARRAY=26, INIT_ARRAYSZ=27, FINI_ARRAYSZ=28, PREINIT_ARRAY=32, PREINIT_ARRAYSZ=33,
          GNU_HASH=0x6ffffef5, RELACOUNT=0x6ffffff9)


def oracle_dynamic(v, rep, needed=None):
    """C09"""
    out = []
    e, w = v.elf, v.w
    d, length = e.dynamic()
    sec = e.by_type(SHT_DYNAMIC)
    ph = [p for p in e.ph if p.type == 2][0]
    if len(sec) != 1:
        out.append('%d dynamic sections' % len(sec))
    else:
        s = sec[0]
        if (ph.vaddr, ph.memsz, ph.off, ph.filesz) != (s.addr, s.size, s.off, s.size):
            out.append('PT_DYNAMIC %r is not the dynamic section %r' % (ph, s))
        if s.ent != 16:
            out.append('entries of .dynamic have size %d' % s.ent)
        if s.link >= e.shnum or e.sh[s.link].addr != dict(d).get(DT['STRTAB']):
            out.append('.dynamic is not linked to its strings')
    tags = {}
    for t, x in d:
        tags.setdefault(t, []).append(x)
        rep.count('dynamic entries')
    for t, xs in tags.items():
        if t != DT['NEEDED'] and len(xs) > 1:
            out.append('tag %#x is given %d times' % (t, len(xs)))

    def table(name_or_type, tag, size_tag=None, ent=None, required=True):
        ss = [s for s in e.sh if (s.name == name_or_type or s.type == name_or_type) and
              s.flags & SHF_ALLOC]
        a = tags.get(DT[tag], [None])[0]
        if not ss:
            if a is not None and size_tag and tags.get(DT[size_tag], [0])[0] != 0:
                out.append('DT_%s announces a table that is not there' % tag)
            return
        s = ss[0]
        if a is None:
            if s.size or required:
                out.append('DT_%s is missing' % tag)
            return
        if a != s.addr:
            out.append('DT_%s is %#x, but %s is at %#x' % (tag, a, s.name, s.addr))
        if size_tag:
            z = tags.get(DT[size_tag], [None])[0]
            if z != s.size:
                out.append('DT_%s is %r, but %s has %d bytes' % (size_tag, z, s.name, s.size))
        if ent:
            z = tags.get(DT[ent[0]], [None])[0]
            if z != ent[1]:
                out.append('DT_%s is %r instead of %d' % (ent[0], z, ent[1]))
    table(SHT_DYNSYM, 'SYMTAB', ent=('SYMENT', 24))
    strs = [s for s in e.sh if s.type == SHT_DYNSYM]
    if strs and strs[0].link < e.shnum:
        st = e.sh[strs[0].link]
        if tags.get(DT['STRTAB'], [None])[0] != st.addr or not st.flags & SHF_ALLOC:
            out.append('DT_STRTAB is %r, the names of .dynsym are at %#x' % (
                tags.get(DT['STRTAB']), st.addr))
        if tags.get(DT['STRSZ'], [None])[0] != st.size:
            out.append('DT_STRSZ is %r, .dynstr has %d bytes' % (tags.get(DT['STRSZ']), st.size))
        m = e.mem(st.addr, st.size)
        if m is None or m != e.content(st) or (m and (m[0] or m[-1])):
            out.append('.dynstr is not a string table in memory')
    table('.rela.dyn', 'RELA', 'RELASZ', ('RELAENT', 24), required=False)
    table('.rela.plt', 'JMPREL', 'PLTRELSZ', ('PLTREL', 7), required=False)
    table('.got.plt', 'PLTGOT', required=False)
    if w.hash_style in ('sysv', 'both'):
        table(SHT_HASH, 'HASH')
    if w.hash_style in ('gnu', 'both'):
        table(SHT_GNU_HASH, 'GNU_HASH')
    if DT['RELACOUNT'] in tags:
        n = 0
        for o, t, y, a in v.dynrel:
            if t != R['RELATIVE']:
                break
            n += 1
        if tags[DT['RELACOUNT']][0] > n:
            out.append('DT_RELACOUNT is %d, there are %d' % (tags[DT['RELACOUNT']][0], n))
    for name, a, z in (('.preinit_array', 'PREINIT_ARRAY', 'PREINIT_ARRAYSZ'),
                       ('.init_array', 'INIT_ARRAY', 'INIT_ARRAYSZ'),
                       ('.fini_array', 'FINI_ARRAY', 'FINI_ARRAYSZ'),):
        table(name, a, z)
        if not e.section(name) and DT[a] in tags and tags.get(DT[z], [0])[0]:
            out.append('DT_%s without %s' % (a, name))
    table('.init', 'INIT')
    table('.fini', 'FINI')
    known = set(DT.values()) | {21, 24, 30, 0x6ffffffb, 0x6ffffff0, 0x6ffffffe, 0x6fffffff}
    # table sizes the relocation entries refer to
    for o, t, y, a in v.dynrel + v.jmprel:
        rep.count('dynamic relocations')
        if y >= len(v.dynsyms):
            out.append('dynamic relocation with symbol %d of %d' % (y, len(v.dynsyms)))
        if e.mem(o, 8) is None and t != R['COPY']:
            out.append('dynamic relocation at %#x, which is not in memory' % o)
        elif t != R['COPY'] and not e.segment(o).flags & 2:
            out.append('dynamic relocation at %#x, which is not writable' % o)
    for o, t, y, a in v.jmprel:
        if t not in (R['JUMP_SLOT'], R['IRELATIVE']):
            out.append('%s among the PLT relocations' % RNAME.get(t, t))
    # the libraries
    st = [s for s in e.sh if s.addr == tags.get(DT['STRTAB'], [None])[0] and s.type == SHT_STRTAB]
    if st:
        have = [e.string(st[0], o).decode('utf-8', 'replace') for o in tags.get(DT['NEEDED'], [])]
        want = needed if needed is not None else expected_needed(w)
        rep.count('needed entries', len(have))
        if sorted(have) != sorted(set(want)):
            out.append('DT_NEEDED are %r instead of %r' % (have, want))
        elif have != list(dict.fromkeys(want)) and not any(l.repeated for l in w.libs):
            out.append('DT_NEEDED are in the order %r instead of %r' % (have, want))
    else:
        out.append('no string table at DT_STRTAB')
    return out


def expected_needed(w):
    used = {id(b[1]) for b in w.imports.values()}
    out = []
    for l in w.libs:
        if not l.as_needed or id(l) in used:
            out.append(l.needed_name())
    return list(dict.fromkeys(out))


def oracle_imports(v, rep):
    """C10, as far as the file tells"""
    out = []
    e, w = v.elf, v.w
    d = dict(v.dyn)
    # linkage entries, copies, and who refers to them
    slots = {}
    for o, t, y, a in v.jmprel:
        n = v.dynname(y)
        rep.count('jump slots')
        if t != R['JUMP_SLOT']:
            continue
        if o in slots:
            out.append('slot %#x has two relocations' % o)
        slots[o] = n
        if n not in w.imports:
            out.append('jump slot for %r, which is not imported' % n)
    copies = {}
    owners = {}
    objects = {(id(b[1]), b[2].addr): b[1] for b in w.imports.values()
               if b[2].type == STT_OBJECT}
    for o, t, y, a in v.dynrel:
        if t == R['COPY']:
            n = v.dynname(y)
            rep.count('copy relocations')
            if n in copies:
                out.append('two copies of %r' % n)
            copies[n] = o
            if n in w.imports:
                l, s = w.imports[n][1:]
            else:
                # another name that the library has for an imported object
                found = [(l, x) for l in w.libs for x in l.syms
                         if x.name == n and x.defined and x.bind and
                         w.binding.get(n, ['none'])[0] == 'none' and
                         objects.get((id(l), x.addr)) is l] or [(None, None)]
                l, s = found[0]
                rep.count('copies by other names')
            if s is None or s.type != STT_OBJECT:
                out.append('copy of %r, which is not an imported object' % n)
                continue
            if (id(l), s.addr) in owners:
                out.append('%s is copied as %s as well' % (owners[id(l), s.addr][1], n))
            owners[id(l), s.addr] = (l, n, s, o)
            ys = v.dynsyms[y]
            if ys.value != o or ys.shndx == 0:
                out.append('dynamic symbol %r is not where its copy is, %#x' % (ys, o))
            if ys.size != s.size:
                out.append('copied object %s has %d bytes, the library says %d' % (n, ys.size,
                                                                                 s.size))
            m = e.mem(o, max(s.size, 1) if s.size else 1)
            seg = e.segment(o)
            if s.size and (m is None or seg is None or not seg.flags & 2):
                out.append('copied object %s at %#x+%#x is not in writable memory' % (n, o, s.size))
            al = copy_alignment(s)
            if o % al:
                out.append('copied object %s at %#x is not aligned to %d' % (n, o, al))
    # all names of a copied object lead to the copy
    aliases = {}
    for l, n, s, o in owners.values():
        for x in l.syms:
            if not x.defined or x.bind == STB_LOCAL or x is s or x.addr != s.addr or \
                    x.type != STT_OBJECT:
                continue
            b = w.binding.get(x.name, ['none'])
            if b[0] not in ('none', 'import') or (b[0] == 'import' and b[1] is not l) or \
                    {q.name: q for q in l.syms if q.defined and q.bind}.get(x.name) is not x:
                continue
            rep.count('other names of copied objects')
            if b[0] == 'none' and any(k is not l and x.name in k.exports() for k in w.libs):
                continue
            if x.name in copies:
                continue
            if x.size != s.size:
                rep.count('other names of another size')
            if x.size > s.size:
                out.append('%d bytes of %s are copied, but %s has %d' % (s.size, n, x.name, x.size))
            aliases[x.name] = o
            ys = [y for y in v.dynsyms if y.name == x.name]
            if len(ys) != 1 or ys[0].value != o or ys[0].shndx == 0 or ys[0].size != x.size:
                out.append('%s is copied to %#x, but its other name is %r' % (n, o, ys))
    spans = sorted((o, o + s.size, n) for l, n, s, o in owners.values())
    for x, y in zip(spans, spans[1:]):
        if y[0] < x[1]:
            out.append('copied objects %s and %s overlap' % (x[2], y[2]))
    placed = sorted([(v.addr[s], v.addr[s] + s.size, repr(s)) for o in w.linked for s in o.secs
                     if s.alloc and s.size and s in v.addr] +
                    [(s.addr, s.addr + s.size, s.name) for s in e.sh
                     if s.flags & SHF_ALLOC and s.size and s.name in SYNTHETIC and
                     s.name != '.copyrel'])
    for a, b, n in spans:
        for x, y, what in placed:
            if a < y and x < b:
                out.append('copied object %s at %#x overlaps %s at %#x' % (n, a, what, x))
    got = [s for s in e.sh if s.name == '.got.plt']
    for slot, n in slots.items():
        if not any(s.addr + 24 <= slot <= s.addr + s.size - 8 for s in got) or slot % 8:
            out.append('slot %#x of %r is not in .got.plt' % (slot, n))
    # lazy binding: the slot leads back into the entry, which pushes its own index
    used = {}
    for o in w.linked:
        for s in o.secs:
            for r in s.relocs:
                if s not in v.addr or not r.sym or r.sym.bind == STB_LOCAL:
                    continue
                b = w.binding.get(r.sym.name)
                if b[0] != 'import' or b[2].type == STT_OBJECT:
                    continue
                if r.type in (R['PLT32'], R['PC32']):
                    m = e.mem(v.addr[s] + r.off, 4)
                    if m:
                        used[(v.addr[s] + r.off - r.addend + struct.unpack('<i', m)[0]) & M64] = \
                            r.sym.name
                elif r.type == R['R64']:
                    x = e.u64(v.addr[s] + r.off)
                    if x is not None and not v.rel_at.get(v.addr[s] + r.off):
                        used[(x - r.addend) & M64] = r.sym.name
    for addr, n in used.items():
        rep.count('linkage entries followed')
        bad = import_function_at(v, addr, n) or lazy_path(v, addr, d)
        if bad:
            out.append('call of %s: %s' % (n, bad))
    # everything that is referenced must be provided for
    out += oracle_relocs(v, rep, lambda o, s, r: r.sym is not None and r.sym.bind != STB_LOCAL and
                         w.binding[r.sym.name][0] == 'import')
    # what the program defines for its libraries
    needed = set(expected_needed(w))
    hidden = {s.name for o in w.linked for s in o.syms if s.bind != STB_LOCAL and s.other & 3 in (1, 2)}
    for n in hidden:
        if w.binding.get(n, [''])[0] in ('def', 'common'):
            rep.count('hidden symbols')
            ys = [y for y in v.dynsyms if y.name == n and y.shndx]
            if ys:
                out.append('%s is hidden, but libraries see %r' % (n, ys))
    for l in w.libs:
        if l.needed_name() not in needed:
            continue
        for x in l.syms:
            b = w.binding.get(x.name, [''])
            if x.bind == STB_LOCAL or b[0] not in ('def', 'common') or x.name in hidden:
                continue
            t = v.symtab_value(x.name)
            ys = [y for y in v.dynsyms if y.name == x.name]
            rep.count('symbols exported to libraries')
            if t is None:
                continue
            if len(ys) != 1 or ys[0].value != t.value or ys[0].shndx != t.shndx or \
                    ys[0].bind == 0:
                out.append('%r is mentioned by %s but exported as %r' % (t, l.name, ys))
            elif (ys[0].type, ys[0].size) != (t.type, t.size):
                out.append('%r has another type or size as exported to %s: %r' % (t, l.name, ys))
    for n, b in w.imports.items():
        ys = [y for y in v.dynsyms if y.name == n]
        rep.count('imported symbols')
        if len(ys) != 1:
            out.append('%d dynamic symbols for imported %s' % (len(ys), n))
            continue
        y = ys[0]
        if b[2].type != STT_OBJECT and y.shndx != 0:
            out.append('imported function %r claims to be defined' % y)
        if b[2].type == STT_OBJECT and (y.shndx == 0) != (
                n not in copies and n not in aliases):
            out.append('imported object %r and its copy at %r disagree' % (y, copies.get(n)))
        if y.bind == 0:
            out.append('imported symbol %r is local' % y)
    return out


def copy_alignment(s):
    v = getattr(s, 'addr', 0)
    return min(max(s.align, 1), v & -v if v else 4096)


def lazy_path(v, addr, d):
    e = v.elf
    slot = plt_stub(v, addr)
    b = e.mem(addr, 16)
    if b[:2] != b'\xff\x25':
        return None
    rels = [i for i, (o, t, y, a) in enumerate(v.jmprel) if o == slot]
    if not rels:
        # a GLOB_DAT slot needs no lazy path
        return None
    if e.u64(slot) != addr + 6:
        return 'slot %#x initially leads to %r instead of %#x' % (slot, e.u64(slot), addr + 6)
    if b[6] != 0x68 or b[11] != 0xe9:
        return 'linkage entry is %s' % b.hex()
    if struct.unpack_from('<I', b, 7)[0] != rels[0]:
        return 'linkage entry pushes %d instead of %d' % (struct.unpack_from('<I', b, 7)[0],
                                                          rels[0])
    p0 = addr + 16 + struct.unpack_from('<i', b, 12)[0]
    h = e.mem(p0, 16)
    g = d.get(3)
    if h is None or h[:2] != b'\xff\x35' or h[6:8] != b'\xff\x25':
        return 'PLT header at %#x is %s' % (p0, h and h.hex())
    if p0 + 6 + struct.unpack_from('<i', h, 2)[0] != g + 8 or \
            p0 + 12 + struct.unpack_from('<i', h, 8)[0] != g + 16:
        return 'PLT header does not use the slots after DT_PLTGOT'
    return None


def oracle_elf(v, rep):
    """C06"""
    out = []
    e, w = v.elf, v.w
    data = e.data
    if e.ident[:7] != b'\x7fELF\x02\x01\x01' or e.type != 2 or e.machine != 62 or e.version != 1:
        out.append('not an x86-64 ET_EXEC: %s type %d machine %d' % (e.ident.hex(), e.type,
                                                                    e.machine))
    if e.ehsize != 64:
        out.append('e_ehsize is %d' % e.ehsize)
    # regions of the file
    reg = [(0, 64, 'ELF header'), (e.phoff, e.phoff + 56 * e.phnum, 'program headers'),
           (e.shoff, e.shoff + 64 * e.shnum, 'section headers')]
    for s in e.sh[1:]:
        if s.type != SHT_NOBITS and s.type != 0:
            if s.off + s.size > len(data):
                out.append('section %r is outside of the file' % s)
            if s.size:
                reg.append((s.off, s.off + s.size, 'section ' + s.name))
        rep.count('sections checked')
    reg.sort()
    for x, y in zip(reg, reg[1:]):
        if y[0] < x[1]:
            out.append('%s at %#x-%#x and %s at %#x overlap in the file' % (x[2], x[0], x[1], y[2],
                                                                          y[0]))
    s0 = e.sh[0]
    if (s0.type, s0.addr, s0.off, s0.flags, s0.name_off) != (0, 0, 0, 0, 0):
        out.append('section 0 is %r' % s0)
    if e.sh[e.shstrndx].type != SHT_STRTAB:
        out.append('e_shstrndx leads to %r' % e.sh[e.shstrndx])
    for s in e.sh[1:]:
        if s.type == SHT_STRTAB:
            c = e.content(s)
            if c and (c[0] or c[-1]):
                out.append('string table %r is not delimited by zeroes' % s)
        if s.align & (s.align - 1) if s.align else False:
            out.append('alignment of %r is %d' % (s, s.align))
        if s.flags & SHF_ALLOC and s.align > 1 and s.addr % s.align:
            out.append('%r is not aligned to %d' % (s, s.align))
        if s.type in (SHT_SYMTAB, SHT_DYNSYM) and (s.link >= e.shnum or
                                                   e.sh[s.link].type != SHT_STRTAB):
            out.append('%r has no string table' % s)
        if s.type in (SHT_HASH, SHT_GNU_HASH, SHT_RELA) and s.flags & SHF_ALLOC and (
                s.link >= e.shnum or e.sh[s.link].type != SHT_DYNSYM):
            out.append('%r has no symbol table' % s)
        # (the input's indices of sections mean nothing here)
        if s.type not in (SHT_SYMTAB, SHT_DYNSYM, SHT_HASH, SHT_GNU_HASH, SHT_RELA, SHT_DYNAMIC):
            ok = {outname(q.link.name) for o in w.linked for q in o.secs
                  if q.link and outname(q.name) == s.name} if s.flags & SHF_LINK_ORDER else set()
            if s.link and (s.link >= e.shnum or e.sh[s.link].name not in ok):
                out.append('%r refers to section %d, its parts to %s' % (s, s.link, sorted(ok)))
            if s.info:
                out.append('%r has information %d' % (s, s.info))
        if s.flags & SHF_GROUP:
            out.append('%r says that it is in a group, but there are none' % s)
    # segments
    prev = None
    for p in e.loads:
        rep.count('segments checked')
        if p.filesz > p.memsz:
            out.append('%r is bigger in the file' % p)
        if p.off + p.filesz > len(data):
            out.append('%r is outside of the file' % p)
        if (p.vaddr - p.off) % 4096 or p.align < 4096 or p.align & p.align - 1 or \
                (p.vaddr - p.off) % p.align:
            out.append('%r is not congruent to its offset (alignment %d)' % (p, p.align))
        if p.vaddr + p.memsz >= 1 << 47:
            out.append('%r is outside of the address space' % p)
        if prev and p.vaddr < prev.vaddr + prev.memsz:
            out.append('%r is not above %r' % (p, prev))
        elif prev and prev.memsz and p.memsz and \
                p.vaddr // 4096 <= (prev.vaddr + prev.memsz - 1) // 4096 and \
                (p.flags != prev.flags or p.off // 4096 != (prev.off + prev.memsz - 1) // 4096):
            # they would share a page, which can only have one content and one set of permissions
            out.append('%r shares a page with %r' % (p, prev))
        prev = p
    for s in e.sh[1:]:
        if not s.flags & SHF_ALLOC:
            if s.addr:
                rep.count('addresses of sections that are not loaded')
            continue
        ps = [p for p in e.loads if p.vaddr <= s.addr and s.addr + s.size <= p.vaddr + p.memsz]
        if not ps and s.size:
            out.append('no segment covers %r' % s)
            continue
        if not ps:
            continue
        p = ps[0]
        want = 4 | (2 if s.flags & SHF_WRITE else 0) | (1 if s.flags & SHF_EXEC else 0)
        if s.size and p.flags != want:
            out.append('%r has flags %#x but is in %r' % (s, s.flags, p))
        if s.type != SHT_NOBITS and s.size:
            if s.off - p.off != s.addr - p.vaddr:
                out.append('%r is not where %r puts it' % (s, p))
            if s.addr + s.size > p.vaddr + p.filesz:
                out.append('%r is not in the file part of %r' % (s, p))
        if s.type == SHT_NOBITS and s.size and s.addr < p.vaddr + p.filesz:
            m = e.mem(s.addr, s.size)
            if m.count(0) != len(m):
                out.append('%r overlaps the file part of %r' % (s, p))
    # flags asked for
    want = {}
    for o in w.linked:
        for s in o.secs:
            if s.alloc:
                want[outname(s.name)] = want.get(outname(s.name), 0) | s.flags & 7
    for n, f in want.items():
        for s in e.sections(n):
            if s.flags & 7 != f and not (n in ('.bss', '.lbss') and f | 3 == s.flags & 7):
                out.append('%r has permissions %d, its parts ask for %d' % (s, s.flags & 7, f))
    # special segments
    by = {}
    for p in e.ph:
        by.setdefault(p.type, []).append(p)
    for t, n in ((3, 'PT_INTERP'), (2, 'PT_DYNAMIC'), (6, 'PT_PHDR')):
        if len(by.get(t, [])) != 1:
            out.append('%d %s' % (len(by.get(t, [])), n))
    if 3 in by:
        p = by[3][0]
        c = data[p.off:p.off + p.filesz]
        if c != w.interp.encode() + b'\0':
            out.append('the interpreter is %r' % c)
        if e.mem(p.vaddr, p.filesz) != c:
            out.append('the interpreter is not mapped at %#x' % p.vaddr)
        if e.loads and e.ph.index(p) > e.ph.index(e.loads[0]):
            out.append('PT_INTERP comes after a PT_LOAD')
    if 6 in by:
        p = by[6][0]
        if (p.off, p.filesz, p.memsz) != (e.phoff, 56 * e.phnum, 56 * e.phnum):
            out.append('PT_PHDR %r does not describe the program headers' % p)
        if e.mem(p.vaddr, p.filesz) != data[e.phoff:e.phoff + 56 * e.phnum]:
            out.append('the program headers are not mapped at %#x' % p.vaddr)
        if e.loads and e.ph.index(p) > e.ph.index(e.loads[0]):
            out.append('PT_PHDR comes after a PT_LOAD')
    if 2 in by:
        p = by[2][0]
        if e.mem(p.vaddr, p.memsz) != data[p.off:p.off + p.filesz] or not p.filesz:
            out.append('the dynamic section is not mapped at %#x' % p.vaddr)
        s = e.by_type(SHT_DYNAMIC)
        if len(s) != 1 or (s[0].addr, s[0].size, s[0].off) != (p.vaddr, p.memsz, p.off):
            out.append('PT_DYNAMIC %r is not the dynamic section %r' % (p, s))
    # where unwinders look
    eh = by.get(0x6474e550, [])
    frames = [s for s in e.sections('.eh_frame') if s.flags & SHF_ALLOC and s.size]
    if len(eh) > 1 or not eh and frames and '--eh-frame-hdr' in w.args():
        out.append('%d PT_GNU_EH_FRAME' % len(eh))
    for p in eh:
        rep.count('headers of .eh_frame')
        b = data[p.off:p.off + p.filesz]
        if e.mem(p.vaddr, p.memsz) != b or len(b) < 8 or p.vaddr % max(p.align, 1):
            out.append('PT_GNU_EH_FRAME %r is not mapped' % p)
        elif b[:2] != b'\1\x1b' or b[2] == 0xff and len(b) > 8:
            out.append('the header of .eh_frame is %s' % b[:8].hex())
        else:
            a = p.vaddr + 4 + struct.unpack_from('<i', b, 4)[0]
            if not any(s.addr == a and s.flags & SHF_ALLOC for s in e.sections('.eh_frame')):
                out.append('the header of .eh_frame refers to %#x' % a)
    # the stack is executable if and only if an object asks for it
    notes = [[s.flags & SHF_EXEC for s in o.secs if s.name == '.note.GNU-stack'] for o in w.linked]
    stack = by.get(0x6474e551, [])
    if len(stack) > 1:
        out.append('%d PT_GNU_STACK' % len(stack))
    if any(any(n) for n in notes):
        rep.count('executable stacks')
        if not stack or not stack[0].flags & 1:
            out.append('an object asks for an executable stack')
    elif stack and stack[0].flags & 1 and all(notes):
        out.append('no object asks for an executable stack')
    if stack and stack[0].flags & 6 != 6:
        out.append('PT_GNU_STACK is %r' % stack[0])
    b = w.binding.get('_start')
    if b and b[0] == 'def':
        s = b[1]
        if isinstance(s.sec, Sec) and s.sec in v.addr:
            rep.count('entry points')
            if e.entry != v.addr[s.sec] + s.value:
                out.append('the entry point is %#x instead of %#x' % (e.entry,
                                                                     v.addr[s.sec] + s.value))
            seg = e.segment(e.entry)
            if seg is None or not seg.flags & 1:
                if s.sec.flags & SHF_EXEC:
                    out.append('the entry point %#x is not executable' % e.entry)
    return out


def permute_like(want, loose, have):
    """Orders the archive members' parts of each priority as they are in `have`, if possible."""
    want = list(want)
    for prio in {x[0] for x in loose}:
        mine = [x for x in loose if x[0] == prio]
        start = mine[0][1]
        by_obj = {}
        for x in mine:
            by_obj.setdefault(x[2], []).extend(x[3])
        rest, at, seq = list(by_obj.values()), start, []
        while rest:
            # the longest one that fits, since one may be the beginning of another
            fit = [c for c in rest if all(a is None or a == b for a, b in
                                          zip(c, have[at:at + len(c)])) and
                   len(have) >= at + len(c)]
            if not fit:
                return want
            c = max(fit, key=len)
            rest.remove(c)
            seq += c
            at += len(c)
        want[start:start + len(seq)] = seq
    return want


def oracle_arrays(v, rep):
    """C17, as far as the file tells: order, boundaries, dynamic tags"""
    out = []
    e, w = v.elf, v.w
    d = dict(v.dyn)
    pos = positions(w)
    objs = {id(o) for o in w.objs}
    osecs = {id(s) for o in w.objs for s in o.secs}
    for arr, tag, ztag in (('.preinit_array', 32, 33), ('.init_array', 25, 27),
                           ('.fini_array', 26, 28)):
        parts = [(init_prio(s.name), pos[o], k, j, s) for k, o in enumerate(w.linked)
                 for j, s in enumerate(o.secs) if outname(s.name) == arr]
        parts.sort(key=lambda x: x[:4])
        want = []
        loose = []
        for p_, q, k, _, s in parts:
            chunk = []
            for r in sorted(s.relocs, key=lambda r: r.off):
                kind, val = v.value(r.sym)
                chunk.append((val + r.addend) & M64 if kind in ('addr', 'abs') else None)
            if id(w.linked[k]) not in objs and chunk:
                # the order of the members of an archive among themselves is not specified
                loose.append(((p_, q), len(want), k, chunk))
            want += chunk
        size = d.get(ztag, 0)
        have = []
        if size:
            m = e.mem(d.get(tag, 0), size)
            if m is None or size % 8:
                out.append('%s at %#x+%#x is not readable' % (arr, d.get(tag, 0), size))
                continue
            have = [x[0] for x in struct.iter_unpack('<Q', m)]
        rep.count('array entries', len(want))
        want = permute_like(want, loose, have)
        if len(have) != len(want) or any(x is not None and x != y for x, y in zip(want, have)):
            out.append('%s contains %s instead of %s' % (arr, [hex(x) for x in have],
                                                         [x and hex(x) for x in want]))
        n = arr[1:-6]
        for y in ('start', 'end'):
            name = '__%s_array_%s' % (n, y)
            if w.binding.get(name, [''])[0] != 'linker':
                continue
            for o in w.linked:
                for s in o.secs:
                    for r in s.relocs:
                        if r.sym and r.sym.name == name and r.type == R['R64'] and s in v.addr:
                            w_ = d.get(tag, 0) + (size if y == 'end' else 0)
                            h = e.u64(v.addr[s] + r.off)
                            rep.count('boundary symbols')
                            if not want:
                                # both are the same, whatever it is
                                v.__dict__.setdefault('empty', {}).setdefault(arr, set()).add(h)
                                if len(v.empty[arr]) > 1:
                                    out.append('the empty %s has boundaries %r' % (arr,
                                                                                  v.empty[arr]))
                            elif h != w_ + r.addend:
                                out.append('%s is %r instead of %#x' % (name, h and hex(h), w_))
    for name, tag in (('.init', 12), ('.fini', 13)):
        parts = [(pos[o], k, j, s) for k, o in enumerate(w.linked)
                 for j, s in enumerate(o.secs) if s.name == name and s.size]
        parts.sort(key=lambda x: x[:3])
        align = max([max(s.align, 1) for o in w.linked for s in o.secs if s.name == name] + [1])
        if not parts:
            continue
        first = parts[0][3]
        if sum(1 for x in parts if x[0] == parts[0][0]) > 1 and \
                id(w.linked[parts[0][1]]) not in objs:
            continue
        if first in v.addr and d.get(tag) != v.addr[first]:
            out.append('%s function is at %r, its first fragment at %#x' % (
                name, d.get(tag) and hex(d[tag]), v.addr[first]))
        # the order of the members of an archive among themselves is not specified
        groups = {}
        for q, k, j, x in parts:
            groups.setdefault(q, []).append(x)
        run = []
        for q in sorted(groups):
            g = groups[q]
            if not all(x in v.addr for x in g):
                run = []
                break
            if id(g[0]) not in osecs:
                g = sorted(g, key=lambda x: v.addr[x])
            run += g
        for a, b in zip(run, run[1:]):
            rep.count('fragments in order')
            gap = v.addr[b] - v.addr[a] - a.size
            if gap < 0 or gap >= align:
                out.append('fragment %r at %#x does not follow %r' % (b, v.addr[b], a))
    return out
