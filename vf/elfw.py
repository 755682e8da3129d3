"""Writers of the linker's inputs: relocatable objects, archives and shared libraries.

Everything is laid out by hand (no assembler involved), so that a generator can ask for any
combination of headers, and knows what it has asked for.
"""
import struct

SHT_NULL, SHT_PROGBITS, SHT_SYMTAB, SHT_STRTAB, SHT_RELA, SHT_HASH, SHT_DYNAMIC, SHT_NOTE, \
    SHT_NOBITS, SHT_REL, SHT_SHLIB, SHT_DYNSYM = range(12)
SHT_INIT_ARRAY, SHT_FINI_ARRAY, SHT_PREINIT_ARRAY, SHT_GROUP = 14, 15, 16, 17
SHT_GNU_HASH = 0x6ffffff6
SHT_X86_64_UNWIND = 0x70000001
SHF_WRITE, SHF_ALLOC, SHF_EXEC, SHF_MERGE, SHF_STRINGS, SHF_GROUP, SHF_TLS, SHF_COMPRESSED = \
    1, 2, 4, 0x10, 0x20, 0x200, 0x400, 0x800
SHF_LINK_ORDER = 0x80
STB_LOCAL, STB_GLOBAL, STB_WEAK, STB_UNIQUE = 0, 1, 2, 10
STT_NOTYPE, STT_OBJECT, STT_FUNC, STT_SECTION, STT_FILE, STT_COMMON, STT_TLS, STT_IFUNC = \
    0, 1, 2, 3, 4, 5, 6, 10
SHN_UNDEF, SHN_ABS, SHN_COMMON = 0, 0xfff1, 0xfff2
UND, ABS, COM = 'UND', 'ABS', 'COM'

R = dict(NONE=0, R64=1, PC32=2, GOT32=3, PLT32=4, COPY=5, GLOB_DAT=6, JUMP_SLOT=7, RELATIVE=8,
         GOTPCREL=9, R32=10, R32S=11, R16=12, PC16=13, R8=14, PC8=15, DTPMOD64=16, DTPOFF64=17,
         TPOFF64=18, TLSGD=19, TLSLD=20, DTPOFF32=21, GOTTPOFF=22, TPOFF32=23, PC64=24,
         GOTOFF64=25, GOTPC32=26, GOT64=27, GOTPCREL64=28, GOTPC64=29, GOTPLT64=30, PLTOFF64=31,
         SIZE32=32, SIZE64=33, GOTPC32_TLSDESC=34, TLSDESC_CALL=35, TLSDESC=36, IRELATIVE=37,
         RELATIVE64=38, GOTPCRELX=41, REX_GOTPCRELX=42)
RNAME = {v: k for k, v in R.items()}


class Sec:
    def __init__(self, name, type=SHT_PROGBITS, flags=SHF_ALLOC, align=1, data=b'', size=None,
                 entsize=0, tag=None):
        self.name, self.type, self.flags, self.align = name, type, flags, align
        self.data = bytearray(data)
        self.nobits_size = size
        self.entsize = entsize
        self.relocs = []
        self.tag = tag
        self.index = None
        self.obj = None
        self.link = None
        self.probed = True

    @property
    def size(self):
        return self.nobits_size if self.type == SHT_NOBITS else len(self.data)

    @property
    def alloc(self):
        return bool(self.flags & SHF_ALLOC)

    def __repr__(self):
        return '%s:%s' % (self.obj.name if self.obj else '?', self.name)


class Sym:
    def __init__(self, name, bind=STB_GLOBAL, type=STT_NOTYPE, sec=UND, value=0, size=0, other=0):
        self.name, self.bind, self.type, self.sec = name, bind, type, sec
        self.value, self.size, self.other = value, size, other
        self.index = None
        self.obj = None

    @property
    def defined(self):
        return self.sec != UND

    def __repr__(self):
        return '<%s %s>' % ({0: 'local', 1: 'global', 2: 'weak'}.get(self.bind, self.bind),
                            self.name or (self.sec if isinstance(self.sec, str) else self.sec.name))


class Rel:
    def __init__(self, off, type, sym, addend=0, form=None):
        self.off, self.type, self.sym, self.addend, self.form = off, type, sym, addend, form

    def __repr__(self):
        return 'R(%#x %s %r %+d)' % (self.off, RNAME.get(self.type, self.type), self.sym,
                                     self.addend)


class Group(Sec):
    """Sections that belong together. `sig` names the group."""

    def __init__(self, sig, secs, flags):
        super().__init__('.group', SHT_GROUP, 0, 4, entsize=4)
        self.sig, self.secs, self.group_flags = sig, secs, flags

    def signature(self):
        return self.sig.sec.name if self.sig.type == STT_SECTION else self.sig.name


class Obj:
    rel = False

    def __init__(self, name):
        self.name = name
        self.secs, self.syms, self.groups = [], [], []
        self._secsyms = {}

    def sec(self, *a, **k):
        s = Sec(*a, **k)
        s.obj = self
        self.secs.append(s)
        return s

    def sym(self, *a, **k):
        s = Sym(*a, **k)
        s.obj = self
        self.syms.append(s)
        return s

    def group(self, sig, secs, flags=1):
        g = Group(sig, secs, flags)
        g.obj = self
        for s in secs:
            s.flags |= SHF_GROUP
        self.groups.append(g)
        return g

    def secsym(self, sec):
        s = self._secsyms.get(id(sec))
        if s is None:
            s = self._secsyms[id(sec)] = self.sym('', STB_LOCAL, STT_SECTION, sec)
        return s


class StrTab:
    """A string table; with `share`, a name can be the tail of another one."""

    def __init__(self, rng=None, share=False):
        self.data = bytearray(b'\0')
        self.at = {'': 0}
        self.share = share
        self.rng = rng

    def add_all(self, names):
        names = list(dict.fromkeys(names))
        if self.share:
            names.sort(key=len, reverse=True)
        elif self.rng:
            self.rng.shuffle(names)
        for n in names:
            self.get(n)

    def get(self, name):
        if name in self.at:
            return self.at[name]
        b = name.encode()
        if self.share:
            i = self.data.find(b + b'\0', 1)
            if i > 0:
                self.at[name] = i
                return i
        self.at[name] = len(self.data)
        self.data += b + b'\0'
        return self.at[name]


def pad(buf, align):
    if align > 1 and len(buf) % align:
        buf += b'\0' * (align - len(buf) % align)


def write_obj(obj, rng=None, e_type=1, machine=62, osabi=0):
    """Serialises an object. `rng` varies what a linker must not depend on."""
    r = rng
    chance = (lambda p: r.random() < p) if r else (lambda p: False)
    locals_ = [s for s in obj.syms if s.bind == STB_LOCAL]
    others = [s for s in obj.syms if s.bind != STB_LOCAL]
    secs = list(obj.secs)
    headers = [dict(name='', type=0, flags=0, off=0, size=0, link=0, info=0, align=0, ent=0)]
    one_strtab = chance(0.4)
    order = list(secs)
    rel_after = chance(0.5)
    rela_last = []
    plan = [('sec', g) for g in obj.groups]
    for s in order:
        plan.append(('sec', s))
        if s.relocs:
            parts = [s.relocs]
            if len(s.relocs) > 1 and chance(0.1):
                k = r.randrange(1, len(s.relocs))
                parts = [s.relocs[:k], s.relocs[k:]]
            for p in parts:
                (plan if rel_after else rela_last).append(('rela', s, p))
    plan += rela_last
    tables = [('symtab',)]
    tables += [('strtab',)] if one_strtab else [('strtab',), ('shstrtab',)]
    if r:
        r.shuffle(tables)
    if chance(0.15):
        plan = tables + plan
    else:
        plan += tables
    idx = {}
    for i, p in enumerate(plan, 1):
        if p[0] == 'sec':
            p[1].index = i
        else:
            idx.setdefault(p[0], i)
    if one_strtab:
        idx['shstrtab'] = idx['strtab']
    syms = [None] + locals_ + others
    for i, s in enumerate(syms):
        if s is not None:
            s.index = i
    strtab = StrTab(r, chance(0.5))
    shstr = strtab if one_strtab else StrTab(r, chance(0.5))
    rname = lambda s: '.rela' + s.name
    strtab.add_all([s.name for s in syms[1:]])
    shstr.add_all([s.name for s in secs + obj.groups] + [rname(s) for s in secs if s.relocs] +
                  ([rname(s).replace('.rela', '.rel') for s in secs if s.relocs] if obj.rel else []) +
                  ['.symtab', '.strtab'] + ([] if one_strtab else ['.shstrtab']))
    symtab = bytearray(24)
    for s in syms[1:]:
        shndx = {UND: 0, ABS: SHN_ABS, COM: 0xff02 if getattr(s, 'large', False) else SHN_COMMON}.get(s.sec) if isinstance(s.sec, str) \
            else s.sec.index
        symtab += struct.pack('<IBBHQQ', strtab.get(s.name), s.bind << 4 | s.type, s.other, shndx,
                              s.value & (2**64 - 1), s.size)
    out = bytearray(64)
    shoff_first = chance(0.1)
    n = len(plan) + 1
    if shoff_first:
        shoff = len(out)
        out += bytes(64 * n)
    pieces = []
    of = {}
    for k, q in enumerate(plan, 1):
        if q[0] in ('sec', 'rela'):
            of.setdefault(id(q[1]), []).append(k)
    for i, p in enumerate(plan, 1):
        if p[0] == 'sec':
            s = p[1]
            h = dict(name=s.name, type=s.type, flags=s.flags, size=s.size, link=0, info=0,
                     align=s.align, ent=s.entsize)
            data = b'' if s.type == SHT_NOBITS else bytes(s.data)
            if isinstance(s, Group):
                h.update(link=idx['symtab'], info=s.sig.index)
                m = sorted(k for q in s.secs for k in of[id(q)])
                data = struct.pack('<%dI' % (1 + len(m)), s.group_flags, *m)
                h['size'] = len(data)
            elif chance(0.1):
                # what it says about other sections of the object
                q = r.choice(secs)
                if chance(0.7):
                    h.update(flags=s.flags | SHF_LINK_ORDER, link=q.index)
                    s.link = q
                else:
                    h.update(link=idx['symtab'], info=q.index)
        elif p[0] == 'rela':
            s = p[1]
            data = b''.join(struct.pack('<QQq', x.off, (x.sym.index if x.sym else 0) << 32 | x.type,
                                        x.addend) for x in p[2])
            h = dict(name=rname(s), type=SHT_RELA, flags=0x40 | s.flags & SHF_GROUP, size=len(data), link=idx['symtab'],
                     info=s.index, align=8, ent=24)
            if obj.rel:
                # the addends have to be in the fields
                data = b''.join(data[k:k + 16] for k in range(0, len(data), 24))
                h.update(type=SHT_REL, size=len(data), ent=16, name=rname(s).replace('.rela', '.rel'))
        elif p[0] == 'symtab':
            data = bytes(symtab)
            h = dict(name='.symtab', type=SHT_SYMTAB, flags=0, size=len(data), link=idx['strtab'],
                     info=1 + len(locals_), align=8, ent=24)
        else:
            t = strtab if p[0] == 'strtab' else shstr
            data = bytes(t.data)
            h = dict(name='.' + p[0], type=SHT_STRTAB, flags=0, size=len(data), link=0, info=0,
                     align=1, ent=0)
        headers.append(h)
        pieces.append((i, data))
    if chance(0.2):
        r.shuffle(pieces)
    for i, data in pieces:
        h = headers[i]
        pad(out, min(max(h['align'], 1), 4096))
        h['off'] = len(out)
        out += data
        if chance(0.1):
            out += bytes(r.randrange(256) for _ in range(r.randrange(16)))
    if not shoff_first:
        pad(out, 8)
        shoff = len(out)
        out += bytes(64 * n)
    for i, h in enumerate(headers):
        struct.pack_into('<IIQQQQIIQQ', out, shoff + 64 * i, shstr.get(h['name']), h['type'],
                         h['flags'], 0, h['off'], h['size'], h['link'], h['info'], h['align'],
                         h['ent'])
    struct.pack_into('<16sHHIQQQIHHHHHH', out, 0, b'\x7fELF\x02\x01\x01' + bytes([osabi]), e_type,
                     machine, 1, 0, 0, shoff, 0, 64, 0, 0, 64, n, idx['shstrtab'])
    return bytes(out)


def write_archive(members, rng=None, index=True):
    """`members`: [(member name, data, [names in the index])]."""
    def header(name, size):
        return b'%-16s%-12d%-6d%-6d%-8s%-10d`\n' % (name, 0, 0, 0, b'644', size)
    long_names = bytearray()
    names = []
    for n, _, _ in members:
        b = n.encode() + b'/'
        if len(b) > 16:
            names.append(b'/%d' % len(long_names))
            long_names += b + b'\n'
        else:
            names.append(b)
    if len(long_names) % 2:
        long_names += b'\n'
    syms = [(s, i) for i, m in enumerate(members) for s in m[2]]
    strs = b''.join(s.encode() + b'\0' for s, _ in syms)
    isize = 4 + 4 * len(syms) + len(strs)
    if isize % 2:
        strs += b'\0'
        isize += 1
    off = 8
    if index:
        off += 60 + isize
    if long_names:
        off += 60 + len(long_names)
    offs = []
    body = bytearray()
    for (n, data, _), hn in zip(members, names):
        offs.append(off + len(body))
        body += header(hn, len(data)) + data
        if len(data) % 2:
            body += b'\n'
    out = bytearray(b'!<arch>\n')
    if index:
        out += header(b'/', isize)
        out += struct.pack('>I', len(syms))
        for s, i in syms:
            out += struct.pack('>I', offs[i])
        out += strs
    if long_names:
        out += header(b'//', len(long_names)) + long_names
    return bytes(out + body)


def elf_hash(name):
    h = 0
    for c in name.encode():
        h = ((h << 4) + c) & 0xffffffff
        g = h & 0xf0000000
        h ^= g >> 24
        h &= ~g & 0xffffffff
    return h


def gnu_hash(name):
    h = 5381
    for c in name.encode():
        h = (h * 33 + c) & 0xffffffff
    return h


class DynSym:
    """What a shared library has in its dynamic symbol table."""

    def __init__(self, name, type=STT_FUNC, bind=STB_GLOBAL, defined=True, value=None, size=8,
                 align=8, shndx=None, other=0, alias_of=None, alias_size=None):
        self.name, self.type, self.bind, self.defined = name, type, bind, defined
        self.value, self.size, self.align, self.shndx, self.other = value, size, align, shndx, other
        # another symbol of the same library: the two are the same object
        self.alias_of = alias_of
        # (not all of its names have to have the same size)
        self.alias_size = alias_size


def write_so(syms, soname=None, needed=(), hash_style='both', rng=None):
    """A shared library with the given dynamic symbols. Functions are `ret`s, objects zeroes; it
    is meant to be linked against, not to be run."""
    text_len, data_len = 16, 64
    aliases = {}
    for s in syms:
        if s.alias_of:
            aliases.setdefault(id(s.alias_of), []).append(s.alias_size or 0)
    for s in syms:
        if not s.defined or s.alias_of:
            continue
        if s.type in (STT_FUNC, STT_IFUNC):
            s._off = text_len
            text_len += 16
        else:
            a = max(s.align, 1)
            data_len = (data_len + a - 1) // a * a
            if s.value is None:
                # odd multiples tell the alignment exactly
                s._off = data_len
            data_len += max([s.size, 1] + aliases.get(id(s), []))
    for s in syms:
        if s.alias_of:
            s._off, s.size, s.align = s.alias_of._off, s.alias_of.size, s.alias_of.align
            if s.alias_size is not None:
                s.size = s.alias_size
    # GNU hash wants the undefined symbols first, and the others by bucket
    und = [s for s in syms if not s.defined]
    dfn = [s for s in syms if s.defined]
    nb = max(1, len(dfn) // 3)
    dfn.sort(key=lambda s: gnu_hash(s.name) % nb)
    order = und + dfn
    strtab = StrTab()
    strtab.add_all([s.name for s in order] + ([soname] if soname else []) + list(needed))
    for n in needed:
        strtab.get(n)
    dynstr = bytes(strtab.data)
    n = len(order) + 1
    nbk = max(1, n // 2)
    buckets, chains = [0] * nbk, [0] * n
    for i, s in enumerate(order, 1):
        b = elf_hash(s.name) % nbk
        chains[i] = buckets[b]
        buckets[b] = i
    sysv = struct.pack('<II', nbk, n) + struct.pack('<%dI' % (nbk + n), *(buckets + chains))
    gbk, gch = [0] * nb, []
    bloom = 0
    for i, s in enumerate(dfn):
        h = gnu_hash(s.name)
        bloom |= 1 << (h % 64) | 1 << ((h >> 6) % 64)
        if not gbk[h % nb]:
            gbk[h % nb] = i + 1 + len(und)
        last = i == len(dfn) - 1 or gnu_hash(dfn[i + 1].name) % nb != h % nb
        gch.append(h & ~1 | last)
    gnu = struct.pack('<IIIIQ', nb, 1 + len(und), 1, 6, bloom) + \
        struct.pack('<%dI' % (nb + len(gch)), *(gbk + gch))
    # layout: headers | dynsym | dynstr | hashes | text || data: dynamic, objects
    out = bytearray(64 + 56 * 3)
    secs = [('', 0, 0, 0, 0, 0, 0, 0, 0, 0)]

    def put(name, type, flags, data, align, link=0, info=0, ent=0):
        pad(out, align)
        off = len(out)
        out.extend(data)
        secs.append((name, type, flags, off, off, len(data), link, info, align, ent))
        return off
    styles = {'both': ('gnu', 'sysv'), 'gnu': ('gnu',), 'sysv': ('sysv',)}[hash_style]
    nsec_text = 3 + len(styles)
    sym_at = len(out) + (-len(out)) % 8
    dynsym_size = 24 * n
    put('.dynsym', SHT_DYNSYM, SHF_ALLOC, bytes(dynsym_size), 8, 2, 1, 24)
    str_at = put('.dynstr', SHT_STRTAB, SHF_ALLOC, dynstr, 1)
    gnu_at = put('.gnu.hash', SHT_GNU_HASH, SHF_ALLOC, gnu, 8, 1) if 'gnu' in styles else None
    sysv_at = put('.hash', SHT_HASH, SHF_ALLOC, sysv, 8, 1, 0, 4) if 'sysv' in styles else None
    text_at = put('.text', SHT_PROGBITS, SHF_ALLOC | SHF_EXEC, b'\xc3' * text_len, 16)
    ti = len(secs) - 1
    pad(out, 4096)
    dyn = []
    for x in needed:
        dyn.append((1, strtab.get(x)))
    if soname:
        dyn.append((14, strtab.get(soname)))
    if gnu_at is not None:
        dyn.append((0x6ffffef5, gnu_at))
    if sysv_at is not None:
        dyn.append((4, sysv_at))
    dyn += [(5, str_at), (6, sym_at), (10, len(dynstr)), (11, 24), (0, 0)]
    dynb = b''.join(struct.pack('<QQ', t, v) for t, v in dyn)
    rw_at = len(out)
    dyn_at = put('.dynamic', SHT_DYNAMIC, SHF_ALLOC | SHF_WRITE, dynb, 8, 2, 0, 16)
    pad(out, 4096)
    data_at = put('.data', SHT_PROGBITS, SHF_ALLOC | SHF_WRITE, bytes(data_len), 4096)
    di = len(secs) - 1
    end = len(out)
    for i, s in enumerate(order, 1):
        if s.defined:
            if s.type in (STT_FUNC, STT_IFUNC):
                v, sh = text_at + s._off, ti
            else:
                v, sh = data_at + (s.value if s.value is not None else s._off), di
            if s.shndx is not None:
                sh = s.shndx
            s.addr = v
        else:
            v, sh = 0, 0
        struct.pack_into('<IBBHQQ', out, sym_at + 24 * i, strtab.get(s.name),
                         s.bind << 4 | s.type, s.other, sh, v, s.size if s.defined else 0)
    shstr = StrTab()
    shstr.add_all([x[0] for x in secs] + ['.shstrtab'])
    so = len(out)
    out += shstr.data
    secs.append(('.shstrtab', SHT_STRTAB, 0, 0, so, len(shstr.data), 0, 0, 1, 0))
    pad(out, 8)
    shoff = len(out)
    for (name, type, flags, addr, off, size, link, info, align, ent) in secs:
        out += struct.pack('<IIQQQQIIQQ', shstr.get(name), type, flags, addr, off, size, link, info,
                           align, ent)
    struct.pack_into('<16sHHIQQQIHHHHHH', out, 0, b'\x7fELF\x02\x01\x01', 3, 62, 1, 0, 64, shoff, 0,
                     64, 56, 3, 64, len(secs), len(secs) - 1)
    ph = [(1, 5, 0, 0, rw_at), (1, 6, rw_at, rw_at, end - rw_at), (2, 6, dyn_at, dyn_at, len(dynb))]
    for i, (t, f, o, v, z) in enumerate(ph):
        struct.pack_into('<IIQQQQQQ', out, 64 + 56 * i, t, f, o, v, v, z, z, 4096 if t == 1 else 8)
    return bytes(out)
