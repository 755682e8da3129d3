"""Where the fields of inputs are, and ways to spoil them."""
import struct

EH = [('e_ident', 0, 16), ('e_type', 16, 2), ('e_machine', 18, 2), ('e_version', 20, 4),
      ('e_entry', 24, 8), ('e_phoff', 32, 8), ('e_shoff', 40, 8), ('e_flags', 48, 4),
      ('e_ehsize', 52, 2), ('e_phentsize', 54, 2), ('e_phnum', 56, 2), ('e_shentsize', 58, 2),
      ('e_shnum', 60, 2), ('e_shstrndx', 62, 2)]
SH = [('sh_name', 0, 4), ('sh_type', 4, 4), ('sh_flags', 8, 8), ('sh_addr', 16, 8),
      ('sh_offset', 24, 8), ('sh_size', 32, 8), ('sh_link', 40, 4), ('sh_info', 44, 4),
      ('sh_addralign', 48, 8), ('sh_entsize', 56, 8)]
PH = [('p_type', 0, 4), ('p_flags', 4, 4), ('p_offset', 8, 8), ('p_vaddr', 16, 8),
      ('p_paddr', 24, 8), ('p_filesz', 32, 8), ('p_memsz', 40, 8), ('p_align', 48, 8)]
SY = [('st_name', 0, 4), ('st_info', 4, 1), ('st_other', 5, 1), ('st_shndx', 6, 2),
      ('st_value', 8, 8), ('st_size', 16, 8)]
RE = [('r_offset', 0, 8), ('r_type', 8, 4), ('r_sym', 12, 4), ('r_addend', 16, 8)]
DY = [('d_tag', 0, 8), ('d_val', 8, 8)]
F = {2: '<H', 4: '<I', 8: '<Q', 1: '<B'}
M64 = (1 << 64) - 1


class Image:
    """An ELF file, perhaps inside another file."""

    def __init__(self, data, base=0, size=None):
        self.b, self.base = bytearray(data), base
        self.size = len(data) - base if size is None else size
        self.shoff, = struct.unpack_from('<Q', data, base + 40)
        self.phoff, = struct.unpack_from('<Q', data, base + 32)
        self.phnum, = struct.unpack_from('<H', data, base + 56)
        self.shnum, self.shstrndx = struct.unpack_from('<HH', data, base + 60)
        self.sh = [dict((n, struct.unpack_from(F[z], data, base + self.shoff + 64 * i + o)[0])
                        for n, o, z in SH) for i in range(self.shnum)]
        self.ph = [dict((n, struct.unpack_from(F[z], data, base + self.phoff + 56 * i + o)[0])
                        for n, o, z in PH) for i in range(self.phnum)]

    def get(self, at, z):
        return struct.unpack_from(F[z], self.b, self.base + at)[0]

    def set(self, at, z, v):
        struct.pack_into(F[z], self.b, self.base + at, v & ((1 << 8 * z) - 1))

    def fields(self):
        """(what, offset, size) of everything that has a name."""
        out = [(n, o, z) for n, o, z in EH if z in F]
        for i in range(self.shnum):
            out += [('section %d %s' % (i, n), self.shoff + 64 * i + o, z) for n, o, z in SH]
        for i in range(self.phnum):
            out += [('segment %d %s' % (i, n), self.phoff + 56 * i + o, z) for n, o, z in PH]
        for i, s in enumerate(self.sh):
            t = {2: SY, 11: SY, 4: RE, 6: DY}.get(s['sh_type'])
            if t:
                ent = t[-1][1] + t[-1][2]
                for k in range(min(s['sh_size'] // ent, 200)):
                    out += [('%d.%d %s' % (i, k, n), s['sh_offset'] + ent * k + o, z)
                            for n, o, z in t]
            if s['sh_type'] in (5, 0x6ffffff6):
                out += [('hash word', s['sh_offset'] + 4 * k, 4)
                        for k in range(min(s['sh_size'] // 4, 100))]
        return [f for f in out if self.base + f[1] + f[2] <= len(self.b)]

    def end(self):
        """Where the last thing that a header refers to ends."""
        e = [64, self.shoff + 64 * self.shnum, self.phoff + 56 * self.phnum]
        e += [s['sh_offset'] + s['sh_size'] for s in self.sh if s['sh_type'] not in (0, 8)
              and s['sh_size']]
        return max(e)

    def section(self, i, name):
        for n, o, z in SH:
            if n == name:
                return self.shoff + 64 * i + o, z
        raise KeyError(name)

    def entry(self, i, k, table, name):
        for n, o, z in table:
            if n == name:
                return self.sh[i]['sh_offset'] + (table[-1][1] + table[-1][2]) * k + o, z
        raise KeyError(name)


def members(data):
    """(header offset, data offset, size, name) of the members of an archive."""
    at, out = 8, []
    while at + 60 <= len(data):
        size = int(bytes(data[at + 48:at + 58]).strip() or b'0')
        out.append((at, at + 60, size, bytes(data[at:at + 16]).strip().decode('latin1')))
        at += 60 + size + size % 2
    return out


def interesting(rng, img_size, old, z):
    top = (1 << 8 * z) - 1
    return rng.choice([0, 1, 2, top, top - 1, top >> 1, (top >> 1) + 1, old + 1, old - 1, old * 2,
                       old ^ 1 << rng.randrange(8 * z), img_size, img_size - 1, img_size + 1,
                       rng.randrange(top + 1), rng.randrange(min(top, 300) + 1), 0x7fffffff,
                       0x80000000, 0xffffffff, 1 << rng.randrange(8 * z), -old, 0xff00, 0xfff1,
                       0xfff2, 0xffff, 64, 24, 16, 4096]) & top


# -- damage to an object that no linker may overlook -------------------------------------------------


def spoil_object(rng, img):
    """Damages a field such that it points out of the file, section or table it belongs to. Returns
    what was done, or None."""
    r = rng
    size = img.size
    real = [i for i, s in enumerate(img.sh) if s['sh_type'] not in (0, 8)]
    symtab = [i for i, s in enumerate(img.sh) if s['sh_type'] == 2][0]
    relas = [i for i, s in enumerate(img.sh) if s['sh_type'] == 4 and s['sh_size']]
    nsym = img.sh[symtab]['sh_size'] // 24
    beyond = lambda z: r.choice([size, size + 1, size + 4096, 1 << 31, 1 << 40, 1 << 62, (1 << 63) - 1,
                                 M64, M64 - 63, M64 - size])
    k = r.choice(['truncated', 'truncated', 'truncated', 'e_shoff', 'e_shnum', 'e_shstrndx',
                  'sh_offset', 'sh_offset', 'sh_size', 'sh_size', 'sh_wrap', 'sh_name',
                  'symtab sh_link', 'rela sh_info', 'rela sh_link', 'st_name', 'st_name',
                  'st_shndx', 'st_shndx', 'r_sym', 'r_sym', 'r_offset', 'r_offset', 'r_edge',
                  'foreign', 'foreign', 'type', 'class', 'order', 'magic', 'shnum0'])
    groups = [i for i, s in enumerate(img.sh) if s['sh_type'] == 17]
    if groups and r.random() < 0.15:
        i = r.choice(groups)
        s = img.sh[i]
        k = r.choice(['signature', 'member', 'empty'])
        if k == 'signature':
            v = r.choice([nsym, nsym + 1, 0xffffffff, 1 << 31])
            img.set(*img.section(i, 'sh_info'), v)
        elif k == 'member':
            v = r.choice([img.shnum, img.shnum + 1, 0xffffffff, 0xff00])
            img.set(s['sh_offset'] + 4 * r.randrange(1, s['sh_size'] // 4), 4, v)
        else:
            v = r.choice([0, 1, 3])
            img.set(*img.section(i, 'sh_size'), v)
        return '%s of group %d set to %#x' % (k, i, v)
    if k == 'truncated':
        n = r.choice([img.end() - 1, r.randrange(1, img.end()), r.randrange(1, 100), 64, 63, 18, 17])
        if not 0 < n < img.end() or img.base:
            return None
        del img.b[n:]
        return 'truncated to %d bytes of %d' % (n, size)
    if k == 'e_shoff':
        v = beyond(8)
        img.set(40, 8, v)
    elif k == 'e_shnum':
        v = r.choice([img.shnum + 1 + (size - img.shoff) // 64, 0xfe00, 0xfeff])
        if img.shoff + 64 * v <= size:
            return None
        img.set(60, 2, v)
    elif k == 'shnum0':
        # no section headers at all, although there's a section with names
        return None
    elif k == 'e_shstrndx':
        v = r.choice([img.shnum, img.shnum + 1, 0xfeff, 0xfffe])
        img.set(62, 2, v)
    elif k in ('sh_offset', 'sh_size', 'sh_wrap'):
        i = r.choice(real)
        s = img.sh[i]
        if k == 'sh_offset':
            if not s['sh_size']:
                return None
            v = r.choice([beyond(8), size - s['sh_size'] + 1])
            img.set(*img.section(i, 'sh_offset'), v)
        elif k == 'sh_size':
            v = r.choice([size - s['sh_offset'] + 1, size + 1, 1 << 40, M64, (1 << 63)])
            if s['sh_offset'] + v <= size:
                return None
            img.set(*img.section(i, 'sh_size'), v)
        else:
            v = r.randrange(1, size)
            img.set(*img.section(i, 'sh_offset'), v)
            img.set(*img.section(i, 'sh_size'), (1 << 64) - v + r.randrange(0, v))
        k = '%s of section %d (type %d)' % (k, i, s['sh_type'])
    elif k == 'sh_name':
        i = r.choice([i for i in range(1, img.shnum)])
        v = r.choice([img.sh[img.shstrndx]['sh_size'], img.sh[img.shstrndx]['sh_size'] + 5, 1 << 31,
                      0xffffffff])
        img.set(*img.section(i, 'sh_name'), v)
        k += ' of section %d (type %d)' % (i, img.sh[i]['sh_type'])
    elif k == 'symtab sh_link':
        v = r.choice([img.shnum, img.shnum + 7, 0xffff, 0xffffffff, 1 << 31])
        img.set(*img.section(symtab, 'sh_link'), v)
    elif k in ('rela sh_info', 'rela sh_link'):
        if not relas:
            return None
        i = r.choice(relas)
        v = r.choice([img.shnum, img.shnum + 3, 0xff00, 0xffffffff])
        img.set(*img.section(i, k.split()[1]), v)
    elif k == 'st_name':
        n = img.sh[img.sh[symtab]['sh_link']]['sh_size']
        v = r.choice([n, n + 1, n + 1000, 0x7fffffff, 0xffffffff])
        j = r.randrange(1, nsym) if nsym > 1 else 0
        if not j:
            return None
        img.set(*img.entry(symtab, j, SY, 'st_name'), v)
        k += ' of symbol %d' % j
    elif k == 'st_shndx':
        if nsym < 2:
            return None
        j = r.randrange(1, nsym)
        v = r.choice([img.shnum, img.shnum + 1, 0xfeff])
        if img.get(*img.entry(symtab, j, SY, 'st_info')) & 15 == 4:
            return None
        img.set(*img.entry(symtab, j, SY, 'st_shndx'), v)
        k += ' of symbol %d' % j
    elif k in ('r_sym', 'r_offset', 'r_edge'):
        if not relas:
            return None
        i = r.choice(relas)
        j = r.randrange(img.sh[i]['sh_size'] // 24)
        t = img.get(*img.entry(i, j, RE, 'r_type'))
        if t == 0:
            # changes nothing
            return None
        target = img.sh[img.sh[i]['sh_info']]
        if k == 'r_sym':
            v = r.choice([nsym, nsym + 1, 0xffff, 0xffffffff, 1 << 31])
            img.set(*img.entry(i, j, RE, 'r_sym'), v)
        else:
            n = target['sh_size']
            width = 8 if t in (1, 24, 25) else 4
            v = r.choice([n, n + 1, n + 4096, 1 << 31, 1 << 62, M64, M64 - 7, 1 << 63]) \
                if k == 'r_offset' else n - r.randrange(1, width)
            if v < 0:
                return None
            img.set(*img.entry(i, j, RE, 'r_offset'), v)
        k = '%s of relocation %d of section %d (type %d)' % (k, j, i, t)
    elif k == 'foreign':
        v = r.choice([3, 40, 183, 243, 8, 20, 21, 22, 2, 0, 61, 63, 0xffff, 62 << 8])
        img.set(18, 2, v)
        k = 'e_machine'
    elif k == 'type':
        v = r.choice([0, 2, 4, 0xfe00, 0xffff, 5])
        img.set(16, 2, v)
        k = 'e_type'
    elif k == 'class':
        v = r.choice([1, 0, 3, 255])
        img.set(4, 1, v)
    elif k == 'order':
        v = r.choice([2, 0, 3])
        img.set(5, 1, v)
    elif k == 'magic':
        i = r.randrange(4)
        v = r.choice([0, 0x7e, 65, 255])
        if img.get(i, 1) == v:
            return None
        img.set(i, 1, v)
    return '%s set to %#x' % (k, v)
