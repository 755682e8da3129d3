"""An independent reader of executables. It trusts nothing: whatever cannot be read raises
`Malformed`."""
import struct


class Malformed(Exception):
    pass


class Shdr:
    __slots__ = ('name_off', 'type', 'flags', 'addr', 'off', 'size', 'link', 'info', 'align',
                 'ent', 'name', 'index')

    def __repr__(self):
        return '%s[%d] %#x+%#x @%#x' % (self.name, self.index, self.addr, self.size, self.off)


class Phdr:
    __slots__ = ('type', 'flags', 'off', 'vaddr', 'paddr', 'filesz', 'memsz', 'align')

    def __repr__(self):
        return 'ph(%d f%d %#x+%#x/%#x @%#x)' % (self.type, self.flags, self.vaddr, self.filesz,
                                                self.memsz, self.off)


class Esym:
    __slots__ = ('name', 'raw', 'bind', 'type', 'other', 'shndx', 'value', 'size', 'index')

    def __repr__(self):
        return '%s(b%d t%d sh%#x %#x+%d)' % (self.name, self.bind, self.type, self.shndx,
                                             self.value, self.size)


class Elf:
    def __init__(self, data):
        self.data = data
        if len(data) < 64 or data[:4] != b'\x7fELF':
            raise Malformed('no ELF header')
        (self.ident, self.type, self.machine, self.version, self.entry, self.phoff, self.shoff,
         self.flags, self.ehsize, self.phentsize, self.phnum, self.shentsize, self.shnum,
         self.shstrndx) = struct.unpack_from('<16sHHIQQQIHHHHHH', data)
        if self.phentsize != 56 or self.shentsize != 64:
            raise Malformed('entry sizes %d %d' % (self.phentsize, self.shentsize))
        if self.phoff + 56 * self.phnum > len(data):
            raise Malformed('program headers outside of the file')
        if self.shoff + 64 * self.shnum > len(data):
            raise Malformed('section headers outside of the file')
        self.ph = []
        for i in range(self.phnum):
            p = Phdr()
            (p.type, p.flags, p.off, p.vaddr, p.paddr, p.filesz, p.memsz, p.align) = \
                struct.unpack_from('<IIQQQQQQ', data, self.phoff + 56 * i)
            self.ph.append(p)
        self.sh = []
        for i in range(self.shnum):
            s = Shdr()
            (s.name_off, s.type, s.flags, s.addr, s.off, s.size, s.link, s.info, s.align, s.ent) = \
                struct.unpack_from('<IIQQQQIIQQ', data, self.shoff + 64 * i)
            s.index = i
            self.sh.append(s)
        if self.shstrndx >= self.shnum:
            raise Malformed('bad e_shstrndx %d' % self.shstrndx)
        for s in self.sh:
            s.name = self.string(self.sh[self.shstrndx], s.name_off).decode('utf-8', 'replace')
        self.loads = [p for p in self.ph if p.type == 1]
        self._symtab = self._dynsym = None

    def content(self, s):
        if s.type == 8:
            return b''
        if s.off + s.size > len(self.data):
            raise Malformed('section %r outside of the file' % s)
        return self.data[s.off:s.off + s.size]

    def string(self, sec, off):
        c = self.content(sec)
        if off >= len(c):
            if off == 0 and not c:
                return b''
            raise Malformed('string offset %d outside of section %d' % (off, sec.index))
        end = c.find(b'\0', off)
        if end < 0:
            raise Malformed('unterminated string in section %d' % sec.index)
        return c[off:end]

    def section(self, name):
        for s in self.sh:
            if s.name == name:
                return s

    def sections(self, name):
        return [s for s in self.sh if s.name == name]

    def by_type(self, t):
        return [s for s in self.sh if s.type == t]

    def symbols(self, sec):
        if sec.ent != 24 or sec.size % 24:
            raise Malformed('symbol table entry size')
        if sec.link >= self.shnum:
            raise Malformed('symbol table link')
        strs = self.sh[sec.link]
        c = self.content(sec)
        out = []
        for i in range(len(c) // 24):
            y = Esym()
            n, info, y.other, y.shndx, y.value, y.size = struct.unpack_from('<IBBHQQ', c, 24 * i)
            y.raw = self.string(strs, n)
            y.name = y.raw.decode('utf-8', 'replace')
            y.bind, y.type = info >> 4, info & 15
            y.index = i
            out.append(y)
        return out

    @property
    def symtab(self):
        if self._symtab is None:
            t = self.by_type(2)
            if len(t) != 1:
                raise Malformed('%d symbol tables' % len(t))
            self._symtab = self.symbols(t[0])
        return self._symtab

    @property
    def dynsym(self):
        if self._dynsym is None:
            t = self.by_type(11)
            if len(t) != 1:
                raise Malformed('%d dynamic symbol tables' % len(t))
            self._dynsym = self.symbols(t[0])
        return self._dynsym

    def segment(self, addr):
        for p in self.loads:
            if p.vaddr <= addr < p.vaddr + p.memsz:
                return p

    def mem(self, addr, n):
        """Memory as the loader sets it up; None when any of it is not mapped."""
        out = bytearray()
        while n:
            p = self.segment(addr)
            if p is None:
                return None
            k = min(n, p.vaddr + p.memsz - addr)
            o = addr - p.vaddr
            inf = max(0, min(k, p.filesz - o))
            b = self.data[p.off + o:p.off + o + inf]
            if len(b) < inf:
                return None
            out += b + bytes(k - inf)
            addr += k
            n -= k
        return bytes(out)

    def find_all(self, tag):
        """Addresses at which `tag` is in memory."""
        out = []
        for p in self.loads:
            seg = self.data[p.off:p.off + p.filesz]
            i = seg.find(tag)
            while i >= 0:
                out.append(p.vaddr + i)
                i = seg.find(tag, i + 1)
        return out

    def u64(self, addr):
        b = self.mem(addr, 8)
        return None if b is None else struct.unpack('<Q', b)[0]

    def dynamic(self):
        d = [p for p in self.ph if p.type == 2]
        if len(d) != 1:
            raise Malformed('%d PT_DYNAMIC' % len(d))
        b = self.mem(d[0].vaddr, d[0].memsz)
        if b is None or len(b) % 16:
            raise Malformed('unreadable dynamic segment')
        out = []
        for i in range(0, len(b), 16):
            t, v = struct.unpack_from('<QQ', b, i)
            if t == 0:
                return out, i + 16
            out.append((t, v))
        raise Malformed('dynamic section is not terminated')

    def relas(self, addr, size):
        b = self.mem(addr, size) if size else b''
        if b is None or len(b) % 24:
            raise Malformed('unreadable relocation table')
        return [(o, i & 0xffffffff, i >> 32, a)
                for o, i, a in struct.iter_unpack('<QQq', b)]
