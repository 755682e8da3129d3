"""Random worlds: well-formed sets of inputs whose link must succeed."""
import os
import struct

from .elfw import *
from .world import *

WORDS = ('alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi pi rho sigma tau ups '
         'phi chi psi omega main init table buf str list node get put push pop').split()


class Names:
    """Unique global names, of all sorts."""

    def __init__(self, rng, style=None):
        self.r, self.seen = rng, {'', '_start'}
        self.style = style or rng.choice(['plain', 'plain', 'affix', 'long', 'odd', 'utf8', 'mix',
                                          'hash'])

    def raw(self):
        r = self.r
        st = self.style if self.style != 'mix' else r.choice(['plain', 'affix', 'long', 'odd',
                                                              'utf8', 'hash'])
        if st == 'affix':
            # prefixes and suffixes of each other
            base = 'abcdefgh'
            i, j = sorted((r.randrange(9), r.randrange(9)))
            return r.choice(['', 'x', '_']) + base[i:j] + r.choice(['', '1', '_', 'h', 'gh'])
        if st == 'long':
            return r.choice(WORDS) * r.randrange(1, r.choice([4, 40, 400]))
        if st == 'odd':
            return ''.join(r.choice('abzAZ09_$.%#!()<>,;:*&~^-+/ "\'{}[]?=') for _ in range(
                r.randrange(1, 12)))
        if st == 'hash':
            # of few hash values
            return ''.join(r.choice(r.choice([['ab', 'bA'], ['aq', 'ba']])) for _ in range(
                r.choice([1, 4, 7])))
        if st == 'utf8':
            return ''.join(r.choice('aé\u00ffß\u0434\u4e2d\U0001f600z\u007f\u0080') for _ in range(
                r.randrange(1, 8)))
        return r.choice(WORDS) + r.choice(['', '_', '.']) + str(r.randrange(r.choice([5, 50, 5000])))

    def new(self):
        for _ in range(50):
            n = self.raw()
            if self.ok(n):
                break
        else:
            k = len(self.seen)
            while not self.ok(n):
                n = 'n%d' % k
                k += 1
        self.seen.add(n)
        return n

    def ok(self, n):
        return n not in self.seen and n not in LINKER_DEFINED and '@' not in n and n


A, W, X = SHF_ALLOC, SHF_WRITE, SHF_EXEC
KINDS = {
    'text': (SHT_PROGBITS, A | X), 'rodata': (SHT_PROGBITS, A), 'data': (SHT_PROGBITS, A | W),
    'bss': (SHT_NOBITS, A | W), 'rwx': (SHT_PROGBITS, A | W | X),
    'str': (SHT_PROGBITS, A | SHF_MERGE | SHF_STRINGS), 'cst': (SHT_PROGBITS, A | SHF_MERGE),
    'note': (SHT_NOTE, A), 'unwind': (SHT_X86_64_UNWIND, A), 'debug': (SHT_PROGBITS, 0),
    'dstr': (SHT_PROGBITS, SHF_MERGE | SHF_STRINGS), 'nobits_ro': (SHT_NOBITS, A),
    'nobits_x': (SHT_NOBITS, A | X),
}
BASE_NAMES = {
    'text': ['.text', '.text.hot', '.text.startup', '.text.unlikely'],
    'rodata': ['.rodata', '.rodata.f', '.data.rel.ro.local', '.eh_frame'],
    'data': ['.data', '.data.rel', '.tm_clone_table', '.data.rel.local'],
    'bss': ['.bss', '.bss.x', '.lbss'], 'rwx': ['.rwx'], 'str': ['.rodata.str1.1', '.rodata.str1.8'],
    'cst': ['.rodata.cst8', '.rodata.cst16'], 'note': ['.note.gnu.property', '.note.ABI-tag'],
    'unwind': ['.eh_frame_u'], 'debug': ['.debug_info', '.debug_line', '.comment',
                                         '.note.GNU-stack'],
    'dstr': ['.debug_str'], 'nobits_ro': ['.zeros'], 'nobits_x': ['.tramp'],
}


def default_profile(rng):
    return dict(nobj=rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), nsec=(1, 6), kinds=None, nglob=(1, 12),
                nlocal=(0, 5), nrel=(0, 8), narch=rng.choice([0, 0, 0, 1, 2]),
                nlib=rng.choice([0, 0, 1, 1, 2]), arrays=rng.random() < 0.25,
                weird_align=0.1, big=0.03, mix=0.08, nimp=(0, 6), aliases=True, repeat=0.07,
                groups=rng.choice([0, 0, 0, 0, 1, 3]))


class Gen:
    def __init__(self, rng, **over):
        self.r = rng
        self.p = default_profile(rng)
        self.p.update(over)
        self.w = World()
        self.names = Names(rng, self.p.get('name_style'))
        self.secname_kind = {}

    # -- sections -----------------------------------------------------------------------------

    def section_names(self):
        r = self.r
        out = []
        kinds = self.p['kinds'] or list(KINDS)
        weights = {'text': 5, 'rodata': 5, 'data': 6, 'bss': 5, 'debug': 2}
        for k in r.choices(kinds, [weights.get(k, 1) for k in kinds], k=r.randrange(2, 9)):
            n = r.choice(self.p['unloaded']) if k == 'debug' and self.p.get('unloaded') else \
                r.choice(BASE_NAMES[k]) if r.random() < 0.7 else \
                r.choice(['', '.']) + 's' + ''.join(r.choice('abc._') for _ in range(
                    r.randrange(1, 6)))
            if n in SYNTHETIC or n in ('.init', '.fini') or outname(n) != n:
                continue
            out.append((n, self.secname_kind.setdefault(n, k)))
        if not any(k == 'text' for _, k in out):
            out.append(('.text', 'text'))
        self.secname_kind['.text'] = 'text'
        return out

    def alignment(self):
        r = self.r
        if r.random() < self.p['weird_align']:
            return r.choice([1 << 17, 1 << 18, 1 << 20, 1 << 23]) if r.random() < 0.02 else \
                r.choice([0, 256, 1024, 4096, 8192, 65536])
        return r.choice([1, 1, 1, 2, 4, 8, 16, 32, 64])

    def filler(self, n):
        r = self.r
        if n > 4096:
            return r.randbytes(4096) + bytes(n - 8192 if n > 8192 else 0) + \
                r.randbytes(min(4096, n - 4096))
        return r.randbytes(n)

    def make_section(self, o, name, kind):
        r = self.r
        typ, flags = KINDS[kind]
        if flags & A and r.random() < self.p['mix'] and kind not in ('note', 'unwind'):
            # another object asks for other permissions, or brings data for a NOBITS section
            flags = (flags & ~7) | A | r.choice([0, W, X, W | X])
            if typ == SHT_NOBITS and r.random() < 0.5:
                typ = SHT_PROGBITS
        if name == '.note.GNU-stack' and r.random() < 0.2:
            flags |= X
        s = o.sec(name, typ, flags, self.alignment())
        size = r.choice([0, 1, 2, 3, 5, 7, 8, 12, 15]) if r.random() < 0.2 else \
            r.randrange(16, r.choice([24, 64, 200, 600]))
        if r.random() < self.p['big']:
            size = r.choice([4095, 4096, 4097, 65536, 70001, 1 << 20])
        if typ == SHT_NOBITS:
            s.nobits_size = size if r.random() < 0.97 else r.choice([1 << 16, 1 << 16, 1 << 20, 9 << 20])
        else:
            s.data += self.filler(size)
            if size >= 16:
                at = r.randrange(0, size - 12 + 1)
                tag = r.randbytes(12)
                s.data[at:at + 12] = tag
                s.tag = (at, tag)
        if flags & SHF_STRINGS or flags & SHF_MERGE:
            s.entsize = r.choice([1, 8])
        return s

    # -- fields -------------------------------------------------------------------------------

    def field(self, s, typ, sym, addend, pre=b'', post=b'', form=None, n=4):
        """Appends an instruction or datum with a relocated field."""
        r = self.r
        gap = r.randrange(0, 9)
        if typ in (R['GOTPCREL'], R['GOTPCRELX'], R['REX_GOTPCRELX']):
            # the bytes before the field are compared as well
            gap += 3
        s.data += r.randbytes(gap) + pre
        off = len(s.data)
        s.data += r.randbytes(n) + post
        rel = Rel(off, typ, sym, addend, form)
        s.relocs.append(rel)
        if r.random() < 0.3:
            s.data += r.randbytes(r.randrange(8))
        return rel

    def target_kind(self, sym):
        if sym.bind == STB_LOCAL:
            b = ('def', sym)
        else:
            b = self.w.binding[sym.name]
        if b[0] == 'def':
            d = b[1]
            if d.sec == ABS:
                return 'abs_small' if 0 <= d.value < 1 << 30 else 'abs_big'
            if isinstance(d.sec, Sec) and not d.sec.alloc:
                return 'nonalloc'
            return 'addr'
        if b[0] == 'import':
            return 'iobj' if b[2].type == STT_OBJECT else 'ifun'
        return {'zero': 'zero', 'common': 'addr', 'linker': 'addr'}[b[0]]

    def got_load(self, s, sym):
        """An instruction that goes through the GOT."""
        r = self.r
        k = r.randrange(12)
        if k == 11:
            # something that looks like an instruction, but whose operand ends elsewhere
            a = r.choice([0, 4, -5, -8, 8, -3])
            if r.random() < 0.5:
                return self.field(s, R['GOTPCRELX'], sym, a, r.choice([b'\xff\x15', b'\xff\x25']))
            return self.field(s, R['REX_GOTPCRELX'], sym, a,
                              bytes([r.choice([0x48, 0x4c]), 0x8b, 5 | r.randrange(8) << 3]))
        if k == 0:
            return self.field(s, R['GOTPCREL'], sym, -4,
                              bytes([r.choice([0x48, 0x4c]), 0x8b, 5 | r.randrange(8) << 3]))
        if k == 1:
            return self.field(s, R['GOTPCRELX'], sym, -4, b'\xff\x15')
        if k == 2:
            return self.field(s, R['GOTPCRELX'], sym, -4, b'\xff\x25')
        if k in (3, 4):
            return self.field(s, R['REX_GOTPCRELX'], sym, -4,
                              bytes([r.choice([0x48, 0x4c]), 0x8b, 5 | r.randrange(8) << 3]))
        if k == 5:
            op = r.choice([0x03, 0x0b, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x85])
            return self.field(s, R['REX_GOTPCRELX'], sym, -4,
                              bytes([r.choice([0x48, 0x4c]), op, 5 | r.randrange(8) << 3]))
        if k == 6:
            # an immediate follows the field
            if r.random() < 0.5:
                return self.field(s, R['REX_GOTPCRELX'], sym, -5, b'\x48\x83\x3d',
                                  bytes([r.randrange(256)]))
            return self.field(s, R['REX_GOTPCRELX'], sym, -8, b'\x48\x81\x3d', r.randbytes(4))
        if k == 7:
            # push, or an instruction without REX prefix
            if r.random() < 0.5:
                return self.field(s, R['GOTPCRELX'], sym, -4, b'\xff\x35')
            op = r.choice([0x8b, 0x03, 0x3b, 0x85])
            return self.field(s, R['GOTPCRELX'], sym, -4, bytes([0x90, op, 5 | r.randrange(8) << 3]))
        if k == 8:
            return self.field(s, R['GOTPCREL'], sym, r.choice([-4, 0, -5, 4]),
                              b'\xff' + r.choice([b'\x15', b'\x25', b'\x35']))
        if k == 9:
            # data that is the distance of the slot
            return self.field(s, R['GOTPCREL'], sym, r.choice([0, -4, 8]))
        return self.field(s, R['GOT32'], sym, r.choice([0, 0, 4, -8]))

    def reference(self, s, sym):
        r = self.r
        kind = self.target_kind(sym)
        if not s.alloc:
            if kind in ('ifun', 'iobj', 'abs_big'):
                return None
            if r.random() < 0.5:
                return self.field(s, R['R64'], sym, self.addend(), n=8)
            return self.field(s, R['R32'], sym, r.randrange(0, 300))
        if kind == 'nonalloc':
            return None
        k = r.random()
        if kind == 'abs_big':
            if k < 0.6:
                return self.field(s, R['R64'], sym, self.addend(), n=8)
            return self.got_load(s, sym)
        small = lambda: r.choice([0, 0, 1, -1, 4, 8, -8, 127, 0x1000, -0x1000])
        if kind in ('ifun', 'iobj', 'zero', 'abs_small'):
            small = lambda: r.choice([0, 0, 0, 1, 8, 16])
        if k < 0.3:
            return self.field(s, R['R64'], sym, self.addend() if kind != 'ifun' else
                              r.choice([0, 0, 8]), n=8)
        if k < 0.4:
            return self.field(s, R['R32'], sym, max(0, small()) if kind in (
                'zero', 'abs_small') else small())
        if k < 0.5:
            return self.field(s, R['R32S'], sym, small())
        if k < 0.65:
            if kind == 'ifun':
                return self.field(s, R['PC32'], sym, -4, r.choice([b'\xe8', b'\x48\x8d\x05']))
            return self.field(s, R['PC32'], sym, r.choice([-4, -4, -5, -8, 0]) + small(),
                              r.choice([b'\xe8', b'\x48\x8d\x05', b'']))
        if k < 0.78 and kind != 'iobj':
            return self.field(s, R['PLT32'], sym, -4, r.choice([b'\xe8', b'\xe9', b'\x0f\x84']),
                              form='call')
        if k < 0.8:
            return self.field(s, R['NONE'], sym, self.addend(), n=r.choice([1, 4]))
        return self.got_load(s, sym)

    def addend(self):
        r = self.r
        return r.choice([0, 0, 0, 1, -1, 8, 24, -4, 0x7fffffff, -0x80000000, 1 << 40, -(1 << 62),
                         (1 << 63) - 1, -(1 << 63), r.randrange(-1000, 1000)])

    # -- the world ----------------------------------------------------------------------------

    def build(self):
        r, p, w = self.r, self.p, self.w
        pool = self.section_names()
        nobj = p['nobj'] if isinstance(p['nobj'], int) else r.randrange(*p['nobj'])
        for i in range(nobj):
            w.objs.append(self.new_object(r.choice(['o%d.o', 'd%d/x.o', 'o%d']) % i, pool))
        for i in range(p['narch']):
            members = [self.new_object(r.choice(['m%d.o', 'member_with_a_long_name_%d.o', 'm.o',
                                                 'x%d']).replace('%d', str(k)), pool)
                       for k in range(r.randrange(0, 6))]
            w.archives.append(Archive(r.choice(['l%d.a', 'a%d/lib.a']) % i, members))
        self.make_libs()
        self.make_symbols()
        for o in self.all_objects():
            self.add_locals(o)
        self.order = w.objs + w.archives + w.libs
        r.shuffle(self.order)
        w.objs = [x for x in self.order if isinstance(x, Obj)]
        w.archives = [x for x in self.order if isinstance(x, Archive)]
        w.libs = [x for x in self.order if isinstance(x, Lib)]
        w.resolve()
        assert w.ok, (w.undefined, w.duplicate)
        self.add_visibility()
        for o in self.all_objects():
            self.add_references(o)
        if p['arrays']:
            self.add_arrays()
        self.set_values()
        self.probe()
        linked = set(w.linked)
        self.command_line()
        w.resolve()
        if set(w.linked) != linked:
            # the references are for members which only libraries that aren't needed want
            w.cmd = ['--no-as-needed' if c == '--as-needed' else c for c in w.cmd]
            for l in w.libs:
                l.as_needed = False
            w.resolve()
        assert w.ok, (w.undefined, w.duplicate)
        return w

    def all_objects(self):
        return self.w.objs + [m for a in self.w.archives for m in a.members]

    def add_visibility(self):
        """Definitions and references can hide a name from the libraries."""
        r = self.r
        share = r.choice([0, 0.1, 0.4])
        for o in self.all_objects():
            for s in o.syms:
                if s.bind != STB_LOCAL and s.name and r.random() < share and \
                        self.w.binding.get(s.name, [''])[0] in ('def', 'common'):
                    s.other = r.choice([1, 2, 2, 2, 3, 3])

    def new_object(self, name, pool):
        r = self.r
        o = Obj(name)
        lo, hi = self.p['nsec']
        for n, k in r.choices(pool, k=r.randrange(lo, hi)) if r.random() < 0.97 else []:
            self.make_section(o, n, k)
        return o

    def make_libs(self):
        r, w = self.r, self.w
        for i in range(self.p['nlib']):
            syms = []
            for _ in range(r.randrange(0, 8)):
                syms.append(DynSym(self.names.new(), defined=False))
            w.libs.append(Lib('lib%d.so' % i, syms,
                              r.choice([None, 'libsoname%d.so.%d' % (i, r.randrange(9)),
                                        r.choice(['name%d', 'a.so%d', '%d', 'lib %d.1',
                                                  'plugin%d.bin', 'x/y%d.so', 'dir%d/', ' .%d ',
                                                  'é%d']) % i]),
                              r.choice(['both', 'gnu', 'sysv'])))

    def dyn_def(self, name):
        r = self.r
        if r.random() < 0.6:
            return DynSym(name, STT_FUNC, r.choice([STB_GLOBAL, STB_GLOBAL, STB_WEAK]),
                          size=r.choice([0, 1, 16]), other=r.choice([0] * 9 + [3]))
        return DynSym(name, STT_OBJECT, r.choice([STB_GLOBAL, STB_GLOBAL, STB_WEAK]),
                      size=r.choice([1, 2, 3, 4, 7, 8, 16, 40, 100, 4096]),
                      align=r.choice([1, 2, 4, 8, 16, 32, 64, 128]))

    def def_place(self, o):
        """Somewhere to define a symbol."""
        r = self.r
        secs = [s for s in o.secs if s.type not in (SHT_INIT_ARRAY, SHT_FINI_ARRAY)]
        if not secs or r.random() < 0.08:
            return ABS
        s = r.choice(secs)
        return s

    def stype(self, sec):
        r = self.r
        if sec == ABS or sec == UND:
            return r.choice([STT_NOTYPE, STT_OBJECT, STT_FUNC])
        if sec.flags & X:
            return r.choice([STT_FUNC, STT_FUNC, STT_NOTYPE, STT_OBJECT])
        return r.choice([STT_OBJECT, STT_OBJECT, STT_NOTYPE])

    def define(self, o, name, bind):
        sec = self.def_place(o)
        return o.sym(name, bind, self.stype(sec), sec, size=self.r.choice([0, 1, 4, 8, 33, 1000]))

    def make_symbols(self):
        r, w, p = self.r, self.w, self.p
        objs = w.objs
        # the entry point
        cands = [(o, s) for o in objs for s in o.secs if s.flags & X and s.alloc and
                 s.type == SHT_PROGBITS and s.size]
        if not cands:
            o = r.choice(objs)
            s = self.make_section(o, '.text', 'text')
            while s.size < 16 or s.type != SHT_PROGBITS or not s.flags & X:
                o.secs.remove(s)
                s = self.make_section(o, '.text', 'text')
            cands = [(o, s)]
        o, s = r.choice(cands)
        o.sym('_start', STB_GLOBAL, STT_FUNC, s, 0, 1)
        refs = lambda: [x for x in objs if r.random() < 0.5]

        def ref(o, name, bind=None):
            if not any(s.name == name and s.bind != STB_LOCAL for s in o.syms):
                o.sym(name, bind if bind is not None else r.choice([1, 1, 1, 2]), r.choice(
                    [0, 0, 0, 1, 2]), UND)
        for _ in range(r.randrange(*p['nglob'])):
            n = self.names.new()
            k = r.choices(['strong', 'weak', 'common', 'zero', 'import', 'archive', 'got'],
                          p.get('sym_weights', [10, 5, 3, 2, 6, 5, 0.3]))[0]
            if k == 'import' and not w.libs:
                k = 'strong'
            if k == 'archive' and not any(a.members for a in w.archives):
                k = 'weak'
            order = list(objs)
            r.shuffle(order)
            if k == 'strong':
                d = order.pop()
                self.define(d, n, STB_GLOBAL)
                for x in order:
                    if r.random() < 0.15:
                        self.define(x, n, STB_WEAK)
                    elif r.random() < 0.08:
                        self.common(x, n)
                    elif r.random() < 0.5:
                        ref(x, n)
            elif k == 'weak':
                for x in order[:r.randrange(1, len(order) + 1)]:
                    self.define(x, n, STB_WEAK)
                for x in refs():
                    ref(x, n)
            elif k == 'common':
                m = r.randrange(1, len(order) + 1)
                for x in order[:m]:
                    self.common(x, n)
                for x in order[m:]:
                    if r.random() < 0.2:
                        self.define(x, n, STB_WEAK)
                for x in refs():
                    ref(x, n)
            elif k == 'zero':
                for x in refs() or [objs[0]]:
                    ref(x, n, STB_WEAK)
                if w.archives and r.random() < 0.3:
                    # a weak reference doesn't link a member
                    m = [m for a in w.archives for m in a.members]
                    if m:
                        self.define(r.choice(m), n, STB_GLOBAL)
            elif k == 'import':
                l = r.choice(w.libs)
                l.syms.append(self.dyn_def(n))
                objs_ = [s for s in l.syms if s.defined and s.type == STT_OBJECT and
                         not s.alias_of]
                if objs_ and r.random() < 0.25:
                    # one more name for an object
                    l.syms[-1].type = STT_OBJECT
                    if l.syms[-1] is not objs_[0]:
                        l.syms[-1].alias_of = objs_[0]
                    if r.random() < 0.5:
                        l.syms.append(DynSym(self.names.new(), STT_OBJECT, r.choice([1, 2]),
                                             alias_of=objs_[0]))
                    for x in l.syms:
                        if x.alias_of is objs_[0] and r.random() < 0.3:
                            x.alias_size = r.choice([0, 1, 2, 4, 8, 24, 200, 5000])
                if r.random() < 0.15:
                    other = r.choice(w.libs)
                    if other is not l:
                        other.syms.append(self.dyn_def(n))
                        other.syms[-1].type = l.exports()[n].type
                strong = False
                for x in refs():
                    b = r.choice([1, 1, 1, 2])
                    strong |= b == 1
                    ref(x, n, b)
                if not strong:
                    ref(order[0], n, 1)
                    for s in order[0].syms:
                        if s.name == n and not s.defined:
                            s.bind = 1
            elif k == 'archive':
                a = r.choice([a for a in w.archives if a.members])
                m = r.choice(a.members)
                self.define(m, n, STB_GLOBAL)
                for x in refs():
                    ref(x, n)
                for x in self.all_objects():
                    if x is not m and r.random() < 0.2:
                        ref(x, n)
            elif k == 'got':
                for x in refs():
                    ref(x, '_GLOBAL_OFFSET_TABLE_', 1)
        for _ in range(p['groups']):
            self.make_group(ref)
        for l in w.libs:
            for _ in range(r.randrange(0, 4)):
                l.syms.append(self.dyn_def(self.names.new()))
            for _ in range(r.choice([0, 0, 1, 2]) if any(x.defined for x in l.syms) else 0):
                # a callback (readers count the symbols of a library by its hash table, where
                # there's nothing to see if it defines nothing)
                n = [s.name for o in self.all_objects() for s in o.syms if s.bind and s.sec != UND
                     and s.name != '_start' and s.name not in {x.name for x in l.syms}]
                if n:
                    l.syms.append(DynSym(r.choice(n), r.choice([0, 1, 2]), defined=False,
                                         bind=r.choice([1, 1, 2])))
            if r.random() < 0.3:
                # defined by the program: the library's own definition loses
                n = [s.name for o in objs for s in o.syms if s.bind == 1 and s.sec not in
                     (UND, COM) and s.name != '_start']
                if n:
                    n = r.choice(n)
                    if not any(s.name == n for s in l.syms):
                        l.syms.append(self.dyn_def(n))

    def make_group(self, ref):
        """A COMDAT group of some objects, or another group of one."""
        r, w = self.r, self.w
        objs = r.sample(w.objs, r.randrange(1, len(w.objs) + 1))
        flags = r.choice([1, 1, 1, 1, 0])
        if not flags:
            objs = objs[:1]
        elif r.random() < 0.3 and any(a.members for a in w.archives):
            objs.append(r.choice([m for a in w.archives for m in a.members]))
        names = [self.names.new() for _ in range(r.choice([1, 1, 2, 3]))]
        binds = [r.choice([STB_GLOBAL, STB_GLOBAL, STB_WEAK, STB_UNIQUE]) for _ in names]
        secs = r.choices([x for x in self.section_names() if x[1] in (
            'text', 'rodata', 'data', 'bss', 'rwx', 'debug')], k=r.choice([1, 1, 2, 3, r.choice([1, 2, 3, 7, 20, 40])]))
        secs[0] = r.choice([('.text', 'text'), secs[0]])
        style = r.choice(['global', 'global', 'own', 'section', 'local'])
        sig = self.names.new()
        if style == 'section':
            # it names the group
            secs[0] = ('.grp%d' % len(self.secname_kind), secs[0][1])
            self.secname_kind[secs[0][0]] = secs[0][1]
        for o in objs:
            # what is in the group needn't be alike
            ss = [self.make_section(o, n, k) for n, k in secs]
            defs = []
            for n, b in zip(names, binds):
                s = r.choice(ss) if r.random() < 0.5 else ss[0]
                defs.append(o.sym(n, b, self.stype(s), s, size=r.choice([0, 1, 4, 33])))
            y = defs[0]
            if style == 'section':
                y = o.secsym(ss[0])
            elif style != 'global':
                y = o.sym(sig, STB_LOCAL, STT_NOTYPE, r.choice(ss))
            # (the other bits are for processors and systems)
            g = o.group(y, ss, flags | r.choice([0] * 7 + [1 << 20, 1 << 28]))
            if style == 'own':
                y.sec = g
        for n in names:
            for x in w.objs:
                if x not in objs and r.random() < 0.4:
                    ref(x, n)

    def common(self, o, n):
        r = self.r
        o.sym(n, STB_GLOBAL, STT_OBJECT, COM, r.choice([1, 2, 4, 8, 16, 32, 64]),
              r.choice([1, 4, 8, 24, 100, 5000])).large = r.random() < 0.15

    def add_locals(self, o):
        r = self.r
        pool = ['local', 'x', 'buf', 'i', 'fn', '.L1', 'counter'] + \
            [n for n in self.names.seen if n]
        for _ in range(r.randrange(self.p['nlocal'][0], self.p['nlocal'][1] + 1)):
            sec = self.def_place(o)
            o.sym(r.choice(pool), STB_LOCAL, self.stype(sec), sec, size=r.choice([0, 1, 8, 16]))
        if r.random() < 0.4:
            o.sym(r.choice(['a.c', 'main.c', 'b.c']), STB_LOCAL, STT_FILE, ABS)
        if r.random() < 0.5:
            for s in o.secs:
                if r.random() < 0.8:
                    o.secsym(s)

    def add_references(self, o):
        r = self.r
        secs = [s for s in o.secs if s.tag and s.type == SHT_PROGBITS]
        if not secs:
            return
        for _ in range(r.randrange(self.p['nrel'][0], self.p['nrel'][1] + 1)):
            s = r.choice(secs)
            if r.random() < 0.2 and o.secs:
                t = r.choice(o.secs)
                sym = o.secsym(t)
            else:
                c = [y for y in o.syms if y.type not in (STT_FILE, STT_SECTION) and
                     y.sec not in o.groups]
                if not c:
                    continue
                sym = r.choice(c)
            if sym.bind != STB_LOCAL and sym.name not in self.w.binding:
                # of a member that is not linked
                continue
            if sym.name in LINKER_DEFINED:
                self.field(s, r.choice([R['PC32'], R['R64']]) if s.alloc else R['R64'], sym, 0, n=8)
                continue
            self.reference(s, sym)

    def add_arrays(self):
        r = self.r
        for o in self.all_objects():
            funcs = [s for s in o.syms if isinstance(s.sec, Sec) and s.sec.flags & X and
                     s.sec.alloc and (s.bind != STB_WEAK)]
            if not funcs:
                continue
            for name, typ in (('.preinit_array', 16), ('.init_array', 14), ('.fini_array', 15)):
                if r.random() < 0.5:
                    continue
                if name != '.preinit_array' and r.random() < 0.3:
                    name += r.choice(['.%05d', '.%05d', '.%d']) % r.choice(
                        [100, 101, 200, 65535, 0, 1, 9, 10])
                s = o.sec(name, typ, A | W, 8)
                s.probed = False
                for k in range(r.randrange(0, 4)):
                    s.data += bytes(8)
                    s.relocs.append(Rel(8 * k, R['R64'], r.choice(funcs), 0))
            for name in ('.init', '.fini'):
                if r.random() < 0.3:
                    self.secname_kind[name] = 'text'
                    self.make_section(o, name, 'text')
        for a in ('preinit', 'init', 'fini'):
            for e in ('start', 'end'):
                if r.random() < 0.4:
                    o = r.choice(self.w.objs)
                    secs = [s for s in o.secs if s.tag and s.alloc and s.type == SHT_PROGBITS]
                    if secs:
                        y = o.sym('__%s_array_%s' % (a, e), r.choice([1, 2]), 0, UND)
                        self.field(r.choice(secs), R['R64'], y, 0, n=8)

    def set_values(self):
        r = self.r
        for o in self.all_objects():
            for s in o.syms:
                if isinstance(s.sec, Sec) and s.type != STT_SECTION:
                    s.value = r.choice([0, s.sec.size, r.randrange(s.sec.size + 1)])
                    if s.name == '_start' and s.bind:
                        s.value = r.randrange(s.sec.size)
                elif s.sec == ABS and s.type != STT_FILE:
                    s.value = r.choice([0, 1, 0x1234, 0x3fffffff])
                    if s.bind == STB_LOCAL or not self.relocated(s):
                        pass
        # decide about big absolute values where only wide references exist
        for o in self.all_objects():
            for s in o.syms:
                if s.sec == ABS and s.type != STT_FILE and not self.narrow(s):
                    s.value = r.choice([s.value, 1 << 63, (1 << 64) - 1, 0x123456789abc])

    def relocated(self, s):
        return True

    def narrow(self, s):
        """Is there a reference that could not hold a big value?"""
        for o in self.all_objects():
            for x in o.secs:
                for rel in x.relocs:
                    if rel.sym is s or (s.bind != STB_LOCAL and rel.sym is not None and
                                        rel.sym.bind != STB_LOCAL and rel.sym.name == s.name):
                        if rel.type not in (R['R64'], R['NONE']):
                            return True
        return False

    def probe(self):
        """Makes sure that the place of each section can be told."""
        r = self.r
        for o in self.all_objects():
            need = [s for s in o.secs if s.tag is None and s.probed and s.alloc]
            if not need:
                continue
            hosts = [s for s in o.secs if s.tag and s.alloc and s.type == SHT_PROGBITS]
            if not hosts:
                tag = r.randbytes(12)
                h = o.sec(r.choice(['.data', '.probe']), SHT_PROGBITS, A | W, 1, tag, tag=(0, tag))
                hosts = [h]
            for s in need:
                self.field(r.choice(hosts), R['R64'], o.secsym(s), 0, n=8)

    def command_line(self):
        r, w = self.r, self.w
        as_needed = False
        cmd = []
        order = list(self.order)
        seen = []
        if w.libs and r.random() < self.p['repeat']:
            # some libraries are given repeatedly
            for x in r.choices(w.libs, k=r.randrange(1, 4)):
                order.insert(r.randrange(order.index(x) + 1, len(order) + 1), x)
        for x in order:
            if r.random() < 0.3:
                as_needed = r.random() < 0.5
                cmd.append(['--as-needed' if as_needed else '--no-as-needed'])
            if isinstance(x, Lib):
                # once without --as-needed is enough
                x.as_needed = as_needed and (x.as_needed or x not in seen)
                x.repeated = x in seen
                seen.append(x)
            cmd.append([x])
        opts = [['-o', w.output]]
        if r.random() < 0.7:
            w.hash_style = r.choice(['sysv', 'gnu', 'both'])
            opts.append(['--hash-style=' + w.hash_style] if r.random() < 0.5 else
                        ['--hash-style', w.hash_style])
        if r.random() < 0.3:
            w.interp = r.choice(['/lib/ld.so', '/x', '/lib64/ld-linux-x86-64.so.2',
                                 '/a/very/long/path/' * 9 + 'ld.so'])
            opts.append(['-dynamic-linker', w.interp])
        if r.random() < 0.2:
            opts.append(['-m', 'elf_x86_64'])
        if r.random() < 0.2:
            opts.append(['--eh-frame-hdr'])
        if r.random() < 0.2:
            opts.append(['-z', 'relro'])
        for o in opts:
            at = r.randrange(len(cmd) + 1)
            cmd.insert(at, o)
        w.cmd = [x for c in cmd for x in c]
