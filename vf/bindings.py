"""All assignments of bindings to one name over a few objects, many names to a world."""
import itertools

from .common import *
from .gen import *

# what an object has of the name
KINDS_OF = ['none', 'und', 'wund', 'local', 'weak', 'strong', 'common', 'local+und',
            'local+strong', 'local+weak', 'abs']
# the same in sections that several objects can have
GROUP_KINDS = ['group', 'weak group']
# who else has it
PROVIDERS = ['none', 'lib func', 'lib object', 'lib weak', 'archive strong', 'archive weak',
             'archive common', 'two archives', 'two libs']


def verdict(kinds, prov):
    """'ok', 'duplicate', 'undefined', or None for what is not worth a link."""
    strong = sum(k in ('strong', 'local+strong', 'abs') for k in kinds) + ('group' in kinds)
    defined = strong or any(k in ('weak', 'common', 'local+weak', 'weak group') for k in kinds)
    und = any(k in ('und', 'local+und') for k in kinds)
    if all(k == 'none' for k in kinds):
        return None
    if strong > 1:
        return 'duplicate'
    if not defined and und and prov == 'none':
        return 'undefined'
    return 'ok'


class Enum:
    def __init__(self, rng, nobj):
        self.r = rng
        self.w = World()
        for i in range(nobj):
            self.w.objs.append(self.object('o%d.o' % i))
        self.libs = [Lib('liba.so', []), Lib('libb.so', [], 'libb.so.1')]
        self.arch = [Archive('a.a', []), Archive('b.a', [])]
        self.n = 0

    def object(self, name):
        o = Obj(name)
        for n, f in (('.text', A | X), ('.data', A | W), ('.rodata', A)):
            tag = self.r.randbytes(12)
            o.sec(n, SHT_PROGBITS, f, 1, tag, tag=(0, tag))
        return o

    def place(self, o, name, bind, typ=None, s=None):
        s = s or self.r.choice(o.secs[:3])
        s.data += self.r.randbytes(self.r.randrange(1, 9))
        t = typ if typ is not None else self.r.choice([STT_NOTYPE, STT_OBJECT, STT_FUNC])
        y = o.sym(name, bind, t, s, len(s.data), self.r.randrange(1, 8))
        s.data += self.r.randbytes(8)
        return y

    def probe(self, o, y):
        s = o.secs[self.r.choice([1, 1, 2])]
        s.relocs.append(Rel(len(s.data), R['R64'], y, 0))
        s.data += bytes(8)

    def have(self, o, name, kind):
        r = self.r
        out = []
        for k in kind.split('+'):
            if k == 'und':
                y = o.sym(name, STB_GLOBAL, r.choice([0, 0, 1, 2]), UND)
            elif k == 'wund':
                y = o.sym(name, STB_WEAK, r.choice([0, 0, 1, 2]), UND)
            elif k == 'local':
                y = self.place(o, name, STB_LOCAL)
            elif k == 'weak':
                y = self.place(o, name, STB_WEAK)
            elif k == 'strong':
                y = self.place(o, name, STB_GLOBAL)
            elif 'group' in k:
                tag = r.randbytes(12)
                s = o.sec(r.choice(['.text', '.grp']), SHT_PROGBITS, A | X, 1, tag, tag=(0, tag))
                y = self.place(o, name, STB_GLOBAL if k == 'group' else STB_WEAK, None, s)
                o.group(y if k == 'group' else o.sym('weak ' + name, STB_LOCAL, 0, s), [s])
            elif k == 'abs':
                y = o.sym(name, STB_GLOBAL, 0, ABS, r.randrange(1 << 64))
            elif k == 'common':
                y = o.sym(name, STB_GLOBAL, STT_OBJECT, COM, 1 << r.randrange(7),
                          r.randrange(1, 200))
            else:
                continue
            out.append(y)
        for y in out:
            self.probe(o, y)

    def add(self, kinds, prov, name=None):
        r = self.r
        name = name or 'n%d' % self.n
        self.n += 1
        for o, k in zip(self.w.objs, kinds):
            self.have(o, name, k)
        if prov == 'two libs':
            for l in self.libs:
                l.syms.append(DynSym(name, STT_FUNC))
        elif prov.startswith('lib'):
            r.choice(self.libs).syms.append(
                DynSym(name, {'lib func': STT_FUNC, 'lib weak': STT_FUNC}.get(prov, STT_OBJECT),
                       STB_WEAK if prov == 'lib weak' else STB_GLOBAL, size=8))
        elif prov == 'two archives':
            for a in self.arch:
                m = self.object('m%d.o' % self.n)
                a.members.append(m)
                self.have(m, name, 'strong')
        elif prov.startswith('archive'):
            m = self.object('m%d.o' % self.n)
            a = r.choice(self.arch)
            a.members.insert(r.randrange(len(a.members) + 1), m)
            self.have(m, name, prov.split()[1])

    def done(self):
        r, w = self.r, self.w
        o = r.choice(w.objs)
        o.sym('_start', STB_GLOBAL, STT_FUNC, o.secs[0], 0)
        for o in w.objs:
            r.shuffle(o.syms)
        w.archives = [a for a in self.arch if a.members]
        w.libs = [l for l in self.libs if l.syms]
        order = w.objs + w.archives + w.libs
        r.shuffle(order)
        w.objs = [x for x in order if isinstance(x, Obj)]
        w.archives = [x for x in order if isinstance(x, Archive)]
        w.libs = [x for x in order if isinstance(x, Lib)]
        w.cmd = ['-o', 'out'] + order
        w.resolve()
        return w


def assignments(nobj, want, kinds_of=KINDS_OF + GROUP_KINDS):
    for kinds in itertools.product(kinds_of, repeat=nobj):
        for p in PROVIDERS:
            if verdict(kinds, p) in want:
                yield kinds, p
