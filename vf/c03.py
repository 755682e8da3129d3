"""C03: where the contents of input sections end up."""
from .common import *
from .gen import *


def profile(rng):
    k = rng.randrange(5)
    p = dict(nrel=(0, 4), nglob=(1, 6), narch=rng.choice([0, 0, 1, 2]), nlib=rng.choice([0, 0, 1]))
    if k == 0:
        p.update(nobj=(1, 20), nsec=(1, 5), kinds=rng.sample(list(KINDS), rng.randrange(1, 5)))
    elif k == 1:
        p.update(nobj=(1, 5), nsec=(4, 20), weird_align=0.3)
    elif k == 2:
        p.update(nobj=(2, 6), nsec=(2, 10), mix=0.6)
    elif k == 3:
        p.update(nobj=(1, 6), nsec=(2, 8), big=0.2)
    else:
        p.update(nobj=(2, 8), nsec=(1, 8), kinds=['bss', 'data', 'nobits_ro', 'nobits_x', 'text'],
                 sym_weights=[2, 2, 8, 1, 3, 2, 0])
    return p


def shape(w, v):
    return [sorted((s.name, s.type, s.flags, s.align, min(s.size, 64)) for s in o.secs)
            for o in w.linked]


def many_case(rng, idx, d, rep):
    """More parts, or more sections, than small numbers can count."""
    w = World()
    objs, secs = rng.choice([(300, 1), (2, 300), (1, 700), (120, 4), (40, 30)])
    for i in range(objs):
        o = Obj('o%d.o' % i)
        for k in range(secs):
            name = rng.choice(['.text', '.data', '.rodata', '.bss', '.d%d' % (k % 400), '.data'])
            typ = SHT_NOBITS if name == '.bss' else SHT_PROGBITS
            fl = {'.text': 6, '.rodata': 2}.get(name, 3)
            s = o.sec(name, typ, fl, rng.choice([1, 1, 2, 4, 8, 16, 64]))
            if typ == SHT_NOBITS:
                s.nobits_size = rng.randrange(1, 100)
            else:
                tag = rng.randbytes(12)
                s.data += tag + rng.randbytes(rng.randrange(0, 40))
                s.tag = (0, tag)
        w.objs.append(o)
    o = rng.choice(w.objs)
    tag = rng.randbytes(12)
    t = o.sec('.text', SHT_PROGBITS, 6, 1, tag, tag=(0, tag))
    o.sym('_start', STB_GLOBAL, STT_FUNC, t, 0)
    for o in w.objs:
        hosts = [s for s in o.secs if s.tag]
        for s in o.secs:
            if not s.tag:
                if not hosts:
                    tag = rng.randbytes(12)
                    hosts = [o.sec('.data', SHT_PROGBITS, 3, 1, tag, tag=(0, tag))]
                h = rng.choice(hosts)
                h.relocs.append(Rel(len(h.data), R['R64'], o.secsym(s), 0))
                h.data += bytes(8)
    w.cmd = ['-o', 'out'] + w.objs
    w.resolve()
    w.emit(d, rng)
    data = linked(w.link(d), d, rep)
    v = data and view(w, data, rep)
    if v:
        judge(oracle_layout, v, rep)
    rep.count('links of many sections')
    rep.shape(objs, secs, len({s.name for o in w.objs for s in o.secs}))


def main():
    c = core.Check('C03', rule='random worlds whose sections carry unique tags or are pointed at, '
                   'with many objects, many sections, unusual alignments, mixed permissions, large '
                   'and zero-initialised parts; distinct by the multiset of section names, types, '
                   'flags, alignments and sizes')
    T = core.THOROUGH
    c.run(world_case([oracle_layout], profile, shape=shape), 60000 if T else 8000,
          1500 if T else 80, 'w')
    c.run(many_case, 300 if T else 40, 300 if T else 30, 'm')
    c.finish()
