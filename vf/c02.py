"""C02: relocated fields."""
from .common import *
from .gen import *


def profile(rng):
    return dict(nrel=(4, 30), nglob=(4, 16), nsec=(2, 6), big=0.01,
                sym_weights=[8, 4, 3, 4, 8, 4, 1],
                kinds=rng.choice([None, None, ['text', 'data', 'rodata', 'bss', 'debug']]),
                nlib=rng.choice([0, 1, 1, 2]))


def basic(rng, extra_secs=True):
    """A small world with one object to put the interesting field into."""
    g = Gen(rng, nobj=rng.choice([1, 1, 2, 3]), narch=0, nlib=rng.choice([0, 1]), nrel=(0, 2),
            nglob=(1, 4), arrays=False, big=0)
    w = g.build()
    o = rng.choice(w.objs)
    hosts = [s for s in o.secs if s.tag and s.alloc and s.type == SHT_PROGBITS]
    if not hosts:
        tag = rng.randbytes(12)
        hosts = [o.sec('.data', SHT_PROGBITS, 3, 8, tag, tag=(0, tag))]
    return g, w, o, rng.choice(hosts)


NARROW = {'R32': (0, 2**32 - 1), 'R32S': (-2**31, 2**31 - 1), 'PC32': (-2**31, 2**31 - 1),
          'PLT32': (-2**31, 2**31 - 1)}
# instructions that go through the GOT if the distance is too large
RELAXED = {'call': ('GOTPCRELX', b'\xff\x15'), 'jmp': ('GOTPCRELX', b'\xff\x25'),
           'mov': ('REX_GOTPCRELX', b'\x48\x8b\x05'), 'mov r12': ('REX_GOTPCRELX', b'\x4c\x8b\x25')}


def relax_case(rng, idx, d, rep):
    """Symbols at and next to the limits of what a relaxed instruction reaches."""
    g, w, o, s = basic(rng)
    name = rng.choice(list(RELAXED))
    t, pre = RELAXED[name]
    y = o.sym('limit', rng.choice([STB_LOCAL, STB_GLOBAL, STB_WEAK]), STT_NOTYPE, ABS, 0x200000)
    r = g.field(s, R[t], y, -4, pre)
    w.resolve()
    w.emit(d, rng)
    data = linked(w.link(d), d, rep, 'a link with a small value')
    v = data and view(w, data, rep)
    if not v or s not in v.addr:
        return
    p = v.addr[s] + r.off
    near = rng.randrange(-8, 9)
    y.value = (p + (1 << 31) + near if rng.random() < 0.7 else (p - (1 << 31) + near) & M64)
    w.resolve()
    w.emit(d, rng)
    what = 'a link with %s of %#x at %#x' % (name, y.value, p)
    rep.count('instructions at their limits')
    rep.shape('relax', name, near, y.value > 1 << 40, y.bind)
    data = linked(w.link(d), d, rep, what)
    v = data and view(w, data, rep)
    if v:
        judge(oracle_relocs, v, rep)


def range_case(rng, idx, d, rep):
    """Values at and next to the limits of a field."""
    g, w, o, s = basic(rng)
    name = rng.choice(list(NARROW))
    lo, hi = NARROW[name]
    val = rng.choice([lo, hi, lo - 1, hi + 1, lo - rng.randrange(1, 1 << 40),
                      hi + rng.randrange(1, 1 << 40), lo + rng.randrange(1 << 20),
                      hi - rng.randrange(1 << 20)])
    if name == 'R32' and val > 2**63 - 1:
        val = hi + 1
    a = rng.choice([0, -4, 4, rng.randrange(-1 << 31, 1 << 31), rng.randrange(-1 << 50, 1 << 50)])
    bind = rng.choice([STB_LOCAL, STB_GLOBAL, STB_WEAK])
    y = o.sym('limit', bind, STT_NOTYPE, ABS)
    r = g.field(s, R[name], y, a)
    p = 0
    if name in ('PC32', 'PLT32'):
        # find out where the field is going to be
        y.value = 0x200000
        r.addend = 0
        w.resolve()
        w.emit(d, rng)
        data = linked(w.link(d), d, rep, 'a link with a small value')
        if data is None:
            return
        v = view(w, data, rep)
        if v is None or s not in v.addr:
            return
        p = v.addr[s] + r.off
    # val = S + A - P
    target = val - a + p
    if not -2**63 <= val + p < 2**63 or not 0 <= target < 2**63:
        a = 0
        target = val + p
        if target < 0:
            a, target = target, 0
    r.addend, y.value = a, target
    w.resolve()
    w.emit(d, rng)
    res = w.link(d)
    fits = lo <= val <= hi
    what = 'a link with %s = %#x + %d - %#x = %d' % (name, target, a, p, val)
    rep.count('values that fit' if fits else 'values that do not fit')
    rep.shape('range', name, fits, val in (lo, hi, lo - 1, hi + 1), bind, (a > 0) - (a < 0))
    rep.sample(what)
    if fits:
        data = linked(res, d, rep, what)
        v = data and view(w, data, rep)
        if v:
            judge(oracle_relocs, v, rep)
    else:
        must_fail(res, d, rep, what)


IMPLEMENTED = {R[x] for x in ('NONE', 'R64', 'PC32', 'GOT32', 'PLT32', 'GOTPCREL', 'R32', 'R32S',
                              'GOTPCRELX', 'REX_GOTPCRELX')}
TLS = {R[x] for x in ('DTPMOD64', 'DTPOFF64', 'TPOFF64', 'TLSGD', 'TLSLD', 'DTPOFF32', 'GOTTPOFF',
                      'TPOFF32')}


def types_case(rng, idx, d, rep):
    """Relocation types that are not implemented: refused, or right."""
    g, w, o, s = basic(rng)
    t = rng.choice([x for x in range(0, 45) if x not in IMPLEMENTED] + [50, 100, 255, 1 << 20,
                                                                       0xffffffff])
    k = rng.choice(['def', 'local', 'section', 'zero'])
    if k == 'def':
        y = [x for x in o.syms if isinstance(x.sec, Sec) and x.bind == STB_GLOBAL] or \
            [o.secsym(s)]
        y = rng.choice(y)
    elif k == 'local':
        y = o.sym('here', STB_LOCAL, STT_OBJECT, s, 0)
    elif k == 'section':
        y = o.secsym(s)
    else:
        y = o.sym('nowhere_to_be_found', STB_WEAK, 0, UND)
    g.field(s, t, y, rng.choice([0, -4, 8]), n=8)
    w.resolve()
    w.emit(d, rng)
    res = w.link(d)
    what = 'a link with relocation type %s' % RNAME.get(t, t)
    rep.count('other relocation types')
    rep.shape('type', t, k)
    if res.rc == 0:
        data = linked(res, d, rep, what)
        v = data and view(w, data, rep)
        if v:
            if t in (R['R8'], R['R16'], R['PC8'], R['PC16']) or t in TLS:
                rep.bad('%s succeeds' % what)
            judge(oracle_relocs, v, rep)
    else:
        must_fail(res, d, rep, what)


def rel_case(rng, idx, d, rep):
    """Relocations whose addends are in the fields: refused, or right."""
    g, w, o, s = basic(rng)
    o.rel = True
    t = rng.choice(['R64', 'PC32', 'R32S', 'R32'])
    y = rng.choice([o.secsym(s), o.sym('here', STB_LOCAL, STT_OBJECT, s, 0)])
    g.field(s, R[t], y, rng.choice([4, 8, 16, 1]), n=8 if t == 'R64' else 4)
    for x in o.secs:
        for r in x.relocs:
            if r.type != R['R64'] and not -1 << 31 <= r.addend < 1 << 31:
                raise core.Inconclusive('the addend does not fit')
            struct.pack_into('<q' if r.type == R['R64'] else '<i', x.data, r.off, r.addend)
    w.resolve()
    w.emit(d, rng)
    res = w.link(d)
    what = 'a link with a section of relocations without addends'
    rep.count('sections of relocations without addends')
    rep.shape('rel', t, y.type)
    if res.rc == 0:
        data = linked(res, d, rep, what)
        v = data and view(w, data, rep)
        if v:
            judge(oracle_relocs, v, rep)
    else:
        must_fail(res, d, rep, what)


def far_case(rng, idx, d, rep):
    """Sections that are gigabytes apart: whatever succeeds must be right."""
    g = Gen(rng, nobj=rng.choice([1, 2, 3]), narch=0, nlib=rng.choice([0, 1]), nrel=(0, 0),
            nglob=(2, 6), arrays=False, big=0)
    w = g.build()
    o = rng.choice(w.objs)
    b = o.sec(rng.choice(['.bss', '.huge']), SHT_NOBITS, rng.choice([1 | 2, 2, 2 | 4]), 16,
              size=rng.choice([1 << 30, 2 << 30, (2 << 30) + 4096, 3 << 30, 5 << 30]))
    b.probed = False
    if rng.random() < 0.7:
        for x in w.objs:
            hosts = [s for s in x.secs if s.tag and s.alloc and s.type == SHT_PROGBITS]
            ys = [y for y in x.syms if y.bind != STB_LOCAL and y.name in w.binding and
                  w.binding[y.name][0] in ('def', 'common') and y.sec != ABS]
            for _ in range(rng.randrange(0, 3)):
                if hosts and ys:
                    k = rng.choice(['R64', 'R64', 'R32', 'R32S', 'PC32', 'REX'])
                    if k == 'REX':
                        g.got_load(rng.choice(hosts), rng.choice(ys))
                    else:
                        g.field(rng.choice(hosts), R[k], rng.choice(ys), rng.choice([0, -4, 8]),
                                n=8 if k == 'R64' else 4)
    w.resolve()
    w.emit(d, rng)
    res = w.link(d)
    if res.rc == 0:
        data = linked(res, d, rep)
        v = data and view(w, data, rep)
        if v:
            judge(oracle_relocs, v, rep)
            rep.count('far links that succeed')
    else:
        rep.count('far links that fail')
        must_fail(res, d, rep, 'a link over a long distance')
    rep.shape('far', b.size, b.flags, res.rc)


def main():
    c = core.Check('C02', rule='random worlds of objects, archives and libraries with random '
                   'relocations of every supported type, plus values at the limits of each field, '
                   'unsupported types and sections gigabytes apart; distinct by the shape of the '
                   'world (sections, bindings, relocation types) or by type, limit and symbol kind')
    T = core.THOROUGH
    c.run(world_case([oracle_relocs], profile), 40000 if T else 3000, 900 if T else 60, 'w')
    c.run(range_case, 10000 if T else 900, 300 if T else 25, 'r')
    c.run(relax_case, 5000 if T else 500, 200 if T else 20, 'x')
    c.run(types_case, 4000 if T else 500, 200 if T else 15, 't')
    c.run(rel_case, 300 if T else 40, 60 if T else 10, 'a')
    c.run(far_case, 2000 if T else 200, 200 if T else 20, 'f')
    c.finish()
