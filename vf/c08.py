"""C08: the hash tables."""
from .common import *
from .gen import *


def collide(rng, n):
    """Names with equal hash values (under one of the hash functions), or equal low bits."""
    k = rng.randrange(5)
    out = set()
    if k == 0:
        # 33 * 'a' + 'b' == 33 * 'b' + 'A'
        while len(out) < min(n, 64):
            out.add(''.join(rng.choice(['ab', 'bA']) for _ in range(6)))
    elif k == 1:
        # 16 * 'a' + 'q' == 16 * 'b' + 'a'
        while len(out) < min(n, 64):
            out.add(''.join(rng.choice(['aq', 'ba']) for _ in range(6)))
    elif k == 2:
        m = rng.choice([2, 4, 8, 64, 3])
        x = gnu_hash('s%d' % rng.randrange(1000)) % m
        i = 0
        while len(out) < n:
            s = 's%d' % i
            i += 1
            if gnu_hash(s) % m == x:
                out.add(s)
    elif k == 3:
        m = rng.choice([2, 4, 8, 64, 3])
        x = elf_hash('s%d' % rng.randrange(1000)) % m
        i = 0
        while len(out) < n:
            s = 's%d' % i
            i += 1
            if elf_hash(s) % m == x:
                out.add(s)
    else:
        # high bits of the SysV hash, and bytes with the top bit set
        while len(out) < n:
            out.add(''.join(rng.choice(['\u00ff', 'z', '\U0010ffff', '\x7f', 'é']) for _ in
                            range(rng.randrange(1, 20))))
    return sorted(out)


def case(rng, idx, d, rep):
    w = World()
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 130, 257, 300]) \
        if rng.random() < 0.7 else rng.randrange(0, 60)
    if core.THOROUGH and rng.random() < 0.02:
        n = rng.randrange(300, 3000)
    names = Names(rng)
    lst = set()
    while len(lst) < n:
        if rng.random() < 0.4:
            for x in collide(rng, rng.randrange(1, n - len(lst) + 1)):
                if names.ok(x):
                    lst.add(x)
        else:
            lst.add(names.new())
    lst = sorted(lst)
    rng.shuffle(lst)
    nlib = rng.choice([1, 1, 2, 3])
    w.libs = [Lib('lib%d.so' % i, []) for i in range(nlib)]
    g = Gen(rng, nobj=1, narch=0, nlib=0, nglob=(0, 1), nrel=(0, 0), arrays=False, big=0)
    g.w = w
    o = Obj('o.o')
    tag = rng.randbytes(12)
    t = o.sec('.text', SHT_PROGBITS, 6, 1, tag, tag=(0, tag))
    tag = rng.randbytes(12)
    dt = o.sec('.data', SHT_PROGBITS, 3, 1, tag, tag=(0, tag))
    o.sym('_start', 1, 2, t, 0)
    unused = []
    for x in lst:
        l = rng.choice(w.libs)
        l.syms.append(g.dyn_def(x))
        if rng.random() < 0.1:
            unused.append(x)
            continue
        y = o.sym(x, 1, 0, UND)
        k = rng.randrange(5)
        if k == 0:
            t.relocs.append(Rel(len(t.data) + 1, R['PLT32'], y, -4))
            t.data += b'\xe8\0\0\0\0'
        elif k == 1:
            dt.relocs.append(Rel(len(dt.data), R['R64'], y, 0))
            dt.data += bytes(8)
        elif k == 2:
            t.relocs.append(Rel(len(t.data) + 3, R['REX_GOTPCRELX'], y, -4))
            t.data += b'\x48\x8b\x05\0\0\0\0'
        elif k == 3:
            t.relocs.append(Rel(len(t.data) + 3, R['PC32'], y, -4))
            t.data += b'\x48\x8d\x05\0\0\0\0'
    w.objs = [o]
    w.hash_style = rng.choice(['sysv', 'gnu', 'both'])
    w.cmd = [o] + w.libs
    rng.shuffle(w.cmd)
    w.libs = [x for x in w.cmd if isinstance(x, Lib)]
    w.cmd += rng.choice([['--hash-style=' + w.hash_style], ['--hash-style', w.hash_style]]) \
        if w.hash_style != 'both' or rng.random() < 0.5 else []
    w.cmd += ['-o', 'out']
    w.resolve()
    w.emit(d, rng)
    data = linked(w.link(d), d, rep)
    v = data and view(w, data, rep)
    if not v:
        return
    absent = set(unused) | set(collide(rng, 40)) | {'', '_start', 'zzz', 'a' * 1000}
    for x in lst[:40]:
        absent |= {x + 'x', x[:-1], x[1:], 'x' + x, x.swapcase()}
        absent |= {x.replace('ab', 'bA', 1), x.replace('bA', 'ab', 1), x.replace('aq', 'ba', 1)}
    judge(oracle_hash, v, rep, sorted(absent))
    rep.count('dynamic symbols', len(v.dynsyms) - 1)
    rep.shape(w.hash_style, n, len(unused), nlib, sorted(lst)[:3])
    rep.sample('%d imports, %s: %r' % (n, w.hash_style, lst[:4]))


def profile(rng):
    return dict(nglob=(5, 60), nlib=rng.choice([1, 2, 3]), nrel=(0, 10), big=0,
                sym_weights=[2, 1, 1, 1, 12, 1, 0])


def main():
    c = core.Check('C08', rule='0 to 300 (thorough: 3000) imports whose names collide under either '
                   'hash function, modulo small numbers, or are odd, for each hash style; every '
                   'dynamic symbol and many absent names are looked up the way ld.so does it; '
                   'distinct by hash style, numbers and names')
    T = core.THOROUGH
    c.run(case, 30000 if T else 4000, 1200 if T else 70, 'n')
    c.run(world_case([oracle_hash], profile), 8000 if T else 1000, 300 if T else 30, 'w')
    c.finish()
