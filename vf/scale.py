"""Inputs with very many of one thing. Each function returns the inputs and options of a link with
`n` of them."""

import itertools

from .elfw import *


def text(o, n=16):
    return o.sec('.text', flags=6, align=16, data=b'\x90' * n)


def start(o):
    t = text(o)
    o.sym('_start', 1, 2, t, 0, 4)
    return t


def sections(n):
    o = Obj('a')
    start(o)
    for i in range(n):
        o.sec('.d%d' % i, flags=3, data=b'1234')
    return [('a.o', write_obj(o))]


def samename(n):
    o = Obj('a')
    start(o)
    for i in range(n):
        o.sec('.d', flags=3, data=b'1234')
    return [('a.o', write_obj(o))]


def undefs(n):
    o = Obj('a')
    t = start(o)
    for i in range(n):
        o.sym('undef_%d' % i)
    return [('a.o', write_obj(o))]


def weakundefs(n):
    o = Obj('a')
    t = start(o)
    for i in range(n):
        o.sym('undef_%d' % i, 2)
    return [('a.o', write_obj(o))]


def defs(n):
    o = Obj('a')
    t = start(o)
    for i in range(n):
        o.sym('def_%d' % i, 1, 0, t, i % 16)
    return [('a.o', write_obj(o))]


def locals_(n):
    o = Obj('a')
    t = start(o)
    for i in range(n):
        o.sym('def_%d' % i, 0, 0, t, i % 16)
    return [('a.o', write_obj(o))]


def relocs(n):
    o = Obj('a')
    t = start(o)
    t.data += bytes(8 * n)
    s = o.sym('x', 1, 0, t, 0)
    for i in range(n):
        t.relocs.append(Rel(16 + 8 * i, 1, s, i))
    return [('a.o', write_obj(o))]


def relocs_many(n):
    o = Obj('a')
    t = start(o)
    t.data += bytes(8 * n)
    for i in range(n):
        t.relocs.append(Rel(16 + 8 * i, 1, o.sym('x%d' % i, 1, 0, t, i % 16), i))
    return [('a.o', write_obj(o))]


def imports(n, typ=STT_FUNC, rel=4, alias=False):
    o = Obj('a')
    t = start(o)
    t.data += bytes(8 * n)
    for i in range(n):
        t.relocs.append(Rel(16 + 8 * i, rel, o.sym('imp_%d' % i), -4))
    return [
        ('a.o', write_obj(o)),
        (
            'l.so',
            write_so([DynSym('imp_%d' % i, typ, value=4096 if alias else None) for i in range(n)]),
        ),
    ]


def gotimports(n):
    return imports(n, STT_OBJECT, 9)


def copies(n):
    return imports(n, STT_OBJECT, 2)


def copyalias(n):
    return imports(n, STT_OBJECT, 2, True)


def aliases(n):
    return imports(n, alias=True)


def gotlocal(n):
    o = Obj('a')
    t = start(o)
    t.data += bytes(8 * n)
    for i in range(n):
        t.relocs.append(Rel(16 + 8 * i, 9, o.sym('x%d' % i, 1, 0, t, i % 16), -4))
    return [('a.o', write_obj(o))]


def exports(n):
    o = Obj('a')
    t = start(o)
    for i in range(n):
        o.sym('def_%d' % i, 1, 2, t, i % 16)
    return [
        ('a.o', write_obj(o)),
        ('l.so', write_so([DynSym('def_%d' % i, defined=False) for i in range(n)])),
    ]


def members(n, rev):
    ms = []
    for i in range(n):
        m = Obj('m%d' % i)
        t = m.sec('.text', flags=6, data=b'\x90' * 8)
        m.sym('f%d' % i, 1, 2, t, 0)
        if i + 1 < n:
            m.sym('f%d' % (i + 1))
        ms.append(('m%d.o' % i, write_obj(m), ['f%d' % i]))
    if rev:
        ms.reverse()
    o = Obj('a')
    start(o)
    o.sym('f0')
    return [('a.o', write_obj(o)), ('m.a', write_archive(ms))]


def chain(n):
    return members(n, False)


def wide(n):
    ms = []
    o = Obj('a')
    start(o)
    for i in range(n):
        m = Obj('m%d' % i)
        t = m.sec('.text', flags=6, data=b'\x90' * 8)
        m.sym('f%d' % i, 1, 2, t, 0)
        ms.append(('m%d.o' % i, write_obj(m), ['f%d' % i]))
        o.sym('f%d' % i)
    return [('a.o', write_obj(o)), ('m.a', write_archive(ms))]


def archives(n):
    out = []
    o = Obj('a')
    start(o)
    o.sym('f0')
    out.append(('a.o', write_obj(o)))
    for i in range(n):
        m = Obj('m%d' % i)
        t = m.sec('.text', flags=6, data=b'\x90' * 8)
        m.sym('f%d' % i, 1, 2, t, 0)
        pass
        if i + 1 < n:
            m.sym('f%d' % (i + 1))
        out.append(
            (
                'm%d.a' % i,
                write_archive([('m%d.o' % i, write_obj(m), ['f%d' % i, 'g%d' % (i + 1)])]),
            )
        )
    return [out[0]] + out[:0:-1]


def twice(o):
    a = write_obj(o)
    o.syms = [y for y in o.syms if y.name != '_start']
    return [('a.o', a), ('b.o', write_obj(o))]


def groups(n):
    o = Obj('a')
    start(o)
    for i in range(n):
        s = o.sec('.text.g%d' % (i % 50), flags=6, data=b'\x90' * 4)
        y = o.sym('g%d' % i, 2, 2, s, 0)
        o.group(y, [s])
    return twice(o)


def onegroup(n):
    o = Obj('a')
    start(o)
    ss = [o.sec('.text.g', flags=6, data=b'\x90' * 4) for i in range(n)]
    y = o.sym('g', 2, 2, ss[0], 0)
    o.group(y, ss)
    return twice(o)


def prios(n):
    o = Obj('a')
    t = start(o)
    for i in range(n):
        s = o.sec('.init_array.%05d' % (i % 60000), type=14, flags=3, align=8, data=bytes(8))
        s.relocs.append(Rel(0, 1, o.secsym(t), 0))
    return [('a.o', write_obj(o))]


def commons(n):
    o = Obj('a')
    start(o)
    for i in range(n):
        o.sym('c%d' % i, 1, 1, COM, 8, 8)
    return [('a.o', write_obj(o))]


def records(n):
    o = Obj('a')
    t = start(o)
    t.data += bytes(16 * n)
    e = o.sec('.eh_frame', flags=2, align=8)
    cie = (
        bytes([0, 0, 0, 0, 1])
        + b'zR\0'
        + bytes([1, 0x78, 16, 1, 0x1B])
        + bytes([0xC, 7, 8, 0x90, 1, 0, 0])
    )
    cie += bytes(-(4 + len(cie)) % 8)
    e.data += struct.pack('<I', len(cie)) + cie
    for i in range(n):
        off = len(e.data)
        fde = struct.pack('<IiI', off + 4, 0, 16) + bytes(1)
        fde += bytes(-(4 + len(fde)) % 8)
        e.data += struct.pack('<I', len(fde)) + fde
        e.relocs.append(Rel(off + 8, 2, o.secsym(t), 16 + 16 * i))
    e.data += bytes(4)
    return [('a.o', write_obj(o)), '--eh-frame-hdr']


def script(n):
    return [
        (
            's.txt',
            b'GROUP ( '
            + b' '.join(b'a.o' if i == 0 else b'AS_NEEDED ( l.so )' for i in range(n))
            + b')',
        ),
        imports(1),
    ]


def longname(n):
    o = Obj('a')
    start(o)
    y = o.sym('x' * n * 50)
    return [('a.o', write_obj(o))]


def samehash(n):
    # names with one sysv hash
    o = Obj('a')
    t = start(o)
    names = []
    for c in itertools.product(('aq', 'ba'), repeat=max(1, (n - 1).bit_length())):
        names.append(''.join(c))
    names = names[:n]
    t.data += bytes(8 * n)
    for i, x in enumerate(names):
        t.relocs.append(Rel(16 + 8 * i, 4, o.sym(x), -4))
    return [('a.o', write_obj(o)), ('l.so', write_so([DynSym(x) for x in names]))]


def refused_sections(n):
    # more than the header can count
    out = sections(1)
    for k in range(4):
        o = Obj('b')
        for i in range(17000):
            o.sec('.d%d_%d' % (k, i), flags=3, data=b'1234')
        out.append(('b%d.o' % k, write_obj(o)))
    return out


def refused_twice(n):
    # two definitions of everything
    a = defs(n)
    return a + [('b.o', a[0][1])]


# what is linked, and how much of it (in thousands) the quick check has
CASES = [
    (sections, 20), (samename, 20), (weakundefs, 20), (defs, 20), (locals_, 20), (relocs, 20),
    (relocs_many, 20), (imports, 10), (gotimports, 10), (copies, 10), (copyalias, 10),
    (aliases, 10), (gotlocal, 20), (exports, 10), (chain, 4), (wide, 10), (archives, 0.6),
    (groups, 10), (onegroup, 10), (prios, 20), (commons, 10), (records, 20), (script, 3),
    (samehash, 4), (undefs, 20), (longname, 20), (refused_sections, 1), (refused_twice, 20),
]
REFUSED = (undefs, longname, refused_sections, refused_twice)
