"""C14: corrupt and foreign inputs."""
import os
import resource
import shutil
import stat
import struct

from .common import *
from .corrupt import *
from .gen import *
from . import elfr, scale

LIMITS = {resource.RLIMIT_CPU: 30, resource.RLIMIT_AS: 6 << 30, resource.RLIMIT_FSIZE: 1 << 30,
          resource.RLIMIT_CORE: 0}


def profile(rng):
    return dict(nobj=rng.choice([1, 1, 2, 3]), nsec=(1, 5), nglob=(2, 10), nrel=(1, 8),
                narch=rng.choice([0, 0, 1]), nlib=rng.choice([0, 1]), big=0,
                weird_align=0.02, arrays=rng.random() < 0.2, groups=rng.choice([0, 0, 1, 2]))


def judge_run(res, d, rep, what, refuse):
    """Whether the linker has coped."""
    if res.timeout or res.rc in (-24, -9):
        rep.bad('%s: the linker doesn\'t end' % what)
        return
    if res.rc < 0:
        rep.bad('%s: the linker ends with signal %d: %s' % (what, -res.rc, res.err[-300:]))
        return
    out = os.path.join(d, 'out')
    if res.rc == 0:
        rep.count('accepted')
        if refuse:
            rep.bad('%s: the link succeeds' % what)
        elif not os.path.isfile(out):
            rep.bad('%s: the link succeeds without an output' % what)
        return
    rep.count('refused')
    if res.rc == 101:
        rep.count('refused by a panic')
    if not res.err.strip():
        rep.bad('%s: the link fails without a diagnostic' % what)
    if os.path.lexists(out):
        rep.bad('%s: the link fails, but leaves a file of %d bytes with mode %o' % (
            what, os.path.getsize(out), stat.S_IMODE(os.lstat(out).st_mode)))


def good_world(rng, d, rep, **over):
    p = profile(rng)
    p.update(over)
    w = Gen(rng, **p).build()
    w.emit(d, rng)
    return w


def link(w, d, **kw):
    with open(os.path.join(d, 'cmd.txt'), 'w') as f:
        f.write('\n'.join(w.args()) + '\n')
    return core.dld(w.args(), d, limits=LIMITS, **kw)


def read(d, name):
    with open(os.path.join(d, name), 'rb') as f:
        return f.read()


def write(d, name, data):
    with open(os.path.join(d, name), 'wb') as f:
        f.write(bytes(data))


def spoil_case(rng, idx, d, rep):
    """One definite mistake in an object."""
    w = good_world(rng, d, rep)
    objs = [o for o in w.objs]
    for _ in range(60):
        o = rng.choice(objs)
        img = Image(read(d, o.name))
        what = spoil_object(rng, img)
        if what:
            break
    else:
        return
    if bytes(img.b[:8]) == b'!<arch>\n' or not img.b.strip():
        return
    write(d, o.name, img.b)
    judge_run(link(w, d), d, rep, '%s: %s' % (o.name, what), True)
    kind = what.split(' set to')[0].split(' of ')[0].split(' to ')[0]
    rep.count('object: ' + kind)
    rep.shape('object', what)
    rep.sample(what)


def member_case(rng, idx, d, rep):
    """One definite mistake in an archive, or in a member that is linked."""
    w = good_world(rng, d, rep, narch=1, nobj=2)
    a = w.archives[0]
    linked_ = [m for m in a.members if m in w.linked]
    if not linked_:
        return
    data = read(d, a.name)
    ms = members(data)
    body = [m for m in ms if m[3] not in ('/', '//')]
    assert len(body) == len(a.members)
    k = rng.choice(['member', 'member', 'member', 'truncated', 'size', 'index', 'index', 'index count',
                    'header', 'member data'])
    i = a.members.index(rng.choice(linked_))
    h, at, size, name = body[i]
    b = bytearray(data)
    what = k
    if k == 'member':
        img = Image(bytes(data[at:at + size]))
        what = spoil_object(rng, img)
        if not what or what.startswith('truncated'):
            return
        b[at:at + size] = img.b
    elif k == 'truncated':
        n = rng.randrange(at, at + size)
        if rng.random() < 0.3:
            n = rng.randrange(9, at)
        del b[n:]
        what = 'truncated to %d bytes of %d' % (n, len(data))
    elif k == 'size':
        v = rng.choice([len(data), 10 ** 9, 9999999999, len(data) - at + 1])
        b[h + 48:h + 58] = b'%-10d' % v
        what = 'size of a member set to %d' % v
    elif k == 'index':
        # the index names a place out of the archive for a symbol that's needed
        n, = struct.unpack_from('>I', b, ms[0][1])
        first = a.first_definer()
        strs = bytes(b[ms[0][1] + 4 + 4 * n:ms[0][1] + ms[0][2]]).split(b'\0')
        m = a.members[i]
        used = [j for j in range(n) if first.get(strs[j].decode()) is m and
                w.binding.get(strs[j].decode(), [0])[0] == 'def' and
                w.binding[strs[j].decode()][1].obj is m]
        if not used:
            return
        v = rng.choice([len(data), len(data) + 60, 0x7fffffff, 0xffffffff, len(data) + 1])
        for j in range(n):
            if first.get(strs[j].decode()) is m:
                struct.pack_into('>I', b, ms[0][1] + 4 + 4 * j, v)
        what = 'index entries set to %#x' % v
    elif k == 'index count':
        v = rng.choice([ms[0][2], 0xffffffff, 0x7fffffff, 1 << 28, 0x40000000])
        struct.pack_into('>I', b, ms[0][1], v)
        what = 'count of the index set to %#x' % v
    elif k == 'header':
        # the size isn't a number
        b[h + 48:h + 58] = rng.choice([b'xxxxxxxxxx', b'-1        ', b'1e3       ', b'0x10      '])
        what = 'size of a member is no number'
    else:
        b[at:at + 4] = rng.choice([b'\0\0\0\0', b'GROU', b'\x7fELG', b'MZ\0\0', b'BC\xc0\xde'])
        what = 'foreign member'
    if not bytes(b).startswith(b'!<arch>\n'):
        return
    write(d, a.name, b)
    judge_run(link(w, d), d, rep, '%s: %s' % (a.name, what), True)
    rep.count('archive: ' + k)
    rep.shape('archive', k, what)
    rep.sample(what)


def spoil_lib(rng, img):
    r = rng
    size = img.size
    k = r.choice(['truncated', 'truncated', 'e_shoff', 'e_phoff', 'e_phnum', 'foreign', 'class', 'order',
                  'PT_DYNAMIC', 'PT_DYNAMIC', 'st_name', 'd_val', 'd_val'])
    beyond = r.choice([size, size + 1, size + 4096, 1 << 31, 1 << 40, 1 << 62, (1 << 63) - 1, M64])
    dyn = [i for i, p in enumerate(img.ph) if p['p_type'] == 2][0]
    if k == 'truncated':
        n = r.choice([img.end() - 1, r.randrange(1, img.end()), r.randrange(18, 200), 64])
        if n < 19:
            n = 19
        del img.b[n:]
        return 'truncated to %d bytes of %d' % (n, size)
    if k == 'e_shoff':
        img.set(40, 8, beyond)
    elif k == 'e_phoff':
        img.set(32, 8, beyond)
    elif k == 'e_phnum':
        beyond = 0xfffe
        if img.phoff + 56 * beyond <= size:
            return None
        img.set(56, 2, beyond)
    elif k == 'foreign':
        beyond = r.choice([3, 40, 183, 243, 0, 61, 63])
        img.set(18, 2, beyond)
    elif k == 'class':
        beyond = r.choice([0, 1, 3])
        img.set(4, 1, beyond)
    elif k == 'order':
        beyond = r.choice([0, 2, 3])
        img.set(5, 1, beyond)
    elif k == 'PT_DYNAMIC':
        n, o, z = r.choice([x for x in PH if x[0] in ('p_offset', 'p_filesz')])
        if n == 'p_filesz' and beyond + img.ph[dyn]['p_offset'] <= size:
            return None
        img.set(img.phoff + 56 * dyn + o, z, beyond)
        k += ' ' + n
    elif k == 'st_name':
        i = [i for i, s in enumerate(img.sh) if s['sh_type'] == 11][0]
        n = img.sh[i]['sh_size'] // 24
        # those that the linker has to look at
        js = [j for j in range(1, n) if img.get(*img.entry(i, j, SY, 'st_info')) >> 4 and
              img.get(*img.entry(i, j, SY, 'st_shndx'))]
        if not js:
            return None
        beyond = r.choice([img.sh[img.sh[i]['sh_link']]['sh_size'], 0xffffffff, 0x7fffffff])
        img.set(*img.entry(i, r.choice(js), SY, 'st_name'), beyond)
    elif k == 'd_val':
        i = [i for i, s in enumerate(img.sh) if s['sh_type'] == 6][0]
        tag = r.choice([5, 6])
        for j in range(img.sh[i]['sh_size'] // 16):
            t = img.get(*img.entry(i, j, DY, 'd_tag'))
            if t == tag:
                img.set(*img.entry(i, j, DY, 'd_val'), beyond)
                return 'd_val of tag %d set to %#x' % (t, beyond)
        return None
    return '%s set to %#x' % (k, beyond)


def lib_case(rng, idx, d, rep):
    """One definite mistake in a shared library."""
    w = good_world(rng, d, rep, nlib=1)
    l = w.libs[0]
    if not l.exports():
        return
    img = Image(read(d, l.name))
    what = None
    for _ in range(10):
        what = what or spoil_lib(rng, img)
    if not what:
        return
    write(d, l.name, img.b)
    judge_run(link(w, d), d, rep, '%s: %s' % (l.name, what), True)
    rep.count('library: ' + what.split(' set to')[0].split(' to ')[0].split(' of ')[0])
    rep.shape('library', what)
    rep.sample(what)


def foreign_files():
    out = {
        'a png': b'\x89PNG\r\n\x1a\n' + bytes(100), 'a script': b'#!/bin/sh\necho hi\n',
        'a mach-o': b'\xcf\xfa\xed\xfe\x07\0\0\x01' + bytes(200), 'a pe': b'MZ' + bytes(300),
        'bitcode': b'BC\xc0\xde' + bytes(100), 'gzip': b'\x1f\x8b\x08' + bytes(50),
        'a thin archive': b'!<thin>\n' + b'%-16s%-12d%-6d%-6d%-8s%-10d`\n' % (b'/', 0, 0, 0, b'0', 4)
        + bytes(4), 'zeros': bytes(4096), 'an elf magic': b'\x7fELF', 'C': b'int main(){}\n',
        'half a magic': b'\x7fEL', 'an elf ident': b'\x7fELF\x02\x01\x01' + bytes(9),
        'old archive magic': b'!<arch>', 'java': b'\xca\xfe\xba\xbe' + bytes(64),
        'utf-16': 'GROUP ( o )'.encode('utf-16'), 'wasm': b'\0asm\1\0\0\0' + bytes(20),
        'an elf header only': struct.pack('<16sHHIQQQIHHHHHH', b'\x7fELF\x02\x01\x01', 2, 62, 1, 0,
                                          64, 0, 0, 64, 56, 0, 64, 0, 0)}
    return out


FOREIGN = foreign_files()


def foreign_case(rng, idx, d, rep):
    w = good_world(rng, d, rep)
    name = rng.choice(sorted(FOREIGN) + ['an executable', 'a directory', 'a broken link'])
    data = FOREIGN.get(name)
    if name == 'an executable':
        r = core.dld(w.args(), d)
        if r.rc:
            rep.bad('a link that has to succeed ends with status %d' % r.rc)
            return
        data = read(d, 'out')
        os.unlink(os.path.join(d, 'out'))
    fn = rng.choice(['x.o', 'x.a', 'x.so', 'x'])
    if name == 'a directory':
        os.mkdir(os.path.join(d, fn))
    elif name == 'a broken link':
        os.symlink('nowhere', os.path.join(d, fn))
    else:
        write(d, fn, data)
    w.cmd.append(fn)
    judge_run(link(w, d), d, rep, 'a link with %s called %s' % (name, fn), True)
    rep.count('foreign: ' + name)
    rep.shape('foreign', name, fn)
    rep.sample(name)


def havoc(rng, data, img_fields=None):
    """Random damage."""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8, 30])):
        if not b:
            break
        k = rng.randrange(9)
        at = rng.randrange(len(b))
        if k == 0:
            b[at] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[at] = rng.randrange(256)
        elif k == 2:
            z = rng.choice([2, 4, 8])
            if at + z <= len(b):
                old = struct.unpack_from(F[z], b, at)[0]
                struct.pack_into(F[z], b, at, interesting(rng, len(b), old, z))
        elif k == 3:
            del b[at:at + rng.choice([1, 2, 8, 24, 64])]
        elif k == 4:
            b[at:at] = bytes(rng.choice([1, 2, 8, 24, 64]))
        elif k == 5:
            n = rng.choice([4, 8, 24, 64])
            to = rng.randrange(len(b))
            b[to:to + n] = b[at:at + n]
        elif k == 6 and rng.random() < 0.3:
            del b[at:]
        elif img_fields:
            n, o, z = rng.choice(img_fields)
            if o + z <= len(b):
                old = struct.unpack_from(F[z], b, o)[0]
                struct.pack_into(F[z], b, o, interesting(rng, len(b), old, z))
    return bytes(b)


def fields_of(data):
    """Absolute (name, offset, size) of the fields of any input."""
    if data[:8] == b'!<arch>\n':
        out = []
        for h, at, size, name in members(data):
            out.append(('ar size', h + 48, 4))
            out.append(('ar name', h, 2))
            if name == '/':
                out += [('index', at + 4 * k, 4) for k in range(min(size // 4, 30))]
            elif name != '//' and data[at:at + 4] == b'\x7fELF':
                out += [(n, o + at, z) for n, o, z in Image(data[at:at + size]).fields()]
        return out
    return Image(data).fields()


def havoc_case(rng, idx, d, rep):
    """Random damage to any of the inputs: no crash, no hang, no silent failure."""
    w = good_world(rng, d, rep, nlib=rng.choice([0, 1, 1]), narch=rng.choice([0, 1, 1]))
    files = [c.name for c in w.cmd if not isinstance(c, str)]
    orig = {f: read(d, f) for f in files}
    fields = {f: fields_of(orig[f]) for f in files}
    for k in range(25):
        bad = rng.sample(files, 1 if rng.random() < 0.8 else min(2, len(files)))
        for f in bad:
            write(d, f, havoc(rng, orig[f], fields[f]))
        n = len(rep.violations)
        res = link(w, d)
        judge_run(res, d, rep, 'with random damage to %s' % ', '.join(bad), False)
        rep.count('damaged inputs', len(bad))
        if len(rep.violations) > n:
            # keep these files
            return
        out = os.path.join(d, 'out')
        if os.path.lexists(out):
            os.unlink(out)
        for f in bad:
            rep.shape(zlib_hash(read(d, f)))
            write(d, f, orig[f])


def zlib_hash(b):
    import zlib
    return zlib.crc32(b)


def scale_case(rng, idx, d, rep):
    """Very many of one thing: a second or so has to be enough, and is a small part of the limit."""
    make, k = scale.CASES[int(idx[1:]) % len(scale.CASES)]
    n = int(k * 1000 * (rng.uniform(0.5, 1.5) if not core.THOROUGH else rng.uniform(0.5, 2.5)))
    args = []

    def put(inputs, top):
        for x in inputs:
            if isinstance(x, list):
                put(x, False)
            elif isinstance(x, str):
                args.append(x)
            else:
                with open(os.path.join(d, x[0]), 'wb') as f:
                    f.write(x[1])
                if top:
                    args.append(x[0])

    put(make(n), True)
    args = ['-o', 'out'] + args + ['--hash-style=' + rng.choice(['gnu', 'sysv', 'both'])]
    res = core.dld(args, d, limits=LIMITS, timeout=120)
    what = '%d of %s' % (n, make.__name__)
    refuse = make in scale.REFUSED
    rep.count('very many: ' + make.__name__)
    rep.shape(make.__name__, n)
    judge_run(res, d, rep, what, refuse)
    if res.rc and not refuse:
        rep.bad('%s: the link fails: %s' % (what, res.err[-300:]))
    elif res.rc == 0:
        with open(os.path.join(d, 'out'), 'rb') as f:
            e = elfr.Elf(f.read())
        want = {'defs': n, 'relocs_many': n, 'gotlocal': n, 'exports': n, 'commons': n, 'chain': n,
                'wide': n, 'locals_': n}.get(make.__name__)
        got = sum(1 for y in e.symtab if y.name and y.shndx and y.name != '_start')
        if want is not None and got != want:
            rep.bad('%s: the output has %d symbols' % (what, got))
        rep.count('symbols of large outputs', got)


def main():
    c = core.Check('C14', rule='objects, archives, members and shared libraries of random worlds '
                   'with one definite mistake (a header, symbol, relocation or index that points '
                   'out of its file, section or table, a truncation, another architecture or kind '
                   'of file), which must be refused; random damage to any input, which must '
                   'neither crash nor hang the linker nor fail silently, with CPU, memory and file '
                   'size limited; distinct by the mistake, or by the damaged file')
    T = core.THOROUGH
    c.run(spoil_case, 60000 if T else 5000, 400 if T else 40, 'o')
    c.run(member_case, 30000 if T else 2500, 200 if T else 30, 'm')
    c.run(lib_case, 15000 if T else 1500, 200 if T else 20, 'l')
    c.run(foreign_case, 4000 if T else 300, 60 if T else 10, 'f')
    c.run(scale_case, len(scale.CASES) * (8 if T else 1), 900 if T else 90, 's')
    c.run(havoc_case, 60000 if T else 1500, 2000 if T else 60, 'h')
    c.finish()
