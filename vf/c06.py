"""C06: the file as the system sees it."""
import os

from .common import *
from .gen import *


def profile(rng):
    k = rng.randrange(5)
    p = dict(nrel=(0, 6), nlib=rng.choice([0, 0, 1, 2]), narch=rng.choice([0, 0, 1]))
    if k == 0:
        p.update(kinds=rng.sample(list(KINDS), rng.randrange(1, 6)), nsec=(1, 3), nobj=(1, 3),
                 nglob=(1, 4))
    elif k == 1:
        p.update(weird_align=0.5, nsec=(1, 8))
    elif k == 2:
        p.update(mix=0.7, nsec=(2, 8))
    elif k == 3:
        p.update(big=0.2)
    return p


def shape(w, v):
    return [(p.type, p.flags, p.memsz == p.filesz) for p in v.elf.ph] + \
        [(s.name, s.type, s.flags) for s in v.elf.sh] + [w.hash_style, w.interp]


# mov $60, %eax; mov $N, %edi; syscall
def exit_code(n):
    return b'\xb8\x3c\0\0\0\xbf' + struct.pack('<I', n) + b'\x0f\x05'


def start_case(rng, idx, d, rep):
    """The kernel and the dynamic linker start it: the program ends with the status it wants."""
    g = Gen(rng, nlib=0, **({k: v for k, v in profile(rng).items() if k != 'nlib'}))
    w = g.build()
    o = [s for x in w.objs for s in x.syms if s.name == '_start' and s.bind][0]
    n = rng.randrange(256)
    # the code comes at the end of the section, after everything that refers to it
    s = o.sec
    s.data += exit_code(n)
    o.value = s.size - 12
    w.interp = '/lib64/ld-linux-x86-64.so.2'
    if '-dynamic-linker' in w.cmd:
        w.cmd[w.cmd.index('-dynamic-linker') + 1] = w.interp
    # preinit and init functions are only names for random bytes here
    for x in w.objs + [m for a in w.archives for m in a.members]:
        for y in x.secs:
            if y.type in (14, 15, 16):
                del y.data[:]
                del y.relocs[:]
    if rng.random() < 0.6:
        # the start-up code of the dynamic linker is in use as well
        w.cmd = [c for c in w.cmd]
    w.resolve()
    w.emit(d, rng)
    data = linked(w.link(d), d, rep)
    if data is None:
        return
    v = view(w, data, rep)
    if v is None:
        return
    judge(oracle_elf, v, rep)
    big = sum(p.memsz for p in v.elf.loads)
    if big > 1 << 28:
        return
    r = core.run([os.path.join(d, 'out')], d, timeout=60)
    rep.count('programs started')
    if r.rc != n:
        rep.bad('the program ends with %d instead of %d: %s' % (r.rc, n, r.err[:200]))
    rep.shape('start', *shape(w, v))


def main():
    c = core.Check('C06', rule='random worlds with unusual alignments, permissions and sizes under '
                   'all hash styles and several interpreters, read by an independent ELF reader; '
                   'some are started under the kernel and ld.so; distinct by the kinds of segments '
                   'and sections of the output')
    T = core.THOROUGH
    c.run(world_case([oracle_elf], profile, shape=shape), 60000 if T else 7000,
          1200 if T else 70, 'w')
    c.run(start_case, 15000 if T else 1500, 600 if T else 40, 's')
    c.finish()
