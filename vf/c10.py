"""C10: imported functions and variables."""
from .common import *
from .gen import *
from . import prog


def profile(rng):
    return dict(nobj=(1, 5), nrel=(4, 30), nlib=rng.choice([1, 1, 2, 3, 5]), nsec=(1, 4),
                nglob=rng.choice([(3, 12), (8, 40)]), narch=rng.choice([0, 0, 1]), big=0.02,
                nimp=rng.choice([(0, 6), (3, 12)]), arrays=False,
                sym_weights=[3, 2, 1, 2, 30, 4, 0.3])


def shape(w, v):
    return (sorted((t, v.dynname(y)) for o, t, y, a in v.dynrel + v.jmprel),
            sorted((n, b[2].type, b[2].size) for n, b in w.imports.items()))


# -- a program with many imports in every style ------------------------------------------------------

REGS = ['rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11']
SAVED = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
CALLS = ['plt', 'direct', 'got', 'gotload', 'gotsaved', 'abs', 'abs64', 'lea', 'pointer', 'jmpgot',
         'jmpplt', 'gotslot', 'jcc']
ADDRS = ['abs', 'abs64', 'lea', 'got', 'gotsaved', 'pointer', 'gotpush', 'gotoff32', 'gotadd',
         'pointer32']


def call_probe(r, style, f):
    """Assembly that calls f with the argument in %edi and returns its result."""
    x = r.choice(REGS[:4] + REGS[5:])
    s = r.choice(SAVED)
    wrap = lambda *b: ['sub $8, %rsp'] + list(b) + ['add $8, %rsp', 'ret']
    return {
        'plt': lambda: wrap('call %s@PLT' % f), 'direct': lambda: wrap('call %s' % f),
        'got': lambda: wrap('call *%s@GOTPCREL(%%rip)' % f),
        'gotload': lambda: wrap('mov %s@GOTPCREL(%%rip), %%%s' % (f, x), 'call *%%%s' % x),
        'gotsaved': lambda: ['push %%%s' % s, 'mov %s@GOTPCREL(%%rip), %%%s' % (f, s),
                             'call *%%%s' % s, 'pop %%%s' % s, 'ret'],
        'abs': lambda: wrap('mov $%s, %%eax' % f, 'call *%rax'),
        'abs64': lambda: wrap('movabs $%s, %%rax' % f, 'call *%rax'),
        'lea': lambda: wrap('lea %s(%%rip), %%rax' % f, 'call *%rax'),
        'pointer': lambda: wrap('call *1f(%rip)') + ['.data', '.p2align 3', '1: .quad %s' % f,
                                                     '.text'],
        'jmpgot': lambda: ['jmp *%s@GOTPCREL(%%rip)' % f],
        'jmpplt': lambda: ['jmp %s@PLT' % f],
        'jcc': lambda: ['cmp $-1, %edi', 'jne ' + f, 'ud2'],
        'gotslot': lambda: wrap('lea 1f(%rip), %rax', 'movslq 1f(%rip), %rcx',
                                'call *(%rax,%rcx)') + ['.section .rodata', '.p2align 2',
                                                        '1: .long %s@GOTPCREL' % f, '.text'],
    }[style]()


def addr_probe(r, style, n):
    """Assembly that returns the address of n."""
    s = r.choice(SAVED)
    return {
        'abs': lambda: ['mov $%s, %%eax' % n, 'ret'],
        'abs64': lambda: ['movabs $%s, %%rax' % n, 'ret'],
        'lea': lambda: ['lea %s(%%rip), %%rax' % n, 'ret'],
        'got': lambda: ['mov %s@GOTPCREL(%%rip), %%rax' % n, 'ret'],
        'gotsaved': lambda: ['push %%%s' % s, 'mov %s@GOTPCREL(%%rip), %%%s' % (n, s),
                             'mov %%%s, %%rax' % s, 'pop %%%s' % s, 'ret'],
        'pointer': lambda: ['mov 1f(%rip), %rax', 'ret', '.data', '.p2align 3', '1: .quad %s' % n,
                            '.text'],
        'pointer32': lambda: ['mov 1f(%rip), %eax', 'ret', '.data', '.p2align 2', '1: .long %s' % n,
                              '.text'],
        'gotpush': lambda: ['push %s@GOTPCREL(%%rip)' % n, 'pop %rax', 'ret'],
        'gotoff32': lambda: ['lea 1f(%rip), %rax', 'movslq 1f(%rip), %rcx', 'mov (%rax,%rcx), %rax',
                             'ret', '.data', '.p2align 2', '1: .long %s@GOTPCREL' % n, '.text'],
        'gotadd': lambda: ['xor %eax, %eax', 'add %s@GOTPCREL(%%rip), %%rax' % n, 'ret'],
    }[style]()


def dense_case(rng, idx, d, rep):
    """Every import's number comes back, whoever calls it and however; objects have one place."""
    r = rng
    nlib = r.choice([1, 1, 2, 3])
    nf = r.choice([0, 1, 2, 5, 20, 60, 140, 300])
    no = r.choice([0, 1, 2, 5, 12, 40])
    np = r.choice([0, 0, 2, 9])
    if not nf + no:
        nf = 3
    pre = r.choice(['f', 'fun_', 'a_rather_long_prefix_of_a_name_'])
    funcs = [(pre + str(i), i, r.randrange(nlib)) for i in range(nf)]
    objs = []
    for i in range(no):
        size = r.choice([1, 2, 4, 8, 8, 12, 24, 33, 100, 1000, 5000, 70000])
        objs.append(['o_%d' % i, i, r.randrange(nlib), size, r.choice([1, 1, 4, 8, 16, 64, 256, 4096]),
                     r.choice(['data', 'data', 'bss', 'const']), r.random() < 0.3])
    # names of the program that libraries mention
    progs = [('p_%d' % i, i, r.choice('fo'), r.randrange(nlib), r.random() < 0.4) for i in range(np)]
    libs = []
    for l in range(nlib):
        t = ['typedef unsigned char u8;']
        for n, i, k in funcs:
            if k == l:
                t.append('int %s(int a) { return a * 1000 + %d; }' % (n, i))
        for n, i, k, size, al, sort, alias in objs:
            if k != l:
                continue
            if sort == 'bss':
                t.append('u8 %s[%d] __attribute__((aligned(%d)));' % (n, size, al))
            else:
                t.append('%su8 %s[%d] __attribute__((aligned(%d))) = {%s};' % (
                    'const ' if sort == 'const' else '', n, size, al, ','.join(
                        str((i * 7 + j) & 255) for j in range(min(size, 20)))))
            if alias:
                t.append('extern %su8 %s_w[%d] __attribute__((weak, alias("%s")));' % (
                    'const ' if sort == 'const' else '', n, size, n))
        fs = [x for x in funcs if x[2] == l] or []
        # libraries take addresses of anything that the libraries or the program have
        t += ['extern int %s(int);' % n for n, i, k in funcs if k < l]
        t += ['extern u8 %s[];' % x[0] for x in objs if x[2] < l]
        for n, i, sort, k, weak in progs:
            if k == l:
                w = '__attribute__((weak))' if weak else ''
                t.append(('extern int %s(int) %s;' if sort == 'f' else 'extern u8 %s[] %s;') % (n, w))
        seen = [(0, n, i) for n, i, k in funcs if k == l or (k < l and r.random() < 0.3)] + \
            [(1, x[0] + ('_w' if x[6] and x[2] == l and r.random() < 0.5 else ''), x[1])
             for x in objs if x[2] == l or (x[2] < l and r.random() < 0.3)] + \
            [(2, n, i) for n, i, sort, k, weak in progs if k == l]
        sw = ['case %d: return (void *) %s;' % (kind * 10000 + i, n) for kind, n, i in seen]
        t.append('void *lib%d_addr(int k) { switch (k) { %s } return (void *) -1; }' % (
            l, ' '.join(sw)))
        if r.random() < 0.5:
            t.append('void *const lib%d_table[] = {%s};' % (l, ', '.join(
                ['(void *) ' + n for _, n, _ in seen] + ['0'])))
            keys = [kind * 10000 + i for kind, _, i in seen]
            t.append('void *lib%d_tab(int k) { static const int keys[] = {%s}; for (int i = 0; i < %d; '
                     '++i) if (keys[i] == k) return lib%d_table[i]; return (void *) -1; }' % (
                         l, ','.join(map(str, keys + [0])), len(keys), l))
        else:
            t.append('void *lib%d_tab(int k) { return lib%d_addr(k); }' % (l, l))
        with open(os.path.join(d, 'lib%d.c' % l), 'w') as f:
            f.write('\n'.join(t) + '\n')
        opts = r.choice([[], ['-fno-plt'], ['-O2'], ['-O1', '-fno-semantic-interposition']])
        if '-fno-semantic-interposition' in opts:
            opts = ['-O1']
        prog.tool(['gcc', '-shared', '-fPIC', '-nostartfiles', '-w', '-o', 'lib%d.so' % l,
                   'lib%d.c' % l] + opts + ['./lib%d.so' % k for k in range(l)] +
                  ['-Wl,--no-as-needed', '-Wl,-z,lazy', '-Wl,--hash-style=' +
                   r.choice(['gnu', 'sysv', 'both'])], d)
        libs.append('lib%d.so' % l)
    # the program's probes
    nasm = r.choice([1, 2, 3])
    asm = [['.text'] for _ in range(nasm)]
    probes = []      # (symbol, kind, key)

    def probe(body, kind, key):
        s = 'probe_%d' % len(probes)
        r.choice(asm).extend(['.text', '.globl %s' % s, '.type %s, @function' % s, '%s:' % s] + body)
        probes.append((s, kind, key))

    styles = set()
    cs = r.choice([CALLS, CALLS, ['plt'], ['plt', 'direct'], [r.choice(CALLS)], r.sample(CALLS, 3)])
    as_ = r.choice([ADDRS, [r.choice(ADDRS)], ['got', 'gotsaved', 'gotpush']])
    addressed = r.choice([0, 0.2, 1])
    for n, i, k in funcs:
        for _ in range(r.choice([1, 1, 2, 3])):
            st = r.choice(cs)
            styles.add('call ' + st)
            probe(call_probe(r, st, n), 0, i)
        if r.random() < addressed:
            for st in {r.choice(as_), r.choice(as_)}:
                styles.add('address ' + st)
                probe(addr_probe(r, st, n), 1, i)
    for x in objs:
        if r.random() < 0.15:
            continue
        for _ in range(r.choice([1, 1, 2, 4])):
            st = r.choice(as_)
            styles.add('address ' + st)
            probe(addr_probe(r, st, x[0] + ('_w' if x[6] and r.random() < 0.4 else '')), 2, x[1])
    r.shuffle(probes)
    names = []
    for n, i, sort, k, weak in progs:
        a = r.choice(asm)
        if sort == 'f':
            a += ['.text', '.globl %s' % n, '.type %s, @function' % n, '%s: lea %d(%%rdi), %%eax' % (n, i),
                  'ret', '.size %s, .-%s' % (n, n)]
        else:
            a += ['.data', '.globl %s' % n, '.type %s, @object' % n, '%s: .byte %d' % (n, i), '.size %s, 1' % n]
        probe(addr_probe(r, r.choice(ADDRS), n), 3, i)
    for k, a in enumerate(asm):
        with open(os.path.join(d, 's%d.s' % k), 'w') as f:
            f.write('\n'.join(a + ['.section .note.GNU-stack,"",@progbits']) + '\n')
        prog.tool(['as', '-o', 's%d.o' % k, 's%d.s' % k], d)
    rounds = r.choice([1, 2])
    t = ['#include <stdio.h>', '#include <string.h>', 'typedef unsigned char u8;', 'typedef long L;']
    t += ['void *lib%d_addr(int); void *lib%d_tab(int);' % (l, l) for l in range(nlib)]
    t += ['L %s(int);' % s for s, _, _ in probes]
    t.append('static L (*const P[])(int) = {%s};' % ', '.join([s for s, _, _ in probes] + ['0']))
    t.append('static const int K[][2] = {%s};' % ', '.join(
        ['{%d,%d}' % (k, i) for _, k, i in probes] + ['{0,0}']))
    t.append('static const int O[][5] = {%s};' % ', '.join(
        ['{%d,%d,%d,%d,%d}' % (x[1], x[2], x[3], x[4], ('bss', 'data', 'const').index(x[5]))
         for x in objs] + ['{-1}']))
    t.append('static const int FL[] = {%s};' % ', '.join([str(k) for _, _, k in funcs] + ['0']))
    t.append('static const int PL[] = {%s};' % ', '.join([str(x[3]) for x in progs] + ['0']))
    t.append('static void *lib_addr(int l, int t, int k) { switch (l * 2 + t) { %s } return 0; }' %
             ' '.join('case %d: return lib%d_addr(k); case %d: return lib%d_tab(k);' % (
                 2 * l, l, 2 * l + 1, l) for l in range(nlib)))
    t.append(r'''
static int bad, checks;
static void check(int ok, const char *what, int i, L got, L want) { ++checks;
  if (!ok) { ++bad; if (bad < 20) printf("%s %d: %lx instead of %lx\n", what, i, got, want); } }
#define NP (sizeof P / sizeof *P - 1)
int main(void) {
  u8 *at[sizeof O / sizeof *O]; memset(at, 0, sizeof at);
  for (int round = 0; round < ROUNDS; ++round) for (int i = 0; i < NP; ++i) { int k = K[i][0], x = K[i][1];
    if (k == 0) { int a = (i * 37 + round) % 2000; L v = (int) P[i](a); check(v == a * 1000 + x, "call of function", x, v, a * 1000 + x); }
    else if (k == 1) { L v = P[i](0); for (int l = FL[x]; l < NLIB; ++l) for (int t = 0; t < 2; ++t) {
        void *w = lib_addr(l, t, x); if (w != (void *) -1) check(v == (L) w, "address of function", x, v, (L) w); }
        int y = ((int (*)(int)) v)(3); check(y == 3000 + x, "call by address of function", x, y, 3000 + x); }
    else if (k == 2) { L v = P[i](0); at[x] = (u8 *) v; for (int l = O[x][1]; l < NLIB; ++l) for (int t = 0; t < 2; ++t) {
        void *w = lib_addr(l, t, 10000 + x); if (w != (void *) -1) check(v == (L) w, "address of object", x, v, (L) w); } }
    else { L v = P[i](0); for (int t = 0; t < 2; ++t) { void *w = lib_addr(PL[x], t, 20000 + x); check(v == (L) w, "address of own symbol", x, v, (L) w); } } }
  for (int i = 0; O[i][0] >= 0; ++i) if (at[i]) { check((L) at[i] % O[i][3] == 0, "alignment of object", i, (L) at[i], O[i][3]);
    for (int j = 0; j < O[i][2]; ++j) { int want = O[i][4] && j < 20 ? (i * 7 + j) & 255 : 0; if (at[i][j] != want) { check(0, "content of object", i, at[i][j], want); break; } } ++checks; }
  for (int i = 0; O[i][0] >= 0; ++i) if (at[i] && O[i][4] < 2) memset(at[i], i * 3 + 1, O[i][2]);
  for (int i = 0; O[i][0] >= 0; ++i) if (at[i] && O[i][4] < 2) { u8 *w = lib_addr(O[i][1], 0, 10000 + i);
    for (int j = 0; j < O[i][2]; ++j) if (w[j] != (u8) (i * 3 + 1)) { check(0, "stored in object", i, w[j], i * 3 + 1); break; } ++checks; }
  printf("%d checks\n", checks); return bad != 0; }
'''.replace('ROUNDS', str(rounds)).replace('NLIB', str(nlib)))
    with open(os.path.join(d, 'main.c'), 'w') as f:
        f.write('\n'.join(t))
    prog.tool(['gcc', '-c', '-w', '-o', 'main.o', 'main.c'] + r.choice(
        [['-O0'], ['-O1'], ['-O2', '-fno-pic'], ['-O1', '-fPIC']]), d)
    objects = ['main.o'] + ['s%d.o' % k for k in range(nasm)]
    r.shuffle(objects)
    cmd = list(objects)
    for l in libs:
        cmd.insert(r.randrange(len(cmd) + 1), l)
    cmd = [x for x in cmd if x not in libs] + libs if r.random() < 0.5 else cmd
    # (the order of libraries doesn't matter, as no name is in two of them)
    opts = r.choice([[], ['--hash-style=gnu'], ['--hash-style=sysv'], ['--hash-style=both']])
    res = core.dld(prog.dld_args(cmd, opts=opts), d)
    what = '%d functions and %d objects of %d libraries, %d probes' % (nf, no, nlib, len(probes))
    if linked(res, d, rep, what, 'prog') is None:
        return
    for now in (False, True):
        got = prog.execute(d, 'prog', now)
        lines = got.out.splitlines()
        if got.timeout or got.rc or not lines or not lines[-1].endswith(' checks'):
            rep.bad('%s, %s binding: status %d%s: %s' % (
                what, 'eager' if now else 'lazy', got.rc, ' (timeout)' if got.timeout else '',
                (lines[:6] + got.err.splitlines()[:3])))
            return
        rep.count('checks made by programs', int(lines[-1].split()[0]))
    for s in styles:
        rep.count('programs with ' + s)
    rep.count('probes', len(probes))
    rep.shape(nf, no, nlib, np, sorted(styles), opts, idx)
    rep.sample(what)


def program_case(rng, idx, d, rep):
    g = prog.ProgGen(rng, nlib=rng.choice([1, 2, 3]), pimport=0.85, nent=rng.randrange(8, 30),
                     nasm=rng.choice([1, 2]), nobj=rng.choice([1, 2, 3]), nmem=rng.choice([0, 0, 2]),
                     nprobe=(4, 12)).build()
    g.emit(d)
    r = core.run(prog.ref_args(g.objects, g.archives, g.libfiles), d)
    if r.rc:
        raise RuntimeError('the reference linker fails: %s' % r.err[-2000:])
    cmd = g.objects + g.archives + g.libfiles
    res = core.dld(prog.dld_args(cmd), d)
    if linked(res, d, rep, 'a link of %s' % ' '.join(cmd), 'prog') is None:
        return
    prog.judge_run(d, rep, g, 'program')
    for k, n in g.counts.items():
        rep.count('programs with ' + k)
    rep.shape([m.text() for m in g.mods])


def main():
    c = core.Check('C10', rule='A case is a random world with many imports, judged by its file '
                   '(distinct by imports and dynamic relocations); a program with up to 300 imported '
                   'functions and 40 objects that checks itself, or a generated program compared '
                   'with the same linked by GNU ld (distinct by text). Programs run with lazy and '
                   'with eager binding.')
    T = core.THOROUGH
    c.run(world_case([oracle_imports], profile, shape=shape), 40000 if T else 4000,
          900 if T else 60, 'w')
    c.run(dense_case, 8000 if T else 320, 1200 if T else 60, 'd')
    c.run(program_case, 4000 if T else 120, 900 if T else 40, 'p')
    c.finish()
