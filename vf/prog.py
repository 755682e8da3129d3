"""Random programs in C and assembly, built with the system's compiler, for links that are judged by
running the result. The reference linker gets the same objects."""
import os
import random
import resource
import shutil
import subprocess

from . import core, elfr

LIBDIR = '/usr/lib/x86_64-linux-gnu'
GCCDIR = subprocess.run(['gcc', '-print-file-name=crtbegin.o'], stdout=subprocess.PIPE,
                        text=True).stdout.strip().rsplit('/', 1)[0]
LIMITS = {resource.RLIMIT_CPU: 10, resource.RLIMIT_FSIZE: 1 << 26, resource.RLIMIT_CORE: 0}


def tool(argv, cwd, timeout=120):
    r = core.run(argv, cwd, timeout=timeout, env=dict(core.CLEAN_ENV, TMPDIR=cwd))
    if r.rc:
        raise RuntimeError('%s: %s' % (' '.join(argv), (r.out + r.err)[-3000:]))
    return r


def compile_all(jobs, d):
    """jobs: [(source name, object name, flags, compiler)]"""
    for src, obj, flags, cc in jobs:
        tool([cc, '-c', src, '-o', obj, '-w'] + list(flags), d)


def crt(libc_first=()):
    return [LIBDIR + '/crt1.o', LIBDIR + '/crti.o', GCCDIR + '/crtbegin.o']


def libc_tail():
    return ['-lgcc', '--as-needed', '-lgcc_s', '--no-as-needed', '-lc', '-lgcc',
            GCCDIR + '/crtend.o', LIBDIR + '/crtn.o']


def dld_args(inputs, out='prog', opts=()):
    return ['-o', out] + list(opts) + crt() + ['-L' + GCCDIR, '-L' + LIBDIR] + list(inputs) + \
        libc_tail()


def ref_args(objects, archives, libs, out='ref', opts=(), final=()):
    return ['ld', '-m', 'elf_x86_64', '--hash-style=gnu', '-z', 'lazy',
            '-dynamic-linker', '/lib64/ld-linux-x86-64.so.2', '-rpath-link', '.', '--no-relax',
            '-o', out] + list(opts) + crt() + ['-L' + GCCDIR, '-L' + LIBDIR] + list(objects) + \
        ['--start-group'] + list(archives) + ['--end-group'] + list(libs) + list(final) + \
        libc_tail()


def separated(d, libs, out='ref'):
    """Whether GNU ld copies a variable under one of its names and leaves another one to the
    library. (It does so if it thinks that it could get by without a copy of the latter.)"""
    e = elfr.Elf(open(os.path.join(d, out), 'rb').read())
    if not e.by_type(11):
        return False
    names = {}
    for s in e.dynsym[1:]:
        names[s.name] = s.shndx
    for l in libs:
        e = elfr.Elf(open(os.path.join(d, l), 'rb').read())
        places = {}
        for s in e.dynsym[1:]:
            if s.shndx and s.type == 1 and s.name in names:
                places.setdefault((s.shndx, s.value), set()).add(bool(names[s.name]))
        if any(len(x) > 1 for x in places.values()):
            return True
    return False


def driver(r, inputs, d, cc='clang'):
    """A link that clang gives the arguments of."""
    opts = r.sample(['-pthread', '-O2', '-g', '-Wl,--hash-style=' + r.choice(['sysv', 'gnu', 'both']),
                     '-Wl,-z,now', '-L.', '-fuse-ld=lld', '-lm', '-Wl,--no-as-needed'],
                    r.randrange(4))
    args = ['-Wl,' + x if x.startswith('--') else x for x in inputs]
    return core.run([cc, '-no-pie', '-o', 'prog'] + opts + args + ['--ld-path=' + core.dld_path()], d,
                    env=dict(core.CLEAN_ENV, TMPDIR=d))


def execute(d, prog, now=False, args=(), env=None, timeout=20):
    e = dict(core.CLEAN_ENV, LD_LIBRARY_PATH=d)
    if now:
        e['LD_BIND_NOW'] = '1'
    e.update(env or {})
    return core.run([os.path.join(d, prog)] + list(args), d, env=e, timeout=timeout, limits=LIMITS,
                    user=core.NOBODY if core.can_setuid_cached() else None)


# -- entities ----------------------------------------------------------------------------------------

SIGS = {
    'i': ('int %s(int a)', 'a'),
    'd': ('double %s(double x, int a)', '(a + (int) x)'),
    'l': ('long %s(long a, long b, long c, long d, long e, long f, long g, long h)',
          '(a + 2 * b + 3 * c + 5 * d + 7 * e + 11 * f + 13 * g + 17 * h)'),
    'v': ('int %s(int a, ...)', None),
    's': ('struct S %s(struct S s)', '(s.a + s.b * 3 + s.c + (int) s.d)'),
}
PRELUDE = '''#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
struct S { long a, b; int c; double d; };
typedef int fn_i(int);
struct N { int a; int *p; fn_i *f; char c[5]; };
'''


class Ent:
    """Something with a global name."""

    def __init__(self, idx, name, kind):
        self.idx, self.name, self.kind = idx, name, kind
        self.home = None
        self.sig = self.n = None
        self.attr = ''
        self.const = False
        self.alias = None
        self.extra = []      # modules with further definitions
        self.hidden = False
        self.protected = False
        self.hidden_by = None    # only these units say that it's hidden

    def decl(self, size=None, m=None):
        n = self.name
        v = ' __attribute__((visibility("hidden")))' if self.hidden and (
            self.hidden_by is None or m in self.hidden_by) else ''
        if self.protected and m is self.home:
            v = ' __attribute__((visibility("protected")))'
        if self.kind == 'func':
            return 'extern ' + SIGS[self.sig][0] % n + v + ';'
        if self.kind == 'absent':
            return 'extern int %s(int) __attribute__((weak));' % n
        c = 'const ' if self.const else ''
        return 'extern ' + {
            'int': c + 'int %s', 'arr': c + 'int %s[' + str(size or self.n) + ']',
            'chr': c + 'char %s[' + str(self.n) + ']', 'rec': c + 'struct N %s',
            'dbl': c + 'double %s', 'fptr': 'fn_i *' + c + '%s', 'ptr': 'int *' + c + '%s',
            'tab': 'fn_i *' + c + '%s[3]', 'com': 'int %s[' + str(size or self.n) + ']',
        }[self.kind] % n + v + ';'


class Mod:
    """A translation unit."""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.flags = []
        self.cc = 'gcc'
        self.asm = False
        self.decls = {}
        self.body = []
        self.lib = None
        self.probes = []
        self.addrs = []

    def text(self):
        if self.asm:
            return '\n'.join(self.body) + '\n'
        return PRELUDE + 'static int helper(int);\n' + '\n'.join(self.decls.values()) + '\n' + \
            '\n'.join(self.body) + '\n'


UNUSUAL = {
    'gcc': ['-fpatchable-function-entry=4,2', '-finstrument-functions', '-fstack-protector-all',
            '-fstack-clash-protection', '-fstack-check',
            
            '-fzero-call-used-regs=all', '-Wa,-mrelax-relocations=no', '-Wa,-mrelax-relocations=yes',
            '-Wa,--generate-missing-build-notes=yes', '-Wa,-mx86-used-note=yes',
            '-Wa,-mbranches-within-32B-boundaries', '-Wa,-L', '-fno-toplevel-reorder',
            '-freorder-blocks-and-partition', '-fmerge-all-constants', '-fno-merge-constants',
            '-falign-functions=64 -falign-loops=32', '-flto -ffat-lto-objects',
            '-fkeep-static-functions -fkeep-static-consts', '-frecord-gcc-switches',
            '-fnon-call-exceptions', '-fno-semantic-interposition',
            '-fno-section-anchors', '-Wa,--no-pad-sections', '-pg', '-pg -mfentry -mrecord-mcount',
            '-falign-functions=4096', '-fdata-sections -fno-common', '-fno-reorder-functions'],
    'clang': ['-fpatchable-function-entry=4,2', '-finstrument-functions', '-fstack-protector-all',
              '-mretpoline',
              '-fzero-call-used-regs=all', '-Wa,-mrelax-relocations=no', '-fno-integrated-as',
              '-fbasic-block-sections=all', '-fstack-size-section', '-fsplit-machine-functions',
              '-fno-direct-access-external-data', '-fsemantic-interposition',
              '-fno-semantic-interposition', '-fexperimental-sanitize-metadata=all',
              '-mspeculative-load-hardening',
              '-mllvm -enable-merge-functions', '-fno-addrsig',
              '-fno-unique-section-names -ffunction-sections -fdata-sections',
              '-frecord-command-line', '-falign-functions=4096', '-pg', '-mharden-sls=all'],
}
# one item stands for several options
for _k, _v in UNUSUAL.items():
    UNUSUAL[_k] = [tuple(x.split()) for x in _v]


class ProgGen:
    def __init__(self, rng, **p):
        self.r = rng
        self.p = dict(nobj=rng.choice([1, 2, 3, 4]), nmem=rng.choice([0, 0, 2, 3]),
                      nlib=rng.choice([0, 1, 1, 2]), nent=rng.randrange(6, 24), nasm=rng.choice(
                          [0, 1]), nprobe=(2, 8), pimport=0.4, clang=0.12)
        self.p.update(p)
        self.counts = {}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def flags(self, m, unusual=True):
        r = self.r
        f = [r.choice(['-O0', '-O1', '-O2', '-O3', '-Os', '-O1', '-O2'])]
        if m.kind == 'lib':
            f.append(r.choice(['-fPIC', '-fpic']))
        else:
            f.append(r.choice(['-fno-pic', '-fno-pic', '-fpic', '-fPIC', '-fpie', '-fPIE']))
        if r.random() < 0.3:
            f.append('-fno-plt')
        if r.random() < 0.25:
            f.append(r.choice(['-g', '-g3', '-gdwarf-4', '-g1']))
        if r.random() < 0.25:
            f += ['-ffunction-sections', '-fdata-sections']
        if m.cc == 'gcc':
            if r.random() < 0.15:
                f.append('-fno-asynchronous-unwind-tables')
            if r.random() < 0.15:
                f.append('-fcf-protection=' + r.choice(['full', 'none', 'branch']))
            if m.kind != 'lib' and '-fno-pic' in f and r.random() < 0.12:
                f.append('-mcmodel=' + r.choice(['medium', 'large']))
            if r.random() < 0.1:
                f.append('-fcommon')
            if r.random() < 0.1:
                f.append('-fno-jump-tables')
            if r.random() < 0.1:
                f.append('-fno-zero-initialized-in-bss')
        if r.random() < 0.1:
            f.append('-fno-omit-frame-pointer')
        if r.random() < 0.3 and unusual and not any(x.startswith('-mcmodel') for x in f):
            # they add sections, symbols and relocations of all kinds, but change nothing else
            x = r.choice(UNUSUAL[m.cc])
            if not (m.kind == 'lib' and '-flto' in x):
                # (the compiler would make libraries in a way of its own)
                f += x
        return f

    # -- who may refer to what -----------------------------------------------------------------

    def may(self, m, e):
        if e.kind == 'absent':
            return True
        h = e.home
        if e.protected and h.kind == 'lib' and '-mcmodel=large' in m.flags:
            # its calls take the address
            return False
        if e.hidden:
            return m.kind in ('obj', 'member')
        if m.kind == 'lib':
            return (h.kind == 'lib' and h.lib <= m.lib) or h.kind == 'obj'
        return True

    def pick(self, m, below=None, kinds=None, sig=None):
        # (linkers do not agree on the address of a protected function of a library)
        c = [e for e in self.ents if self.may(m, e) and (below is None or e.idx < below) and
             (kinds is None or e.kind in kinds and not (e.protected and e.home.kind == 'lib')) and (sig is None or e.sig == sig)]
        if not c:
            return None
        if m.kind != 'lib' and self.r.random() < self.p['pimport']:
            i = [e for e in c if e.home is not None and e.home.kind == 'lib']
            c = i or c
        return self.r.choice(c)

    def use(self, m, e):
        m.decls.setdefault(e.name, e.decl(m=m))

    # -- expressions ---------------------------------------------------------------------------

    def call(self, m, e, fn=None):
        r = self.r
        a = lambda: str(r.randrange(-50, 100))
        n = fn or e.name
        if e.sig == 'i':
            return '%s(%s)' % (n, a())
        if e.sig == 'd':
            return '(long) %s(%s.5, %s)' % (n, a(), a())
        if e.sig == 'l':
            return '%s(%s)' % (n, ', '.join(a() for _ in range(8)))
        if e.sig == 'v':
            k = r.randrange(0, 9)
            return '%s(%d%s)' % (n, k, ''.join(', ' + a() for _ in range(k)))
        return '%s((struct S){%s, %s, %s, 2.5}).%s' % (n, a(), a(), a(), r.choice('abc'))

    def value(self, m, e):
        """An expression that depends on the entity."""
        r = self.r
        n = e.name
        self.use(m, e)
        if e.kind == 'func':
            k = r.random()
            self.count('call')
            if k < 0.7 or e.sig != 'i' or (e.protected and e.home.kind == 'lib'):
                return self.call(m, e)
            if k < 0.85:
                return '({ fn_i *volatile p = %s; p(%d); })' % (n, r.randrange(9))
            return '({ static fn_i *p = %s; __asm__("" : "+m"(p)); p(%d); })' % (n, r.randrange(9))
        if e.kind == 'absent':
            return '(%s ? %s(1) : -7)' % (n, n)
        k = r.randrange(e.n) if e.n else 0
        return {'int': n, 'arr': '%s[%d]' % (n, k), 'com': '%s[%d]' % (n, k),
                'chr': '(%s[%d] + (int) strlen((char *) %s))' % (n, k, n),
                'rec': '(%s.a + *%s.p + %s.f(%d) + %s.c[1])' % (n, n, n, k, n),
                'dbl': '(int) (%s * 8)' % n, 'fptr': '%s(%d)' % (n, k + 3), 'ptr': '*%s' % n,
                'tab': '%s[%d](%d)' % (n, r.randrange(3), k)}[e.kind]

    def mutate(self, m, e):
        r = self.r
        n = e.name
        self.use(m, e)
        c = r.randrange(1, 50)
        k = r.randrange(e.n) if e.n else 0
        return {'int': '%s += %d;' % (n, c), 'arr': '%s[%d] ^= %d;' % (n, k, c),
                'com': '%s[%d] += %d;' % (n, k, c), 'dbl': '%s += %d;' % (n, c),
                'chr': '%s[0] = %r;' % (n, r.choice('abcxyz')), 'rec': '%s.a += %d;' % (n, c),
                'ptr': '++*%s;' % n}.get(e.kind)

    MUT = ('int', 'arr', 'com', 'dbl', 'chr', 'rec')

    # -- definitions ---------------------------------------------------------------------------

    def define(self, m, e, attr='', salt=0, size=None, refs=True):
        r = self.r
        n = e.name
        m.decls[n] = e.decl(size, m)
        at = ' '.join(x for x in (attr, e.attr) if x)
        at = ' __attribute__((%s))' % at.replace(' ', ', ') if at else ''
        c = r.randrange(1, 1000) + salt
        if e.kind == 'func':
            terms = [str(c)]
            pre = ''
            if refs:
                for _ in range(r.choice([0, 1, 1, 2])):
                    x = self.pick(m, e.idx)
                    if x:
                        terms.append('(long) ' + self.value(m, x))
                if r.random() < 0.3:
                    x = self.pick(m, e.idx, self.MUT)
                    if x and not x.const:
                        pre += self.mutate(m, x) + ' '
            if r.random() < 0.4:
                terms.append('helper(%d)' % r.randrange(50))
            if r.random() < 0.2 and e.sig == 'i':
                # a jump table
                pre += 'switch (a & 7) { %s } ' % ' '.join('case %d: a += %d; break;' % (
                    k, r.randrange(999)) for k in range(8))
            if r.random() < 0.15 and e.sig == 'i':
                pre += 'static void *const L[] = {&&x, &&y, &&z}; goto *L[(unsigned) a % 3]; ' \
                    'x: a += 3; y: a ^= 5; z: ; '
            if r.random() < 0.2:
                pre += 'static int calls; ++calls; '
                terms.append('calls')
            if r.random() < 0.15:
                terms.append('(int) (%d.25 * %s)' % (c, 'x' if e.sig == 'd' else '3.5'))
            if r.random() < 0.15:
                s = r.choice(['abc', 'hello', 'tail of hello', 'hello', '', 'xyz' * 9])
                terms.append('(int) strlen("%s" + helper(0) %% 1)' % s)
            sig, arg = SIGS[e.sig]
            if e.sig == 'v':
                pre += 'va_list v; int s = 0; va_start(v, a); while (a-- > 0) ' \
                    's = s * 3 + va_arg(v, int); va_end(v); '
                terms.append('s')
            else:
                terms.append(arg)
            expr = ' + '.join(terms)
            if e.sig == 's':
                pre += 's.a += %d; s.c ^= (int) (%s); ' % (c, expr)
                expr = 's'
            m.body.append('%s%s;\n%s { %sreturn %s; }' % (sig % n, at, sig % n, pre, expr))
            return
        const = 'const ' if e.const else ''
        func = lambda: self.pick(m, e.idx, ('func',), 'i')
        if e.kind == 'com':
            m.body.append('int %s[%d] __attribute__((common));' % (n, size or e.n))
        elif e.kind == 'int':
            m.body.append('%sint %s%s = %d;' % (const, n, at, r.choice([c, c, 0 if not salt else c])))
        elif e.kind == 'arr':
            m.body.append('%sint %s[%d]%s = {%s};' % (const, n, e.n, at, ', '.join(
                str(c + k) for k in range(min(e.n, 5)))) if r.random() < 0.8 or e.const or salt else
                'int %s[%d]%s;' % (n, e.n, at))
        elif e.kind == 'chr':
            m.body.append('%schar %s[%d]%s = "%s";' % (const, n, e.n, at,
                                                        ('s%dxyzw' % c)[:e.n - 1]))
        elif e.kind == 'dbl':
            m.body.append('%sdouble %s%s = %d.125;' % (const, n, at, c))
        elif e.kind == 'rec':
            o = self.pick(m, e.idx, ('int', 'arr', 'com'))
            f = func()
            m.body.append('static int %s_i = %d;' % (n, c))
            if o:
                self.use(m, o)
            if f:
                self.use(m, f)
            p = '%s_i' % n
            if o and (o.kind == 'int' or o.n):
                p = ('&%s' if o.kind == 'int' else '&%s[%d]') % (
                    (o.name,) if o.kind == 'int' else (o.name, r.randrange(o.n)))
                p = '(int *) ' + p
            else:
                p = '&' + p
            m.body.append('%sstruct N %s%s = {%d, %s, %s, "abc"};' % (
                const, n, at, c, p, f.name if f else 'helper'))
        elif e.kind == 'ptr':
            o = self.pick(m, e.idx, ('int', 'arr', 'com'))
            m.body.append('static int %s_i = %d;' % (n, c))
            if o and o.const:
                o = None
            if o:
                self.use(m, o)
                p = '&' + o.name if o.kind == 'int' else '&%s[%d]' % (o.name, r.randrange(o.n))
            else:
                p = '&%s_i' % n
            m.body.append('int *%s%s%s = %s;' % (const, n, at, p))
        elif e.kind == 'fptr':
            f = func()
            if f:
                self.use(m, f)
            m.body.append('fn_i *%s%s%s = %s;' % (const, n, at, f.name if f else 'helper'))
        elif e.kind == 'tab':
            fs = [func() for _ in range(3)]
            for f in fs:
                if f:
                    self.use(m, f)
            m.body.append('fn_i *%s%s[3]%s = {%s};' % (const, n, at, ', '.join(
                f.name if f else 'helper' for f in fs)))

    # -- assembly ------------------------------------------------------------------------------

    def asm_func(self, m, e):
        """A function of type `int (int)` in assembly, which does something with an entity."""
        r = self.r
        f = self.pick(m, e.idx, ('func',), 'i')
        v = self.pick(m, e.idx, ('int', 'arr', 'com'))
        n = e.name
        b = m.body
        b += ['.text', '.p2align 4', '.globl %s' % n, '.type %s, @function' % n, '%s:' % n]
        low = ['ax', 'cx', 'dx', 'si']
        saved = ['bx', 'bp']
        done = False
        if f and r.random() < 0.6:
            k = r.randrange(15)
            self.count('assembly: function %d' % k)
            g = f.name
            if k == 0:
                b.append('jmp *%s@GOTPCREL(%%rip)' % g)
            elif k == 1:
                b.append('jmp %s@PLT' % g)
            elif k == 2:
                b += ['sub $8, %rsp', 'call *%s@GOTPCREL(%%rip)' % g, 'add $8, %rsp', 'ret']
            elif k == 3:
                x = r.choice(['%r' + y for y in low] + ['%%r%d' % i for i in (8, 9, 10, 11)])
                b += ['sub $8, %rsp', 'mov %s@GOTPCREL(%%rip), %s' % (g, x), 'call *%s' % x,
                      'add $8, %rsp', 'ret']
            elif k == 4:
                x = r.choice(['%r' + y for y in saved] + ['%%r%d' % i for i in (12, 13, 14, 15)])
                b += ['push %s' % x, 'mov %s@GOTPCREL(%%rip), %s' % (g, x), 'call *%s' % x,
                      'pop %s' % x, 'ret']
            elif k == 5:
                b += ['sub $8, %rsp', 'push %s@GOTPCREL(%%rip)' % g, 'pop %rax', 'call *%rax',
                      'add $8, %rsp', 'ret']
            elif k == 6:
                b += ['sub $8, %rsp', 'mov $%s, %%eax' % g, 'call *%rax', 'add $8, %rsp', 'ret']
            elif k == 7:
                b += ['sub $8, %rsp', 'mov $%s, %%rax' % g, 'call *%rax', 'add $8, %rsp', 'ret']
            elif k == 8:
                b += ['sub $8, %rsp', 'movabs $%s, %%rax' % g, 'call *%rax', 'add $8, %rsp', 'ret']
            elif k == 9:
                b += ['sub $8, %rsp', 'lea %s(%%rip), %%rax' % g, 'call *%rax', 'add $8, %rsp',
                      'ret']
            elif k == 10:
                b += ['sub $8, %rsp', 'call *1f(%rip)', 'add $8, %rsp', 'ret', '.data',
                      '.p2align 3', '1: .quad %s' % g, '.text']
            elif k == 11:
                # the distance of the slot in data
                b += ['sub $8, %rsp', 'lea 1f(%rip), %rax', 'movslq 1f(%rip), %rcx',
                      'call *(%rax,%rcx)', 'add $8, %rsp', 'ret', '.data', '.p2align 2',
                      '1: .long %s@GOTPCREL' % g, '.text']
            elif k == 12:
                x = r.choice(['%r' + y for y in low] + ['%%r%d' % i for i in (8, 9, 10, 11)])
                op = r.choice(['add', 'sub', 'or', 'and', 'xor', 'cmp', 'test'])
                b += ['xor %eax, %eax', 'lea %s(%%rip), %s' % (g, x) if f.home.kind != 'lib' else
                      'mov %s@GOTPCREL(%%rip), %s' % (g, x)]
                b += ['%s %s@GOTPCREL(%%rip), %s' % (op, g, x) if op != 'test' else
                      'test %s, %s@GOTPCREL(%%rip)' % (x, g)]
                # what it is depends on addresses, but not whether it's zero
                b += ['setz %al', 'movzbl %al, %eax', 'ret']
                if op not in ('sub', 'xor', 'cmp'):
                    b[-3:] = ['mov %edi, %eax', 'ret']
            elif k == 13:
                b += ['mov %s@GOTPCREL(%%rip), %%rax' % g, 'cmp $%s, %%rax' % g, 'sete %al',
                      'movzbl %al, %eax', 'ret']
            else:
                b += ['test %edi, %edi', 'je %s@PLT' % g, 'jne %s@PLT' % g, 'ud2']
            done = True
        elif v:
            k = r.randrange(8)
            self.count('assembly: object %d' % k)
            g = v.name
            if k == 0:
                x = r.choice(['ax', 'cx', 'dx', 'si'])
                b += ['mov %s@GOTPCREL(%%rip), %%r%s' % (g, x), 'mov (%%r%s), %%eax' % x, 'ret']
            elif k == 1:
                i = r.choice([8, 9, 10, 11])
                b += ['mov %s@GOTPCREL(%%rip), %%r%d' % (g, i), 'mov (%%r%d), %%eax' % i, 'ret']
            elif k == 2:
                b += ['mov %s(%%rip), %%eax' % g, 'ret']
            elif k == 3:
                b += ['mov %s, %%eax' % g, 'ret']
            elif k == 4:
                b += ['movabs $%s, %%rax' % g, 'mov (%rax), %eax', 'ret']
            elif k == 5:
                b += ['mov 1f(%rip), %rax', 'mov (%rax), %eax', 'ret', '.section .data.rel,"aw"',
                      '.p2align 3', '1: .quad %s' % g, '.text']
            elif k == 6:
                b += ['mov $%s, %%ecx' % g, 'mov (%rcx), %eax', 'ret']
            else:
                b += ['xor %eax, %eax', 'cmpq $0, %s@GOTPCREL(%%rip)' % g, 'setne %al', 'ret']
            done = True
        if not done:
            b += ['lea %d(%%rdi), %%eax' % r.randrange(999), 'ret']
        b += ['.size %s, .-%s' % (n, n)]

    # -- the program ---------------------------------------------------------------------------

    def build(self):
        r, p = self.r, self.p
        self.mods = [Mod('m%d' % i, 'obj') for i in range(p['nobj'])]
        self.mods += [Mod('a%d' % i, 'member') for i in range(p['nmem'])]
        self.libs = list(range(p['nlib']))
        for l in self.libs:
            for k in range(1):
                m = Mod('l%d_%d' % (l, k), 'lib')
                m.lib = l
                self.mods.append(m)
        for i in range(p['nasm']):
            m = Mod('s%d' % i, r.choice(['obj', 'obj', 'member' if p['nmem'] else 'obj']))
            m.asm = True
            self.mods.append(m)
        for m in self.mods:
            if not m.asm and m.kind != 'lib' and r.random() < p['clang']:
                m.cc = 'clang'
            m.flags = self.flags(m) if not m.asm else []
        self.ents = []
        self.make_entities()
        for m in self.mods:
            if m.asm:
                m.body.append('.section .note.GNU-stack,"",@progbits')
                continue
            self.probes(m)
            c = r.randrange(1000)
            m.body.append('static int helper(int a) { return a * 3 + %d; }' % c)
        self.main()
        return self

    def make_entities(self):
        r, p = self.r, self.p
        style = r.choice(['e', 'sym_', 'x', 'a_longer_name_for_'])
        kinds = ['func'] * 9 + ['int'] * 3 + ['arr'] * 3 + ['chr', 'rec', 'rec', 'dbl', 'fptr', 'ptr',
                                                            'tab', 'tab', 'com', 'absent']
        for i in range(p['nent']):
            e = Ent(i, style + str(i), r.choice(kinds))
            homes = [m for m in self.mods if m.kind == 'lib'] if r.random() < p['pimport'] else \
                [m for m in self.mods if m.kind != 'lib']
            homes = homes or self.mods
            m = r.choice(homes)
            if m.asm:
                e.kind, e.sig = 'func', 'i'
                e.home = m
                self.asm_func(m, e)
                self.ents.append(e)
                self.count('assembly functions')
                continue
            if e.kind == 'absent':
                if r.random() < 0.5:
                    self.ents.append(e)
                continue
            e.home = m
            if e.kind == 'func':
                e.sig = r.choice('iiiiidlvs')
            elif e.kind in ('arr', 'com'):
                e.n = r.choice([1, 2, 3, 7, 16, 33, 100, 1025])
            elif e.kind == 'chr':
                e.n = r.choice([2, 3, 6, 11])
            elif e.kind in ('rec', 'fptr', 'tab'):
                e.n = 3
            if e.kind not in ('func', 'com', 'absent'):
                e.const = r.random() < 0.2
                if r.random() < 0.15:
                    e.attr = 'aligned(%d)' % r.choice([16, 32, 64, 128, 4096])
            if m.kind in ('obj', 'member') and r.random() < 0.1 and e.kind != 'com':
                e.hidden = True
                self.count('hidden')
                if r.random() < 0.5:
                    # it's enough if one of the units says so
                    e.hidden_by = [x for x in self.mods if x.kind == 'obj' and not x.asm and
                                   r.random() < 0.5]
                    self.count('hidden by some units')
            elif not m.asm and e.kind != 'com' and r.random() < 0.08 and (
                    m.kind != 'lib' or e.kind == 'func'):
                e.protected = True
                self.count('protected')
            self.ents.append(e)
            k = r.random()
            objs = [x for x in self.mods if x.kind == 'obj' and not x.asm and x is not m]
            libs = [x for x in self.mods if x.kind == 'lib' and x is not m]
            e.refs = [x for x in self.ents]
            if e.kind == 'com':
                if m.kind != 'obj':
                    e.home = m = self.mods[0]
                self.define(m, e)
                for x in objs:
                    if x is not m and r.random() < 0.4:
                        self.define(x, e, size=e.n + r.choice([0, 1, 50]))
                        self.count('common in several')
                continue
            if m.kind == 'obj' and k < 0.08 and objs:
                # weak definitions elsewhere; the strong one wins
                self.define(m, e)
                self.define(r.choice(objs), e, 'weak', 5000, refs=False)
                self.count('strong and weak')
            elif m.kind == 'obj' and k < 0.16 and objs:
                self.define(m, e, 'weak')
                self.define(r.choice(objs), e, 'weak', 7000, refs=False)
                self.count('weak in several')
            elif m.kind == 'obj' and k < 0.3 and libs:
                # the definition of the program wins in the library as well, unless it's hidden
                # (linkers do not agree on common symbols a library defines)
                m.flags = [f for f in m.flags if f != '-fcommon']
                self.define(m, e)
                x = r.choice(libs)
                self.define_other(x, e)
                self.count('interposed')
            elif m.kind == 'lib' and k < 0.1 and [x for x in libs if x.lib != m.lib]:
                # the first library wins
                self.define(m, e)
                x = r.choice([x for x in libs if x.lib != m.lib])
                self.define_other(x, e)
                if x.lib < m.lib:
                    e.home = x
                self.count('in two libraries')
            elif m.kind == 'lib' and k < 0.3 and e.kind in ('int', 'arr', 'dbl', 'func'):
                # (the reference gives two copies to aliases that are alike strong or weak)
                self.define(m, e)
                a = Ent(len(self.ents) + 1000, e.name + '_alias', e.kind)
                a.__dict__.update(e.__dict__)
                a.name, a.alias = e.name + '_alias', e
                a.attr = ''
                a.protected = e.protected
                m.decls[a.name] = a.decl()
                m.body.append(a.decl()[:-1] + ' __attribute__((alias("%s")%s));' % (
                    e.name, ', weak' if e.kind != 'func' else r.choice(['', ', weak'])))
                self.ents.append(a)
                # (an alias of a common symbol doesn't compile)
                m.flags = [f for f in m.flags if f != '-fcommon']
                self.count('aliases')
            else:
                self.define(m, e, r.choice(['', '', '', 'weak']) if m.kind != 'obj' else '')
        for i, e in enumerate(self.ents):
            pass

    def define_other(self, x, e):
        """Another definition of the same type in a library."""
        h, e.hidden = e.hidden, False
        self.define(x, e, self.r.choice(['', 'weak']), 3000, refs=False)
        e.hidden = h

    def probes(self, m):
        """What the unit has to say."""
        r = self.r
        out = []
        for k in range(r.randrange(*self.p['nprobe'])):
            e = self.pick(m)
            if not e:
                continue
            if r.random() < 0.25 and e.kind in self.MUT and not e.const:
                out.append(self.mutate(m, e))
            out.append('printf("%s %s %%ld\\n", (long) %s);' % (m.name, e.name, self.value(m, e)))
        # addresses as seen from here
        for e in self.ents:
            if e.kind != 'absent' and self.may(m, e) and r.random() < 0.2 and not e.hidden and \
                    not (e.protected and e.home.kind == 'lib'):
                self.use(m, e)
                m.addrs.append(e)
                if r.random() < 0.5:
                    m.body.append('void *addr_%s_%s(void) { return (void *) %s%s; }' % (
                        m.name, e.name, '' if e.kind == 'func' else '&', e.name))
                else:
                    m.body.append('static void *volatile tab_%s = (void *) %s%s; '
                                  'void *addr_%s_%s(void) { return tab_%s; }' % (
                                      e.name, '' if e.kind == 'func' else '&', e.name, m.name,
                                      e.name, e.name))
        # the compiler must not know where these are
        for k in range(r.choice([0, 0, 1, 2])):
            a = r.choice([16, 32, 64, 256, 1024, 4096])
            m.body.append('static %s buf%d[%d] __attribute__((aligned(%d)))%s;' % (
                r.choice(['const char', 'char']), k, r.choice([1, 5, 64, 100]), a,
                r.choice([' = {1}', ''])))
            out.append('{ const void *volatile p = buf%d; printf("%s buf%d %%d\\n", '
                       '(int) ((unsigned long) p %% %d)); }' % (k, m.name, k, a))
            self.count('alignments compared')
        m.body.append('void run_%s(void) { %s }' % (m.name, '\n    '.join(out)))

    def main(self):
        r = self.r
        t = [PRELUDE]
        calls = []
        mods = [m for m in self.mods if not m.asm]
        called = [m for m in mods if m.kind != 'member' or r.random() < 0.6]
        r.shuffle(called)
        for m in called:
            t.append('void run_%s(void);' % m.name)
            calls.append('run_%s();' % m.name)
        for e in self.ents:
            who = [m for m in called if e in m.addrs]
            if who and e.attr and e.home.kind in ('obj', 'member'):
                t.append('void *addr_%s_%s(void);' % (who[0].name, e.name))
                calls.append('printf("%s %%d\\n", (int) ((unsigned long) addr_%s_%s() %% %s));' % (
                    e.name, who[0].name, e.name, e.attr[8:-1]))
                self.count('alignments compared')
            if len(who) > 1:
                for m in who:
                    t.append('void *addr_%s_%s(void);' % (m.name, e.name))
                for m in who[1:]:
                    calls.append('printf("same %s %s %s %%d\\n", addr_%s_%s() == addr_%s_%s());' % (
                        e.name, who[0].name, m.name, who[0].name, e.name, m.name, e.name))
                    self.count('addresses compared')
        k = len(calls) // 2
        calls = calls[:k] + ['printf("argc %d %s\\n", c, v[c - 1] + strlen(v[c - 1]));'] + calls[k:]
        t.append('int main(int c, char **v) {\n    %s\n    return %d; }' % (
            '\n    '.join(calls), r.choice([0, 0, 7, 42])))
        m = Mod('main', 'obj')
        m.flags = self.flags(m)
        m.body = t
        m.text = lambda: '\n'.join(t) + '\n'
        self.mods.append(m)

    # -- building it ---------------------------------------------------------------------------

    def emit(self, d):
        """Writes the sources and compiles them. Sets objects, archives and libraries."""
        r = self.r
        for m in self.mods:
            src = m.name + ('.s' if m.asm else '.c')
            with open(os.path.join(d, src), 'w') as f:
                f.write(m.text())
            if m.asm:
                tool(['as'] + self.p.get('asflags', []) + ['-o', m.name + '.o', src], d)
            else:
                tool([m.cc, '-c', src, '-o', m.name + '.o', '-w'] + m.flags, d)
        self.objects = [m.name + '.o' for m in self.mods if m.kind == 'obj']
        r.shuffle(self.objects)
        members = [m.name + '.o' for m in self.mods if m.kind == 'member']
        r.shuffle(members)
        self.archives = []
        if members:
            k = r.randrange(len(members) + 1)
            for i, part in enumerate((members[:k], members[k:])):
                if part:
                    tool(['ar', 'rcs', 'libar%d.a' % i] + part, d)
                    self.archives.append('libar%d.a' % i)
        r.shuffle(self.archives)
        self.libfiles = []
        for l in self.libs:
            objs = [m.name + '.o' for m in self.mods if m.kind == 'lib' and m.lib == l]
            opts = []
            if r.random() < 0.6:
                opts.append('-Wl,-soname,libso%d.so.1' % l)
            opts.append('-Wl,--hash-style=' + r.choice(['gnu', 'sysv', 'both']))
            if r.random() < 0.15:
                opts.append('-Wl,-z,now')
            if r.random() < 0.3:
                opts.append('-nostartfiles')
            tool(['gcc', '-shared', '-o', 'libso%d.so' % l] + objs +
                 ['-Wl,--no-as-needed'] + ['./libso%d.so' % k for k in range(l)] + opts, d)
            if any('soname' in o for o in opts):
                os.symlink('libso%d.so' % l, os.path.join(d, 'libso%d.so.1' % l))
            self.libfiles.append('libso%d.so' % l)


WAYS = [['strip', '-g'], ['strip', '--strip-unneeded'], ['strip', '-x'], ['llvm-strip', '-g'],
        ['llvm-strip', '--strip-unneeded'], ['objcopy', '-X'], ['objcopy', '-R', '.comment'],
        ['objcopy', '--set-section-alignment', '.text=128'], ['llvm-objcopy', '-x'],
        ['objcopy', '--add-symbol', 'added=.text:0,local'], ['llvm-objcopy', '--strip-debug'],
        ['objcopy', '--rename-section', '.data=.data.renamed']]


def transform(r, objects, d, count, locals_=True):
    """Objects that other tools have had in their hands. Some of them are made one. `locals_`:
    whether these may lose local symbols."""
    out = list(objects)
    for k, o in enumerate(out):
        if r.random() < 0.4:
            w = r.choice([w for w in WAYS if locals_ or w[1] not in ('-x', '-X', '--strip-unneeded')])
            # (not all of them take everything)
            x = core.run(w + [o, 'changed'] if 'objcopy' in w[0] else w + ['-o', 'changed', o], d)
            if x.rc == 0 and core.run(['objdump', '-r', 'changed'], d).rc == 0:
                os.rename(os.path.join(d, 'changed'), os.path.join(d, o))
                count('units after ' + ' '.join(w[:2]))
    if len(out) > 1 and r.random() < 0.6:
        k = sorted(r.sample(range(len(out)), min(len(out), r.choice([1, 2, 2, 3, 9]))))
        ld = r.choice([['ld', '-r'], ['ld', '-r'], ['ld.lld', '-r'], ['ld', '-r', '--unique'],
                       ['ld', '-r', '-x'] if locals_ else ['ld', '-r'], ['ld', '-r', '-S'], ['ld', '-r', '-d'],
                       ['ld', '-r', '--force-group-allocation']])
        tool(ld + ['-o', 'merged.o'] + [out[i] for i in k], d)
        count('units after ' + ' '.join(ld), len(k))
        for i in reversed(k[1:]):
            del out[i]
        out[k[0]] = 'merged.o'
    return out


def judge_run(d, rep, gen, what, env=None, known=None):
    """Runs the program in all ways and compares it with the reference. `known` is the signature
    of a recorded finding with the status and output it has."""
    ref = execute(d, 'ref', args=['x', 'y'], env=env)
    if ref.rc < 0 or ref.timeout or ref.rc == 127:
        raise core.Inconclusive('the reference ends with %d: %s' % (ref.rc, ref.err[-300:]))
    for now in (False, True):
        got = execute(d, 'prog', now, args=['x', 'y'], env=env)
        rep.count('runs')
        rep.count('lines of output compared', got.out.count('\n'))
        out = ref.out.splitlines()
        if len(got.out.splitlines()) == len(out):
            # the reference does not always see to it that a function has one address
            for k, x in enumerate(got.out.splitlines()):
                if x.startswith('same ') and x[-2:] == ' 1' and out[k] == x[:-1] + '0':
                    out[k] = x
                    rep.count('addresses the reference has two of')
        if got.timeout or got.rc != ref.rc or got.out.splitlines() != out:
            again = execute(d, 'ref', now, args=['x', 'y'], env=env)
            if (again.rc, again.out) != (ref.rc, ref.out):
                raise core.Inconclusive('the reference is not of one mind')
            a, b = got.out.splitlines(), out
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            sig = known[0] if known and (got.rc, got.out) == known[1:] else None
            rep.bad('%s (%s binding): status %d%s instead of %d, line %d: %r instead of %r %s' % (
                what, 'eager' if now else 'lazy', got.rc, ' (timeout)' if got.timeout else '',
                ref.rc, k, a[k:k + 1], b[k:k + 1], got.err[-200:]), sig)
            return False
    return True
