"""C19: exceptions, cleanups and backtraces cross all the code that has been linked."""
import collections
import re

from .common import *
from . import c01, prog

# -- frames of a file --------------------------------------------------------------------------------


def uleb(b, i):
    v = s = 0
    while True:
        v |= (b[i] & 127) << s
        s += 7
        i += 1
        if not b[i - 1] & 128:
            return v, i


def pointer(b, i, enc, addr):
    """A pointer at offset i of b, which is at address addr."""
    if enc == 0xff:
        return None, i
    f, n = {0: ('<Q', 8), 2: ('<H', 2), 3: ('<I', 4), 4: ('<Q', 8), 10: ('<h', 2), 11: ('<i', 4),
            12: ('<q', 8)}[enc & 15]
    v, = struct.unpack_from(f, b, i)
    if enc & 0x70 == 0x10 and v:
        v += addr + i
    elif enc & 0x70 not in (0, 0x10):
        raise Malformed('pointer encoding %#x' % enc)
    return v & (1 << 64) - 1, i + n


def chain(b, addr):
    """The records of `.eh_frame` up to the end mark: [(address, size, instructions, personality,
    the exception table)] of the functions, and the offset of the end (None: there's no mark)."""
    cies, out, i = {}, [], 0
    while i < len(b):
        if i + 4 > len(b):
            raise Malformed('a record of .eh_frame is cut off at %#x' % i)
        n, = struct.unpack_from('<I', b, i)
        start, j = i, i + 4
        if n == 0:
            return out, i
        if n == 0xffffffff:
            n, = struct.unpack_from('<Q', b, j)
            j += 8
        end = j + n
        if end > len(b):
            raise Malformed('a record of .eh_frame at %#x ends at %#x of %#x' % (i, end, len(b)))
        c, = struct.unpack_from('<I', b, j)
        at, j = j, j + 4
        if c == 0:
            aug = b[j + 1:b.index(b'\0', j + 1)].decode('ascii')
            j += 2 + len(aug)
            x = [b[at + 4], aug]
            for k in range(3):
                v, j = uleb(b, j)
                x.append(v)
            fde = lsda = 0
            lsda, pers = 0xff, None
            if aug[:1] == 'z':
                n, j = uleb(b, j)
                rest = j + n
                for ch in aug[1:]:
                    if ch == 'R':
                        fde = b[j]
                        j += 1
                    elif ch == 'L':
                        lsda = b[j]
                        j += 1
                    elif ch == 'P':
                        pers = b[j] & 0x80
                        v, j = pointer(b, j + 1, b[j] & 0x7f, addr)
                        pers = (pers, v)
                    elif ch not in 'SB':
                        raise Malformed('augmentation %r' % aug)
                j = rest
            elif aug:
                raise Malformed('augmentation %r' % aug)
            cies[start] = (x, fde, lsda, pers, b[j:end].rstrip(b'\0').hex(), aug)
        else:
            if at - c not in cies:
                raise Malformed('a record of .eh_frame at %#x refers to %#x' % (i, at - c))
            x, fde, lsda, pers, code, aug = cies[at - c]
            a, j = pointer(b, j, fde, addr)
            size, j = pointer(b, j, fde & 15, addr)
            table = None
            if aug[:1] == 'z':
                n, j = uleb(b, j)
                if lsda != 0xff and n:
                    table = pointer(b, j, lsda & 0x7f, addr)[0] or None
                j += n
            out.append((a, size, (x, code, b[j:end].rstrip(b'\0').hex()), pers, table))
        i = end
    return out, None


class Frames:
    """What there is to unwind in a file."""

    def __init__(self, e):
        self.e = e
        p = [x for x in e.ph if x.type == 0x6474e550]
        if len(p) != 1:
            raise Malformed('%d program headers for exceptions' % len(p))
        p = p[0]
        b = e.mem(p.vaddr, p.memsz)
        if b is None or len(b) < 8 or p.filesz != p.memsz or \
                b != e.data[p.off:p.off + p.filesz] or p.vaddr % max(p.align, 1):
            raise Malformed('the program header for exceptions is %r' % p)
        if b[0] != 1:
            raise Malformed('version %d of the header of .eh_frame' % b[0])
        self.start, j = pointer(b, 4, b[1], p.vaddr)
        s = [x for x in e.sh if x.name == '.eh_frame' and x.addr == self.start]
        if len(s) != 1:
            raise Malformed('the header refers to %#x, where there is no .eh_frame' % self.start)
        self.fdes, self.end = chain(e.content(s[0]), self.start)
        self.size = s[0].size
        self.table = None
        if b[2] != 0xff:
            n, j = pointer(b, j, b[2], p.vaddr)
            if b[3] != 0x3b:
                raise Malformed('table encoding %#x' % b[3])
            self.table = []
            for k in range(n):
                a, f = struct.unpack_from('<ii', b, j + 8 * k)
                self.table.append((p.vaddr + a, p.vaddr + f))
            if self.table != sorted(self.table):
                raise Malformed('the table of functions is not sorted')
        syms = collections.defaultdict(set)
        strong = set()
        for y in e.symtab:
            if y.type in (0, 2) and 0 < y.shndx < 0xff00 and y.name:
                syms[y.value].add(y.name)
                # (thunks are in groups that are repeated)
                if y.bind < 2 and not skip(y.name) and not y.name.startswith('__x86_'):
                    strong.add(y.value)
        code = [(s.addr, s.addr + s.size) for s in e.sh
                if s.flags & 4 and not s.name.startswith('.plt')]
        self.funcs = collections.defaultdict(list)
        for a, size, how, pers, table in self.fdes:
            if any(x <= a < y for x, y in code):
                if pers:
                    v = e.u64(pers[1]) if pers[0] else pers[1]
                    # (an address of an import is decided on as the program runs)
                    pers = (pers[0], v is not None)
                if table is not None:
                    t = e.segment(table)
                    table = t is not None and e.mem(table, 4) is not None
                self.funcs[a].append((size, how, pers, table))
        self.by_name = collections.Counter()
        self.weak = set()
        self.named = {n for l in syms.values() for n in l}
        for a, l in self.funcs.items():
            names = sorted(n for n in syms.get(a, ()) if not skip(n))
            for x in l:
                # (which of repeated functions is chosen depends on the order, and which names
                # each has on the compiler)
                if a in strong:
                    self.by_name[(tuple(names), repr(x))] += 1
                else:
                    self.weak.update(names)


def skip(n):
    """Names that an address may have in one file only."""
    return n in ('_init', '_fini', '__bss_start') or n.startswith(('.L', '_edata', '_end'))


def compare(ours, theirs):
    for k, n in theirs.by_name.items():
        if ours.by_name[k] < n:
            other = [x[1] for x in ours.by_name if x[0] == k[0]]
            return 'there are %d records instead of %d for %s %s (but %s)' % (
                ours.by_name[k], n, k[0], k[1][:150], str(other)[:300])
    for n in sorted((theirs.weak & ours.named) - ours.weak):
        if not any(n in k[0] for k in ours.by_name):
            return 'there is no record for %s' % n
    # (repeated sections may stay, with records of their own)
    last = 0
    for a in sorted(ours.funcs):
        if a < last or len(ours.funcs[a]) > 1:
            return 'there are several records for %#x: %s' % (a, ours.funcs[a])
        last = a + ours.funcs[a][0][0]


# -- programs ----------------------------------------------------------------------------------------

COMMON = r'''
#include <exception>
#include <new>
#include <typeinfo>
extern "C" void trace(const char *, long);
extern "C" void bt(const char *);
extern "C" int fuel(void);
struct G { const char *n; long v; G(const char *n, long v) : n(n), v(v) {}
  ~G() { trace(n, v + std::uncaught_exceptions()); } };
struct E0 { long x; E0(long x) : x(x) {} virtual ~E0() {} virtual long id() const { return 0; } };
struct E1 : E0 { E1(long x) : E0(x) {} long id() const override { return 1; } };
struct E2 : virtual E0 { E2(long x) : E0(x) {} long id() const override { return 2 + x; } };
struct E3 : E1 { G g; E3(long x) : E1(x), g("E3", x & 15) {} E3(const E3 &o) : E1(o), g(o.g) {}
  long id() const override { return 3; } };
template<int N> long count() { static long c = N; return c += N; }
template<int N> struct T : E0 { T(long x) : E0(x) {} long id() const override { return N * 100 + count<N>(); } };
template<class F> long attempt(const char *n, F f) { G g(n, 0);
  try { return f(); } catch (const E0 &e) { trace(n, e.id()); return e.x; } }
template<int N> __attribute__((noinline)) long thrower(long a) { if (a & 1) throw T<N>(a); return a + N; }
inline __attribute__((noinline)) long nested(long a) { G g("nested", a & 7);
  try { return thrower<7>(a); } catch (T<7> &t) { G h("inner", t.id()); try { throw t.x; } catch (long l) { return l; } } }
extern "C" {
'''
STD = r'''
#include <string>
#include <stdexcept>
#include <vector>
#include <functional>
'''
C_COMMON = r'''
extern void trace(const char *, long); extern void bt(const char *); extern int fuel(void);
static void gone(long *p) { trace("gone", *p); }
'''


class Fn:
    def __init__(self, k, unit):
        self.k, self.unit, self.name = k, unit, 'f%d' % k
        self.decl = 'long f%d(long a);' % k


class Unit:
    def __init__(self, name, kind, lang):
        self.name, self.kind, self.lang = name, kind, lang
        self.fns = []
        self.std = False


class ExcGen:
    def __init__(self, rng):
        self.r = rng
        self.counts = collections.Counter()

    def build(self):
        r = self.r
        self.threads = r.random() < 0.4
        self.libs = [Unit('lib%d' % i, 'lib', 'cc') for i in range(r.choice([0, 0, 1, 1, 2]))]
        n = r.randrange(1, 6)
        self.units = [Unit('u%d' % i, r.choice(['obj', 'obj', 'member']),
                           r.choice(['cc', 'cc', 'cc', 'c', 's'])) for i in range(n)]
        self.units[0].kind, self.units[0].lang = 'obj', 'cc'
        if r.random() < 0.35:
            self.units.append(Unit('bare', 'obj', 'bare'))
        allu = [u for u in self.units if u.lang != 'bare'] + self.libs
        nf = r.randrange(5, 15)
        self.fns = [Fn(k, r.choice(allu)) for k in range(nf)]
        for f in self.fns:
            f.unit.fns.append(f)
        self.src = {}
        for u in allu:
            if u.lang == 'cc':
                u.std = r.random() < 0.3
        for u in allu:
            self.src[u.name] = getattr(self, 'text_' + u.lang)(u)
        if n != len(self.units):
            self.src['bare'] = self.text_bare()
        self.src['main'] = self.text_main()
        return self

    def callee(self, f):
        c = [x for x in self.fns if f.k < x.k <= f.k + 4]
        # (a library does not call what may be left out of the program, nor a later library)
        return self.r.choice(c) if c else None

    def call(self, f, arg='a'):
        """A call that an exception may come from."""
        x = self.callee(f)
        r = self.r
        if x is None:
            return r.choice(['nested(%s)', 'thrower<1>(%s)', 'thrower<2>(%s)', 'count<3>() + (%s)']) % arg
        f.calls.add(x)
        if r.random() < 0.15:
            f.unit.taken.add(x)
            return 'p_%s(%s)' % (x.name, arg)
        return '%s(%s)' % (x.name, arg)

    def throw(self, u):
        r = self.r
        e = ['throw (int) a;', 'throw E1(a);', 'throw E2(a);', 'throw E3(a);', 'throw T<1>(a);',
             'throw T<%d>(s);' % r.randrange(2, 6), 'throw "text";', 'throw (long) s;',
             'throw std::bad_alloc();', 'throw (E0 *) 0;']
        if u.std:
            e += ['throw std::runtime_error("rt" + std::to_string(s & 255));',
                  'throw std::string("str");']
        return r.choice(e)

    def handler(self, f):
        r = self.r
        n = f.name
        opts = ['catch (int e) { trace("%s int", e); s += e; %%s }' % n,
                'catch (const E1 &e) { trace("%s E1", e.id()); s += e.x; %%s }' % n,
                'catch (const E0 &e) { trace("%s E0", e.id()); s ^= e.x; %%s }' % n,
                'catch (E2 e) { trace("%s E2", e.id()); s -= e.x; %%s }' % n,
                'catch (T<1> &e) { trace("%s T1", e.x); ++e.x; %%s }' % n,
                'catch (const char *e) { trace(e, s); %%s }',
                'catch (long &e) { trace("%s long", e); e += 2; %%s }' % n,
                'catch (const std::exception &e) { trace(e.what(), 0); %s }',
                'catch (...) { trace("%s any", s); %%s }' % n]
        if f.unit.std:
            opts.insert(7, 'catch (std::string &e) { trace(e.c_str(), (long) e.size()); e += "+"; %s }')
        k = sorted(r.sample(range(len(opts)), r.choice([1, 1, 2, 3])))
        out = []
        for i in k:
            x = r.choice(['', '', 'throw;', 'throw (int) (s & 31);', 'return s;', 'bt("%s handler");' % n,
                          'throw E3(s & 63);'])
            out.append(opts[i].replace('%%s', '%s').replace('%s', x))
        return ' '.join(out)

    def text_cc(self, u):
        r = self.r
        t = []
        u.taken = set()
        bodies = []
        for f in u.fns:
            f.calls = set()
            b = ['if (fuel()) return a;', 'long s = a * %d + %d, k1 = s ^ a, k2 = s + 3 * a;' % (
                r.randrange(1, 9), r.randrange(50))]
            for i in range(r.randrange(1, 4)):
                k = r.randrange(10)
                tag = '%s.%d' % (f.name, i)
                if k == 0:
                    b.append('{ G g("%s", s & 31); s += %s; }' % (tag, self.call(f, 'a + %d' % i)))
                elif k <= 3:
                    b.append('try { G g("%s", k1 & 7); s += %s; %s } %s' % (
                        tag, self.call(f, 'a + %d' % (i + 1)),
                        'if (s %% %d == %d) %s' % (r.randrange(2, 4), r.randrange(2), self.throw(u))
                        if r.random() < 0.5 else '', self.handler(f)))
                elif k == 4:
                    b.append('if ((a + %d) %% %d == 0) { %s %s }' % (
                        i, r.randrange(2, 5), 'bt("%s");' % tag if r.random() < 0.3 else '',
                        self.throw(u)))
                elif k == 5:
                    b.append('s += attempt("%s", [&] { return %s; });' % (tag, self.call(f, 'a ^ 1')))
                elif k == 6:
                    b.append('bt("%s"); s += %s;' % (tag, self.call(f, 'a + 2')))
                elif k == 7:
                    b.append('{ volatile char *v = (char *) __builtin_alloca(16 + (a & 63)); v[a & 15] = 1; '
                             'G g("%s", v[a & 15]); s += %s + v[a & 15]; }' % (tag, self.call(f, 'a - 1')))
                elif k == 8:
                    b.append('{ static long first = %s; s += first; }' % self.call(f, 'a + 3'))
                elif u.std:
                    b.append('{ std::function<long(long)> h = [&](long x) { return x + %s; }; '
                             'std::vector<std::string> v(1 + (a & 3), "long enough for the heap to be needed"); '
                             's += h(a & 7) + (long) v.back().size(); }' % self.call(f, 'x'))
                else:
                    b.append('{ E0 *p = a & 1 ? (E0 *) new E2(a) : new T<4>(a); '
                             'if (dynamic_cast<E2 *>(p)) s += p->id(); s += typeid(*p) == typeid(T<4>); '
                             'G g("%s", s & 3); delete p; }' % tag)
            b.append('trace("%s", k1 - k2); return s & 0xffff;' % f.name)
            bodies.append('__attribute__((noinline%s)) long %s(long a) {\n  %s\n}' % (
                r.choice(['', '', ', cold', ', section(".text.%s")' % r.choice('xyz'), ', aligned(64)']),
                f.name, '\n  '.join(b)))
        decls = sorted({x.decl for f in u.fns for x in f.calls} | {f.decl for f in u.fns})
        t = [STD if u.std else '', COMMON] + decls
        for x in sorted(u.taken, key=lambda x: x.k):
            t.append('static long (*%s p_%s)(long) = %s;' % (
                r.choice(['volatile', 'const volatile']), x.name, x.name))
        t += bodies
        # the functions as the unit itself knows them
        for f in u.fns:
            t.append('extern __attribute__((visibility("hidden"), alias("%s"))) long own_%s(long);' % (
                f.name, f.name))
        t.append('void known_%s(void (*k)(const char *, void *)) { %s }' % (
            u.name, ' '.join('k("%s", (void *) own_%s);' % (f.name, f.name) for f in u.fns)))
        t.append('}')
        return '\n'.join(t) + '\n'

    def text_c(self, u):
        r = self.r
        u.taken = set()
        t = [C_COMMON]
        bodies = []
        for f in u.fns:
            f.calls = set()
            b = ['if (fuel()) return a;']
            s = ['long s = a + %d;' % r.randrange(9)]
            x = self.callee(f)
            if r.random() < 0.7:
                s.append('long x __attribute__((cleanup(gone))) = s;')
            if r.random() < 0.3:
                s.append('char v[8 + (a & 31)]; v[a & 7] = 3; s += v[a & 7];')
            if x:
                f.calls.add(x)
                s.append('s += %s(a + %d);' % (x.name, r.randrange(3)))
            if r.random() < 0.3:
                s.append('bt("%s");' % f.name)
            s.append('return s & 0xffff;')
            bodies.append('__attribute__((noinline)) long %s(long a) { %s\n  %s }' % (
                f.name, b[0], '\n  '.join(s)))
        t += sorted({x.decl for f in u.fns for x in f.calls} | {f.decl for f in u.fns}) + bodies
        t.append('void known_%s(void (*k)(const char *, void *)) { %s }' % (
            u.name, ' '.join('k("%s", (void *) %s);' % (f.name, f.name) for f in u.fns)))
        return '\n'.join(t) + '\n'

    def text_s(self, u):
        r = self.r
        t = ['.text']
        for f in u.fns:
            f.calls = set()
            sec = r.random() < 0.3
            if sec:
                t.append('.section .text.%s,"ax",@progbits' % f.name)
            t += ['.globl %s' % f.name, '.type %s,@function' % f.name, '%s:' % f.name,
                  ' .cfi_startproc']
            regs = r.sample(['rbx', 'r12', 'r13', 'r14', 'r15'], r.randrange(1, 5))
            num = {'rbx': 3, 'r12': 12, 'r13': 13, 'r14': 14, 'r15': 15}
            frame = r.random() < 0.4
            off = 8
            if frame:
                t += [' push %rbp', ' .cfi_def_cfa_offset 16', ' .cfi_offset 6, -16',
                      ' mov %rsp, %rbp', ' .cfi_def_cfa_register 6']
                off = 16
            for x in regs:
                off += 8
                t.append(' push %%%s' % x)
                if not frame:
                    t.append(' .cfi_adjust_cfa_offset 8')
                t.append(' .cfi_offset %d, -%d' % (num[x], off))
            n = 16 * r.randrange(1, 20) + (-off) % 16
            t.append(' sub $%d, %%rsp' % n)
            if not frame:
                t.append(' .cfi_adjust_cfa_offset %d' % n)
            for x in regs:
                t.append(' lea %d(%%rdi), %%%s' % (r.randrange(1000), x))
            x = self.callee(f)
            if x:
                f.calls.add(x)
                t += [' lea %d(%%rdi), %%rdi' % r.randrange(3), ' call %s%s' % (x.name, r.choice(['', '@PLT']))]
            else:
                t.append(' mov %rdi, %rax')
            t.append(' lea (%%rax,%%%s), %%rax' % regs[0])
            t.append(' movzwl %ax, %eax')
            if r.random() < 0.3:
                t.append(' .cfi_remember_state')
            else:
                t.append(' nop')
            t.append(' add $%d, %%rsp' % n)
            if not frame:
                t.append(' .cfi_adjust_cfa_offset -%d' % n)
            for x in reversed(regs):
                t.append(' pop %%%s' % x)
                if not frame:
                    t.append(' .cfi_adjust_cfa_offset -8')
            if frame:
                t += [' pop %rbp', ' .cfi_def_cfa 7, 8']
            t += [' ret', ' .cfi_endproc', '.size %s, .-%s' % (f.name, f.name)]
            if sec:
                t.append('.text')
        t += ['.globl known_%s' % u.name, '.type known_%s,@function' % u.name, 'known_%s:' % u.name,
              ' .cfi_startproc', ' push %rbx', ' .cfi_def_cfa_offset 16', ' .cfi_offset 3, -16',
              ' mov %rdi, %rbx']
        for f in u.fns:
            t += [' lea .Ln%s(%%rip), %%rdi' % f.name, ' lea %s(%%rip), %%rsi' % f.name, ' call *%rbx']
        t += [' pop %rbx', ' .cfi_def_cfa_offset 8', ' ret', ' .cfi_endproc',
              '.section .rodata.str1.1,"aMS",@progbits,1']
        t += ['.Ln%s: .asciz "%s"' % (f.name, f.name) for f in u.fns]
        return '\n'.join(t + ['.section .note.GNU-stack,"",@progbits']) + '\n'

    def text_bare(self):
        """Records that no compiler wrote, with sizes and alignments of their own."""
        r = self.r
        t = ['.text', '.globl bare', '.type bare,@function', 'bare: mov %rdi, %rax', ' ret',
             '.size bare, .-bare']
        if r.random() < 0.4:
            # a section of no records
            self.counts['with sections of no records'] += 1
            return '\n'.join(t + ['.section .eh_frame,"a",@%s' % r.choice(['progbits', 'unwind']),
                                  '.section .note.GNU-stack,"",@progbits']) + '\n'
        al = r.choice([1, 4, 4, 8])
        t += ['.section .eh_frame,"a",@%s' % r.choice(['progbits', 'unwind']), '.balign %d' % al]
        padb = r.choice([0, 4, 8]) if al > 1 else r.choice([0, 1, 3, 4])
        t += ['0: .long 2f-1f', '1: .long 0', '.byte 1', '.asciz "zR"', '.byte 1,0x78,0x10,1,0x1b',
              '.byte 0x0c,7,8,0x90,1'] + ['.byte 0'] * (2 + padb) + ['2:']
        for k in range(r.choice([1, 1, 2])):
            t += ['.long 4f-3f', '3: .long 3b-0b', '.long bare%s-.' % ('+1' if k else ''),
                  '.long 1', '.byte 0'] + ['.byte 0'] * r.choice(
                      [3, 3, 7, 11] if al > 1 else range(12)) + ['4:']
            t = [x.replace('bare+1', 'bare+3') for x in t]
        return '\n'.join(t + ['.section .note.GNU-stack,"",@progbits']) + '\n'

    def text_main(self):
        r = self.r
        us = [u for u in self.units if u.lang != 'bare'] + self.libs
        t = ['#include <cstdio>', '#include <cstdlib>', '#include <cstring>', '#include <string>',
             '#include <unistd.h>', '#include <unwind.h>', '#include <pthread.h>', COMMON,
             'static __thread int depth;' if False else 'static int depth;',
             'void trace(const char *n, long v) { printf("%s %ld\\n", n, v); }',
             'int fuel(void) { return ++depth > 400; }',
             'struct K { const char *n; void *f; }; static K known[64]; static int nknown;',
             'static void know(const char *n, void *f) { known[nknown].n = n; known[nknown++].f = f; }',
             'static _Unwind_Reason_Code step(_Unwind_Context *c, void *) { int before = 0; '
             'char *ip = (char *) _Unwind_GetIPInfo(c, &before); '
             'void *f = _Unwind_FindEnclosingFunction(ip - !before); '
             'for (int i = 0; i < nknown; ++i) if (known[i].f == f) printf(" %s", known[i].n); '
             'return _URC_NO_REASON; }',
             'void bt(const char *n) { printf("bt %s:", n); _Unwind_Backtrace(step, NULL); puts(""); }']
        for u in us:
            t.append('void known_%s(void (*)(const char *, void *));' % u.name)
        t += [f.decl for f in self.fns]
        t.append('}')
        t.append('static long start(long a) { depth = 0; try { G g("start", a); long s = f0(a); '
                 'trace("done", s); return s; } '
                 'catch (int e) { trace("main int", e); } catch (long e) { trace("main long", e); } '
                 'catch (const E0 &e) { trace("main E0", e.id()); } '
                 'catch (const char *e) { trace(e, 0); } '
                 'catch (const std::exception &e) { trace(e.what(), 1); } '
                 'catch (...) { trace("main any", 0); } return 0; }')
        body = ['know("main", (void *) main);'] if False else []
        for u in us:
            body.append('known_%s(know);' % u.name)
        args = [r.randrange(40) for i in range(r.randrange(2, 6))]
        for a in args:
            body.append('start(%d);' % a)
        for f in r.sample(self.fns, min(3, len(self.fns))):
            body.append('try { trace("%s", %s(%d)); } catch (...) { trace("main %s", -1); }' % (
                f.name, f.name, r.randrange(20), f.name))
        if self.threads:
            t.append('''
static void *run(void *a) { G g("thread", (long) a); return (void *) start((long) a); }
static void *leave(void *a) { G g("left", (long) a); try { pthread_exit(a); } catch (...) { trace("exiting", 0); throw; } return NULL; }
static void *wait(void *a) { G g("waited", (long) a); for (;;) { pause(); pthread_testcancel(); } return NULL; }
static void with(void *(*f)(void *), long a, bool stop) { pthread_t t; void *v = NULL; fflush(stdout); pthread_create(&t, NULL, f, (void *) a);
  if (stop) pthread_cancel(t);
  pthread_join(t, &v); trace("joined", v == PTHREAD_CANCELED ? -1 : (long) v); }''')
            body += r.sample(['with(run, %d, false);' % r.randrange(40), 'with(leave, 5, false);',
                              'with(wait, 6, true);'], r.randrange(1, 4))
            self.counts['with threads'] += 1
        end = r.choice(['return 0;', 'return 3;', 'exit(4);', 'terminate', 'noexcept'])
        if end in ('terminate', 'noexcept'):
            body.append('std::set_terminate([] { trace("terminate", std::uncaught_exceptions()); '
                        'try { throw; } catch (E1 &e) { trace("E1", e.x); } catch (...) { } '
                        'fflush(stdout); _exit(9); });')
            if end == 'noexcept':
                t.append('static long never(long a) noexcept { G g("never", a); return thrower<9>(a); }')
                body.append('try { return never(7); } catch (...) { trace("wrong", 0); }')
            else:
                body.append('throw E1(11);')
            self.counts['that terminate'] += 1
        else:
            body.append(end)
        t.append('int main(int argc, char **argv) {\n  setvbuf(stdout, NULL, _IOFBF, 1 << 16);\n  %s\n}' %
                 '\n  '.join(body))
        return '\n'.join(t) + '\n'

    def flags(self, u):
        r = self.r
        f = [r.choice(['-O0', '-O1', '-O2', '-O3', '-Os'])]
        if u.cc == 'clang++':
            f.append('-fPIC' if u.kind == 'lib' else r.choice(['-fno-pic', '-fpie', '-fPIC']))
            f += r.sample(['-ffunction-sections', '-fdata-sections', '-fomit-frame-pointer',
                           '-fno-omit-frame-pointer', '-fno-plt', '-g', '-fno-inline',
                           '-fno-asynchronous-unwind-tables', '-fno-unique-section-names',
                           '-fno-integrated-as', '-fvisibility-inlines-hidden', '-mretpoline',
                           '-funique-internal-linkage-names', '-fno-use-cxa-atexit'],
                          r.randrange(0, 5))
            return f
        if u.kind == 'lib':
            f += ['-fPIC']
        else:
            f += [r.choice(['-fno-pic', '-fpie', '-fPIC', '-fPIE', ''])]
        opts = ['-ffunction-sections', '-fdata-sections', '-fomit-frame-pointer',
                '-fno-omit-frame-pointer', '-fno-plt', '-fcf-protection=none', '-g', '-g1',
                '-fasynchronous-unwind-tables', '-fno-asynchronous-unwind-tables',
                '-fno-dwarf2-cfi-asm', '-fno-inline', '-fno-stack-protector', '-fno-use-cxa-atexit',
                '-fvisibility-inlines-hidden', '-fno-gnu-unique', '-freorder-blocks-and-partition',
                '-mindirect-branch=thunk -fcf-protection=none', '-fvtable-verify=none',
                '-fno-weak']
        for o in r.sample(opts[:-2], r.randrange(0, 5)):
            if u.lang == 'c' and o in ('-fno-use-cxa-atexit', '-fvisibility-inlines-hidden',
                                       '-fno-gnu-unique'):
                continue
            f += o.split()
        if u.lang == 'c':
            f += ['-fexceptions']
        if u.kind != 'lib' and r.random() < 0.1 and '-fno-pic' in f:
            f += ['-mcmodel=' + r.choice(['medium', 'large'])]
            f = [x for x in f if not x.startswith('-mindirect')]
        return [x for x in f if x]

    def emit(self, d, rep):
        r = self.r
        main = Unit('main', 'obj', 'cc')
        all_ = self.units + [main] + self.libs
        for u in all_:
            ext = {'cc': '.cc', 'c': '.c', 's': '.s', 'bare': '.s'}[u.lang]
            with open(os.path.join(d, u.name + ext), 'w') as f:
                f.write(self.src[u.name])
            if ext == '.s':
                prog.tool(['as', '-o', u.name + '.o', u.name + ext], d)
                flags = []
            else:
                u.cc = {'cc': r.choice(['g++', 'g++', 'clang++']), 'c': 'gcc'}[u.lang]
                flags = self.flags(u)
                self.counts['units by ' + u.cc] += 1
                prog.tool([u.cc, '-c', '-w', u.name + ext, '-o', u.name + '.o'] + flags, d)
            self.counts['units: ' + u.lang] += 1
            rep.shape(self.src[u.name], flags, ext != '.s' and u.cc)
        self.libfiles = []
        for u in self.libs:
            prog.tool(['g++', '-shared', '-o', 'lib%s.so' % u.name, u.name + '.o'], d)
            self.libfiles.append('lib%s.so' % u.name)
        self.objects = [u.name + '.o' for u in self.units + [main] if u.kind == 'obj']
        r.shuffle(self.objects)
        members = [u.name + '.o' for u in self.units if u.kind == 'member']
        r.shuffle(members)
        self.archives = []
        k = r.randrange(len(members) + 1)
        for i, part in enumerate((members[:k], members[k:])):
            if part:
                prog.tool(['ar', 'rcs', 'libar%d.a' % i] + part, d)
                self.archives.append('libar%d.a' % i)


def program_case(rng, idx, d, rep):
    g = ExcGen(rng).build()
    g.emit(d, rep)
    if rng.random() < 0.3:
        g.objects = prog.transform(rng, g.objects, d, rep.count)
    std = ['-lstdc++', '-lm']
    r = core.run(prog.ref_args(g.objects, g.archives, g.libfiles, opts=['--eh-frame-hdr'],
                               final=std), d)
    if r.rc:
        raise RuntimeError('the reference linker fails: %s' % r.err[-2000:])
    cmd = c01.command(g, rng)
    if rng.random() < 0.2:
        rep.count('links by way of clang')
        res = prog.driver(rng, cmd, d, 'clang++')
    else:
        res = core.dld(prog.dld_args(cmd + std, opts=['--eh-frame-hdr']), d)
    what = 'a link of %s' % ' '.join(cmd)
    data = linked(res, d, rep, what, 'prog')
    if data is None:
        return
    rep.count('programs')
    for k, n in g.counts.items():
        rep.count(k if k.startswith('units') else 'programs ' + k, n)
    ref = prog.execute(d, 'ref')
    if ref.rc < 0 or ref.timeout or ref.rc == 127:
        raise core.Inconclusive('the reference ends with %d: %s' % (ref.rc, ref.err[-300:]))
    lines = ref.out.splitlines()
    rep.count('lines compared', len(lines))
    rep.count('backtraces compared', sum(x.startswith('bt ') for x in lines))
    rep.count('frames of backtraces', sum(x.count(" f") for x in lines if x.startswith("bt ")))
    rep.count('handlers seen to run', sum(bool(re.match(r'f\d+ \w+ |main \w+ ', x)) for x in lines))
    if prog.judge_run(d, rep, g, what):
        with open(os.path.join(d, 'ref'), 'rb') as f:
            theirs = Frames(Elf(f.read()))
        try:
            ours = Frames(Elf(data))
        except (Malformed, struct.error, IndexError, ValueError, KeyError) as x:
            rep.bad('%s: the frames cannot be read: %r' % (what, x))
            return
        if ours.end is None:
            rep.bad('%s: the records of .eh_frame have no end' % what)
        p = compare(ours, theirs)
        if p:
            rep.bad('%s: %s' % (what, p))
        rep.count('functions with records', sum(theirs.by_name.values()) + len(theirs.weak))
    rep.sample({'command': cmd, 'output': lines[:8]})


def main():
    c = core.Check(
        'C19', rule='A case is a program of generated C++, C and assembly units (distinct by texts and '
        'flags) that throws and catches across objects, archive members, libraries and threads, '
        'writing a trace of handlers, destructors, cleanups and backtraces, which has to be that of '
        'the link by GNU ld; the records of .eh_frame of both are decoded and compared.',
        assumptions=['the C++ runtime and unwinder are those of the sandbox'])
    T = core.THOROUGH
    c.run(program_case, 8000 if T else 240, 2000 if T else 100, 'p')
    c.finish()
