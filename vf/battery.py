"""Programs that lean on one feature of the system each: (name, files, options). A file whose name
starts with lib is part of a shared library, with ar of an archive, and otherwise an object."""

ITEMS = []


def item(name, files, libs=(), env=None, extra=(), flags=(), known=None):
    ITEMS.append(dict(name=name, files=files, libs=list(libs), env=env or {}, extra=list(extra),
                      flags=list(flags), known=known))


item('stdio', {'a.c': r'''
#include <stdio.h>
extern int more(FILE *);
FILE *const volatile table[] = {0};
int main(void) { char b[64]; fprintf(stdout, "out %d\n", 1); fprintf(stderr, "err\n");
  setvbuf(stdout, NULL, _IOFBF, 100); printf("%5.2f %s %c %x %lld\n", 3.14159, "str", 'c', 255, 1LL << 40);
  FILE *f = stdin; printf("%d\n", fgetc(f)); more(stdout); snprintf(b, sizeof b, "%08.3e", 12345.678);
  puts(b); putchar('x'); putchar('\n'); return fflush(NULL); }
''', 'b.c': r'''
#include <stdio.h>
int more(FILE *f) { return fprintf(f, "%d %d\n", f == stdout, stderr == f); }
'''})

item('environment', {'a.c': r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
extern char **__environ, **_environ;
void b(void);
int main(int c, char **v) { printf("%d %d\n", environ == __environ, environ == _environ);
  printf("%s\n", getenv("FRUIT")); setenv("FRUIT", "pear", 1); setenv("MORE", "1", 1);
  int n = 0; for (char **e = environ; *e; ++e) if (**e == 'F') puts(*e); b();
  clearenv(); printf("%d\n", environ == NULL || !*environ);
  char *x[] = {"ONLY=1", NULL}; environ = x; printf("%s %d\n", getenv("ONLY"), __environ == x); b();
  printf("%s %s\n", program_invocation_short_name[0] ? "named" : "", program_invocation_name == v[0] ? "same" : "other");
  return 0; }
''', 'b.c': r'''
#include <stdio.h>
extern char **_environ;
void b(void) { int n = 0; for (char **e = _environ; e && *e; ++e) n += **e == 'F' || **e == 'O'; printf("n %d\n", n); }
'''}, env={'FRUIT': 'apple'})

item('getopt', {'a.c': r'''
#include <stdio.h>
#include <unistd.h>
#include <getopt.h>
int main(void) { char *v[] = {"p", "-a", "-b", "val", "--long=7", "rest", NULL}; int o;
  static struct option l[] = {{"long", 1, 0, 'l'}, {0}};
  opterr = 0; while ((o = getopt_long(6, v, "ab:", l, NULL)) != -1) printf("%c %s %d\n", o, optarg ? optarg : "-", optind);
  printf("%d %s %d\n", optind, v[optind], optopt); optind = 1; printf("%c\n", getopt(6, v, "a")); return 0; }
'''})

item('time zone', {'a.c': r'''
#define _DEFAULT_SOURCE
#include <stdio.h>
#include <time.h>
extern long __timezone; extern char *__tzname[2];
int main(void) { tzset(); printf("%ld %d %s %s\n", timezone, daylight, tzname[0], tzname[1]);
  printf("%d %d\n", timezone == __timezone, tzname == __tzname);
  time_t t = 1000000000; char b[99]; strftime(b, 99, "%c %Z", localtime(&t)); puts(b);
  return 0; }
'''}, env={'TZ': 'XYZ5ABC'})

item('mathematics', {'a.c': r'''
#define _DEFAULT_SOURCE
#include <stdio.h>
#include <math.h>
extern int __signgam;
double (*volatile fs[])(double) = {sin, cos, exp, log, sqrt, floor, ceil, tgamma};
int main(void) { for (unsigned i = 0; i < sizeof fs / sizeof *fs; ++i) printf("%.9g\n", fs[i](1.5));
  printf("%.6f %d %d\n", lgamma(-0.5), signgam, __signgam); printf("%.9g %.9Lg\n", pow(2.5, 3.5), powl(2.5L, 0.5L));
  printf("%.5f\n", fma(2, 3, 4)); return 0; }
'''}, libs=['-lm'], flags=['-fno-builtin'])

item('indirect functions of libraries', {'a.c': r'''
#include <stdio.h>
#include <string.h>
typedef size_t len(const char *);
len *volatile p = strlen;
void *q[] = {memcpy, strlen, strchr, memset};
extern void *libc_says(int), *b_says(int);
int main(void) { char b[16]; printf("%zu %zu\n", p("hello"), strlen(b == NULL ? "" : "abc"));
  for (int i = 0; i < 4; ++i) printf("%d %d\n", q[i] == b_says(i), q[i] == libc_says(i));
  memcpy(b, "copied", 7); puts(b); puts(strchr(b, 'p')); memset(b, 'z', 3); puts(b); return 0; }
''', 'b.c': r'''
#include <string.h>
void *b_says(int i) { switch (i) { case 0: return memcpy; case 1: return strlen; case 2: return strchr; } return memset; }
''', 'lib1.c': r'''
#include <string.h>
static void *t[] = {memcpy, strlen, strchr, memset};
void *libc_says(int i) { return t[i]; }
'''}, flags=['-fno-builtin'])

item('own indirect function', {'a.c': r'''
#include <stdio.h>
static int one(int x) { return x + 1; } static int two(int x) { return x + 2; }
extern int pick;
static int (*resolve(void))(int) { return two; }
int f(int) __attribute__((ifunc("resolve")));
int (*p)(int) = f;
int main(void) { printf("%d %d %d\n", f(1), p(2), one(3)); return 0; }
'''}, known='refuse')

item('thread-local storage', {'a.c': r'''
#include <stdio.h>
__thread int x = 42; __thread int y[10]; extern __thread long z; long g(void);
int main(void) { printf("%d %d %ld %ld\n", x, y[3]++, z, g()); return y[3]; }
''', 'b.c': 'static __thread int s = 5; __thread long z = 77; long g(void) { return ++z + s++; }\n'},
    known='refuse')

item('sorting', {'a.c': r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int cmp(const void *, const void *); extern const char *const words[]; extern const int nwords;
static int rev(const void *a, const void *b) { return -cmp(a, b); }
int main(void) { const char *w[20]; memcpy(w, words, nwords * sizeof *w);
  qsort(w, nwords, sizeof *w, cmp); for (int i = 0; i < nwords; ++i) printf("%s ", w[i]); puts("");
  const char *k = "kiwi"; const char **f = bsearch(&k, w, nwords, sizeof *w, cmp); puts(f ? *f : "none");
  qsort(w, nwords, sizeof *w, rev); for (int i = 0; i < nwords; ++i) printf("%s ", w[i]); puts(""); return nwords; }
''', 'b.c': r'''
#include <string.h>
int cmp(const void *a, const void *b) { return strcmp(*(char **) a, *(char **) b); }
const char *const words[] = {"plum", "kiwi", "apple", "fig", "lime", "date"};
const int nwords = sizeof words / sizeof *words;
'''})

item('jumps', {'a.c': r'''
#include <stdio.h>
#include <setjmp.h>
#include <signal.h>
#include <stdlib.h>
jmp_buf env; sigjmp_buf senv; volatile sig_atomic_t got; void deep(int);
static void on(int s) { got = s; siglongjmp(senv, s); }
int main(void) { int r = setjmp(env); printf("r %d\n", r); if (r < 3) deep(r);
  signal(SIGUSR1, on); if (!sigsetjmp(senv, 1)) { raise(SIGUSR1); puts("never"); }
  printf("%d\n", got == SIGUSR1); return 5; }
''', 'b.c': r'''
#include <setjmp.h>
extern jmp_buf env;
void deep(int n) { if (n < 5) deep(n + 1); longjmp(env, n - 3 > 0 ? 3 : 1); }
'''})

item('threads', {'a.c': r'''
#include <stdio.h>
#include <pthread.h>
#include <errno.h>
void *work(void *); extern long total; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static pthread_key_t k; static pthread_once_t o = PTHREAD_ONCE_INIT; static int ends;
static void gone(void *p) { ++ends; } static void init(void) { pthread_key_create(&k, gone); }
static void *th(void *p) { pthread_once(&o, init); pthread_setspecific(k, p); errno = 3; return work(p); }
int main(void) { pthread_t t[8]; long r = 0; for (long i = 0; i < 8; ++i) pthread_create(t + i, NULL, th, (void *) i);
  for (int i = 0; i < 8; ++i) { void *v; pthread_join(t[i], &v); r += (long) v; }
  printf("%ld %ld %d\n", total, r, ends); return errno == 3; }
''', 'b.c': r'''
#include <pthread.h>
long total; extern pthread_mutex_t m;
void *work(void *p) { for (int i = 0; i < 1000; ++i) { pthread_mutex_lock(&m); total += (long) p; pthread_mutex_unlock(&m); } return p; }
'''}, flags=['-pthread'])

item('own allocator', {'a.c': r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern int allocations; char *from_lib(const char *);
int main(void) { int a = allocations; char *p = strdup("duplicated"); puts(p); printf("%d\n", allocations - a);
  a = allocations; p = from_lib("library"); puts(p); printf("%d\n", allocations - a); free(p); return 0; }
''', 'b.c': r'''
#include <stddef.h>
#include <string.h>
static char heap[1 << 20] __attribute__((aligned(16))); static size_t used; int allocations;
void *malloc(size_t n) { void *p = heap + used; ++allocations; used += (n + 31) & ~15ul; *(size_t *) p = n; return (char *) p + 16; }
void free(void *p) {}
void *calloc(size_t a, size_t b) { return malloc(a * b); }
void *realloc(void *p, size_t n) { void *q = malloc(n); if (p) memcpy(q, p, n); return q; }
''', 'lib1.c': r'''
#include <stdlib.h>
#include <string.h>
char *from_lib(const char *s) { char *p = malloc(strlen(s) + 1); return strcpy(p, s); }
'''})

item('main in a library', {'lib1.c': r'''
#include <stdio.h>
int helper_in_program(int) __attribute__((weak));
int main(int c, char **v) { printf("main of the library %d %d\n", c, helper_in_program ? helper_in_program(3) : -1); return 9; }
''', 'a.c': 'int helper_in_program(int a) { return a * 11; }\n'})

item('main in an archive', {'ar1.c': r'''
#include <stdio.h>
extern int other; int main(void) { printf("main of the archive %d\n", other); return 8; }
''', 'ar2.c': 'int other = 12; int unused_(void) { return other; }\n',
    'ar3.c': 'extern int nowhere; int never(void) { return nowhere; }\n', 'a.c': 'int a_object = 3;\n'})

item('nested functions', {'a.c': r'''
#include <stdio.h>
int apply(int (*)(int), int);
int main(int c, char **v) { int k = c * 3; int n(int x) { return x + k++; }
  printf("%d\n", apply(n, 4)); printf("%d %d\n", apply(n, 5), k); return 0; }
''', 'b.c': 'int apply(int (*f)(int), int x) { return f(x) * 2 + f(1); }\n'})

item('large arrays', {'a.c': r'''
#include <stdio.h>
char big[9 << 20]; int init[1 << 16] = {1, 2, 3, [65535] = 4}; extern long far_[]; extern char big2[];
static int zero[100000]; long sum(void);
int main(void) { big[8 << 20] = 3; big2[5] = 7; long s = 0; for (int i = 0; i < 1 << 16; ++i) s += init[i];
  for (int i = 0; i < 100000; ++i) s += zero[i]; for (unsigned i = 0; i < sizeof big; i += 4096) s += big[i];
  printf("%ld %ld %ld\n", s, far_[4000], sum()); return 0; }
''', 'b.c': r'''
long far_[5000] = {[4000] = 99}; char big2[3 << 20]; 
long sum(void) { long s = 0; for (int i = 0; i < 3 << 20; ++i) s += big2[i]; return s; }
'''})

for n, f in (('large', '-mcmodel=large'), ('medium', '-mcmodel=medium')):
    item('arrays beyond reach, %s model' % n, {'a.c': r'''
#include <stdio.h>
char a[3UL << 30]; static long after = 5; long z[4]; extern char b[1 << 20], *q; extern long *far_;
long *p = &after; char *s = b + 77; long f(long); struct { long a, b; } *both[2];
int main(void) { a[0] = 1; *q = 2; b[5] = 3; z[1] = f(6); printf("%d %d %d %ld %ld\n", a[0], a[(3UL << 30) - 1], b[5], *p, z[1]);
  printf("%d %d %d\n", q - a == (3UL << 30) - 1, (int) (s - b), far_ == z + 2); *far_ = 8; fprintf(stdout, "%ld %d\n", z[2], s[0]); return 0; }
''', 'b.c': r'''
char b[1 << 20]; extern char a[]; extern long z[]; char *q = a + (3UL << 30) - 1; long *far_ = z + 2; static long t[1 << 19];
long f(long x) { t[x] = x; z[3] = 4; return t[x] + z[3] + b[5] + a[7]; }
'''}, flags=[f, '-fno-pic', '-mindirect-branch=keep', '-fno-common'])

item('floating point and vectors', {'a.c': r'''
#include <stdio.h>
#include <complex.h>
typedef float v4 __attribute__((vector_size(16))); v4 mul(v4, v4); extern const double tab[];
double complex rot(double complex);
int main(void) { v4 a = {1, 2, 3, 4}, b = {5, 6, 7, 8}, c = mul(a, b); printf("%g %g %g %g\n", c[0], c[1], c[2], c[3]);
  double s = 0; for (int i = 0; i < 64; ++i) s = s * 0.5 + tab[i & 3]; printf("%.12g\n", s);
  double complex z = rot(1 + 2 * I); printf("%g %g\n", creal(z), cimag(z)); long double l = 1.25L; printf("%Lg %d\n", l * 3, (int) (l * 8)); return 0; }
''', 'b.c': r'''
#include <complex.h>
typedef float v4 __attribute__((vector_size(16))); const double tab[4] = {1.5, -2.25, 1e10, 3e-5};
v4 mul(v4 a, v4 b) { return a * b + (v4) {.5f, .5f, .5f, .5f}; } double complex rot(double complex z) { return z * I; }
'''})

item('locale and wide characters', {'a.c': r'''
#include <stdio.h>
#include <wchar.h>
#include <locale.h>
#include <ctype.h>
#include <stdlib.h>
const wchar_t *greet(void);
int main(void) { setlocale(LC_ALL, "C.UTF-8"); printf("%zu %ls\n", wcslen(greet()), greet());
  for (const char *p = "aB3 _"; *p; ++p) printf("%d%d%d ", !!isalpha(*p), !!isdigit(*p), toupper(*p)); puts("");
  printf("%g %ld %d\n", strtod("12.5e3x", NULL), strtol("0x7f", NULL, 0), atoi("-12")); return 0; }
''', 'b.c': '#include <wchar.h>\nconst wchar_t *greet(void) { return L"gr\\u00fc\\u00df dich"; }\n'})

item('processes', {'a.c': r'''
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
#include <stdlib.h>
void child(char **);
int main(int c, char **v) { if (c == 2) { printf("child %s\n", v[1]); return 33; }
  fflush(stdout); pid_t p = fork(); if (!p) child(v); int s; waitpid(p, &s, 0); printf("%d %d\n", WIFEXITED(s), WEXITSTATUS(s)); 
  p = fork(); if (!p) _exit(4); waitpid(p, &s, 0); printf("%d\n", WEXITSTATUS(s)); exit(300); }
''', 'b.c': r'''
#include <unistd.h>
void child(char **v) { execl("/proc/self/exe", v[0], "again", NULL); _exit(99); }
'''})

item('exits', {'a.c': r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
static void one(void) { puts("one"); } static void two(void) { puts("two"); } void three(void);
static void quick(void) { puts("quick"); fflush(stdout); } static void on(int s, void *p) { printf("on_exit %d %s\n", s, (char *) p); }
int on_exit(void (*)(int, void *), void *);
static void prep(void) { puts("prepare"); }
int main(void) { atexit(one); atexit(two); atexit(three); on_exit(on, "arg"); at_quick_exit(quick); pthread_atfork(prep, NULL, NULL);
  fflush(stdout); if (!fork()) quick_exit(3); int s; extern int wait(int *); wait(&s); return 21; }
''', 'b.c': '#include <stdio.h>\nvoid three(void) { puts("three"); }\n__attribute__((destructor)) static void d(void) { puts("destructor"); }\n'})

item('dynamic loading', {'a.c': r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <dlfcn.h>
int called_back(int); int mine = 5; int lib_calls(int);
int called_back(int a) { return a + mine; }
int main(void) { void *h = dlopen(NULL, RTLD_NOW); int (*p)(int) = dlsym(h, "called_back"); printf("%d\n", p ? p(10) : -1);
  p = dlsym(RTLD_DEFAULT, "lib_calls"); printf("%d %d\n", p == lib_calls, p(7)); Dl_info i;
  printf("%d\n", dladdr((void *) puts, &i) != 0); int *m = dlsym(h, "mine"); printf("%d\n", m ? *m == mine : -1);
  printf("%d\n", dlsym(h, "nothing_of_that_name") == NULL); return 0; }
''', 'lib1.c': 'int called_back(int); extern int mine; int lib_calls(int a) { return called_back(a) * 2 + mine; }\n'})

item('many imports', {'a.c': '\n'.join(
    ['#include <stdio.h>'] + ['extern int f%d(int), o%d[2];' % (i, i) for i in range(400)] +
    ['int (*t[])(int) = {%s};' % ', '.join('f%d' % i for i in range(0, 400, 3)),
     'int main(void) { long s = 0;'] +
    ['s = s * 3 + f%d(%d) + o%d[%d];' % (i, i % 7, i, i % 2) for i in range(400)] +
    ['for (unsigned i = 0; i < sizeof t / sizeof *t; ++i) s = s * 5 + t[i](i);',
     'printf("%ld\\n", s); return 0; }']),
    'lib1.c': '\n'.join('int o%d[2] = {%d, %d}; int f%d(int a) { return a * %d + o%d[1]++; }' % (
        i, i * 3, i * 5 + 1, i, i + 2, i) for i in range(400))})

item('many objects', dict([('a.c', '\n'.join(
    ['#include <stdio.h>'] + ['int g%d(int); extern int v%d;' % (i, i) for i in range(40)] +
    ['int main(void) { long s = 0;'] + ['s = s * 3 + g%d(%d) + v%d;' % (i, i, i) for i in range(40)] +
    ['printf("%ld\\n", s); return 1; }']))] + [('u%d.c' % i, (
        'static int s = %d; static int f(int a) { return a + s++; } int v%d = %d; extern int v%d; '
        'int g%d(int a) { static const char n[] = "unit %d"; return f(a) + n[5] + v%d; }\n' % (
            i * 7, i, i * i, (i + 1) % 40, i, i, (i + 1) % 40))) for i in range(40)]))

item('weak references', {'a.c': r'''
#include <stdio.h>
extern int none(int) __attribute__((weak)), some(int) __attribute__((weak)), lib(int) __attribute__((weak));
extern int vnone __attribute__((weak)), vlib __attribute__((weak)), only_in_archive __attribute__((weak));
int (*t[])(int) = {none, some, lib}; int *v[] = {&vnone, &vlib, &only_in_archive}; int uses_lib(void);
int main(void) { for (int i = 0; i < 3; ++i) printf("%d %d %d\n", i, t[i] ? t[i](i) : -1, v[i] ? *v[i] : -1);
  printf("%d %d %d\n", none ? 1 : 0, some ? some(4) : 0, lib ? lib(4) : 0); printf("%d\n", uses_lib()); return &vnone != NULL; }
''', 'b.c': 'int some(int a) { return a + 100; }\n', 'ar1.c': 'int only_in_archive = 3;\n',
    'lib1.c': 'int lib(int a) { return a + 200; } int vlib = 17; int uses_lib(void) { return 1; }\n'},
    flags=['-fPIC'])

item('versioned function', {'a.c': r'''
#include <stdio.h>
#include <stdlib.h>
int main(void) { char *p = realpath("/", NULL); puts(p ? p : "nothing"); return 0; }
'''}, known=('symbol versions', 0, 'nothing\n'))

item('unwinding', {'a.c': r'''
#include <stdio.h>
#include <pthread.h>
static void gone(int *p) { printf("cleanup %d\n", *p); }
static void *th(void *a) { int x __attribute__((cleanup(gone))) = 5; pthread_exit(&x); }
int main(void) { pthread_t t; pthread_create(&t, NULL, th, NULL); pthread_join(t, NULL); puts("done"); return 0; }
'''}, flags=['-fexceptions', '-fasynchronous-unwind-tables'])

item('system calls only', {'s.s': r'''
.text
.globl _start
_start: mov $1, %eax
 mov $1, %edi
 lea msg(%rip), %rsi
 mov $len, %edx
 syscall
 mov code@GOTPCREL(%rip), %rdi
 mov (%rdi), %edi
 call leave@PLT
.section .rodata
msg: .ascii "no library\n"
.set len, .-msg
.section .note.GNU-stack,"",@progbits
''', 't.s': r'''
.globl leave
.type leave, @function
leave: mov $60, %eax
 syscall
.data
.globl code
code: .long 77
.section .note.GNU-stack,"",@progbits
'''}, extra=['nolibc'])

item('sections of their own', {'a.c': r'''
#include <stdio.h>
#define T(n) __attribute__((section(".mine." #n), used))
T(a) static int x = 3; T(b) int y = 4; T(ro) const int z = 5; __attribute__((section(".mytext"))) int f(int a) { return a + x; }
__attribute__((section(".mybss,\"aw\",@nobits#"))) int b[100]; int g(int);
int main(void) { b[3] = 4; printf("%d %d %d %d %d %d\n", x, y, z, f(2), b[3] + b[4], g(3)); return 0; }
''', 'b.c': r'''
__attribute__((section(".mine.a"))) int x = 30; extern int y; __attribute__((section(".mytext"))) int g(int a) { return a * x + y; }
'''})

item('library that calls back into an archive', {'a.c': r'''
#include <stdio.h>
int lib_sum(int, int), lib2_f(int); extern int lib_total;
int main(void) { printf("%d\n", lib2_f(1)); for (int i = 0; i < 5; ++i) printf("%d ", lib_sum(i, 3)); printf("%d\n", lib_total); return 0; }
''', 'lib1.c': r'''
int cb(int); extern int cb_data[4]; extern void cb_weak(void) __attribute__((weak)); int lib_total; int lib2_f(int);
int lib_sum(int a, int b) { lib_total += a * b + (cb_weak ? 1000 : 0); return cb(a) + cb_data[b] + lib2_f(a); }
''', 'lib2.c': 'int cb2(void); int lib2_f(int a) { return a * cb2(); }\n',
    'ar1.c': 'int helper(int); int cb(int x) { return helper(x) * 7; }\n',
    'ar2.c': 'int calls; int helper(int x) { return x + ++calls; }\n',
    'ar3.c': 'int cb_data[4] = {1, 20, 300, 4000};\n',
    'ar4.c': '#include <stdio.h>\n__attribute__((constructor)) static void c(void) { puts("cb2 is there"); } int cb2(void) { return 50000; }\n',
    'ar5.c': '#include <stdio.h>\n__attribute__((constructor)) static void c(void) { puts("unwanted"); } void cb_weak(void) { }\n',
    'ar6.c': 'int nobody_has_this(void); int unwanted(void) { return nobody_has_this(); }\n'})

item('common blocks', {'a.c': r'''
#include <stdio.h>
int n; double d[3]; char c; int arr[10]; struct { int a[50]; } blk; void set(void); long long al;
int main(void) { set(); printf("%d %g %d %d %d %d\n", n, d[2], c, arr[9], blk.a[49], (int) ((unsigned long) &al % 8)); return 0; }
''', 'b.c': 'int n; double d[3]; char c; int arr[10]; struct { int a[50]; } blk; long long al;\nvoid set(void) { n = 1; d[2] = 2.5; c = 3; arr[9] = 4; blk.a[49] = 5; }\n',
    'c.c': 'int n = 7; char arr_[3];\n'}, flags=['-fcommon'])

item('old style initialisation', {'a.c': r'''
#include <stdio.h>
__asm__(".section .init,\"ax\",@progbits\n call early\n .section .fini,\"ax\",@progbits\n call late\n .text");
int order; void early(void) { order = order * 10 + 1; } void late(void) { printf("late\n"); fflush(stdout); }
__attribute__((constructor)) static void c(void) { order = order * 10 + 2; }
int main(void) { printf("%d\n", order); return 0; }
''', 'b.c': '__asm__(".section .init,\\"ax\\",@progbits\\n call early2\\n .text"); extern int order; void early2(void) { order = order * 10 + 3; }\n'})

item('computed tables', {'a.c': r'''
#include <stdio.h>
extern const char *const names[]; extern int (*const ops[])(int, int); extern const unsigned short diffs[];
const char **volatile end = 0; extern const char *const *last; extern char buf[]; char *mid = buf + 50;
struct n { struct n *next; int v; }; extern struct n n2, n3; struct n n1 = {&n2, 1}; struct n n3 = {&n1, 3};
int main(void) { for (const char *const *p = names; p != last; ++p) printf("%s ", *p); puts("");
  for (int i = 0; i < 4; ++i) printf("%d ", ops[i](17, 5)); puts(""); mid[-1] = 'q'; printf("%c\n", buf[49]);
  struct n *p = &n1; int s = 0; for (int i = 0; i < 7; ++i, p = p->next) s = s * 10 + p->v; printf("%d\n", s); return 0; }
''', 'b.c': r'''
static int add(int a, int b) { return a + b; } static int sub(int a, int b) { return a - b; }
static int mul(int a, int b) { return a * b; } static int mod(int a, int b) { return a % b; }
int (*const ops[])(int, int) = {add, sub, mul, mod}; const char *const names[] = {"alpha", "beta", "gamma", "beta" + 1};
const char *const *last = names + 4; char buf[100]; struct n { struct n *next; int v; }; extern struct n n3; struct n n2 = {&n3, 2};
'''})
