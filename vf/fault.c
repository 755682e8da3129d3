/* Counts the file operations of a process and lets some of them fail.
   VF_LOG: where to note them; VF_FAULTS: "n:what,..." with what being an errno, "kill", "short1",
   "shorthalf" or "zero". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int events, log_fd = -2;
static char ours[1024];

/* What to do at this event: 0 nothing, > 0 an errno, < 0 something special. */
enum { SHORT1 = -1, SHORTHALF = -2, ZERO = -3 };

static int event(const char *op, const char *path, int fd)
{
    char buf[4400], link[64], target[4096] = "";
    int n = ++events;
    if (log_fd == -2) {
        const char *p = getenv("VF_LOG");
        log_fd = p ? syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666)
                   : -1;
    }
    if (!path && fd >= 0) {
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, link, target, sizeof target - 1);
        target[k > 0 ? k : 0] = 0;
    }
    if (log_fd >= 0) {
        int k = snprintf(buf, sizeof buf, "%d %s %s\n", n, op, path ? path : target);
        syscall(SYS_write, log_fd, buf, k < (int) sizeof buf ? k : (int) sizeof buf);
    }
    const char *f = getenv("VF_FAULTS");
    while (f && *f) {
        char *e;
        long at = strtol(f, &e, 10);
        if (*e == ':' && at == n) {
            e++;
            if (!strncmp(e, "kill", 4)) {
                syscall(SYS_kill, getpid(), SIGKILL);
                for (;;)
                    ;
            }
            if (!strncmp(e, "short1", 6))
                return SHORT1;
            if (!strncmp(e, "shorthalf", 9))
                return SHORTHALF;
            if (!strncmp(e, "zero", 4))
                return ZERO;
            return atoi(e);
        }
        f = strchr(f, ',');
        if (f)
            f++;
    }
    return 0;
}

static void note(int fd)
{
    if (fd >= 0 && fd < (int) sizeof ours)
        ours[fd] = 1;
}

static int is_ours(int fd)
{
    return fd > 2 && fd < (int) sizeof ours && ours[fd];
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) \
        real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)
#define FAIL(f) \
    if (f > 0) { \
        errno = f; \
        return -1; \
    }

#define OPEN(name) \
    int name(const char *path, int flags, ...) \
    { \
        REAL(name); \
        va_list ap; \
        va_start(ap, flags); \
        mode_t mode = va_arg(ap, mode_t); \
        va_end(ap); \
        int f = event(flags & (O_WRONLY | O_RDWR) ? "openw" : "openr", path, -1); \
        FAIL(f) \
        int fd = real(path, flags, mode); \
        note(fd); \
        return fd; \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
    int name(int dir, const char *path, int flags, ...) \
    { \
        REAL(name); \
        va_list ap; \
        va_start(ap, flags); \
        mode_t mode = va_arg(ap, mode_t); \
        va_end(ap); \
        int f = event(flags & (O_WRONLY | O_RDWR) ? "openw" : "openr", path, -1); \
        FAIL(f) \
        int fd = real(dir, path, flags, mode); \
        note(fd); \
        return fd; \
    }
OPENAT(openat)
OPENAT(openat64)

static size_t cut(int f, size_t n)
{
    return f == SHORT1 ? (n ? 1 : 0) : f == SHORTHALF ? (n + 1) / 2 : n;
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(read);
    if (!is_ours(fd))
        return real(fd, buf, n);
    int f = event("read", NULL, fd);
    FAIL(f)
    return real(fd, buf, cut(f, n));
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write);
    if (!is_ours(fd))
        return real(fd, buf, n);
    int f = event("write", NULL, fd);
    FAIL(f)
    if (f == ZERO)
        return 0;
    return real(fd, buf, cut(f, n));
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(writev);
    if (!is_ours(fd))
        return real(fd, v, n);
    int f = event("write", NULL, fd);
    FAIL(f)
    if (f == ZERO)
        return 0;
    if (f < 0 && n)
        return write(fd, v[0].iov_base, cut(f, v[0].iov_len));
    return real(fd, v, n);
}

#define PWRITE(name, off) \
    ssize_t name(int fd, const void *buf, size_t n, off at) \
    { \
        REAL(name); \
        if (!is_ours(fd)) \
            return real(fd, buf, n, at); \
        int f = event("write", NULL, fd); \
        FAIL(f) \
        if (f == ZERO) \
            return 0; \
        return real(fd, buf, cut(f, n), at); \
    }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

int fchmod(int fd, mode_t m)
{
    REAL(fchmod);
    int f = event("chmod", NULL, fd);
    FAIL(f)
    return real(fd, m);
}

int chmod(const char *p, mode_t m)
{
    REAL(chmod);
    int f = event("chmod", p, -1);
    FAIL(f)
    return real(p, m);
}

int ftruncate64(int fd, off64_t n)
{
    REAL(ftruncate64);
    int f = event("truncate", NULL, fd);
    FAIL(f)
    return real(fd, n);
}

int fsync(int fd)
{
    REAL(fsync);
    int f = event("sync", NULL, fd);
    FAIL(f)
    return real(fd);
}

int fdatasync(int fd)
{
    REAL(fdatasync);
    int f = event("sync", NULL, fd);
    FAIL(f)
    return real(fd);
}

int rename(const char *a, const char *b)
{
    REAL(rename);
    int f = event("rename", a, -1);
    FAIL(f)
    return real(a, b);
}

int unlink(const char *p)
{
    REAL(unlink);
    int f = event("unlink", p, -1);
    FAIL(f)
    return real(p);
}

int statx(int dir, const char *restrict p, int flags, unsigned mask, struct statx *restrict st)
{
    REAL(statx);
    const char *volatile q = p;
    if (!q)
        /* is there such a call? */
        return syscall(SYS_statx, dir, p, flags, mask, st);
    int f = event("stat", *p ? p : NULL, dir);
    FAIL(f)
    return real(dir, p, flags, mask, st);
}

char *realpath(const char *restrict p, char *restrict out)
{
    REAL(realpath);
    int f = event("realpath", p, -1);
    if (f > 0) {
        errno = f;
        return NULL;
    }
    return real(p, out);
}
