/*
 * Preloaded shim that counts file operations below a directory and ends the
 * process at a chosen one. It does nothing until armed.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[4096];
static size_t plen;
static long at = -1;      /* operation number to stop at, -1: only count */
static long seen;
static int torn;          /* write half of the data before stopping */
static int armed;

void crash_arm(const char *dir, long n, int half)
{
    strncpy(prefix, dir, sizeof prefix - 1);
    plen = strlen(prefix);
    at = n;
    torn = half;
    seen = 0;
    armed = 1;
}

long crash_disarm(void)
{
    armed = 0;
    return seen;
}

static int under(const char *p)
{
    char b[4096];
    if (!armed || p == NULL)
        return 0;
    if (p[0] != '/') {
        size_t n;
        if (getcwd(b, sizeof b - 1) == NULL)
            return 0;
        n = strlen(b);
        snprintf(b + n, sizeof b - n, "/%s", p);
        p = b;
    }
    return strncmp(p, prefix, plen) == 0;
}

static int fdunder(int fd)
{
    char l[64], b[4096];
    ssize_t n;
    if (!armed)
        return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, b, sizeof b - 1);
    if (n <= 0)
        return 0;
    b[n] = 0;
    return strncmp(b, prefix, plen) == 0;
}

static int tick(void)
{
    return seen++ == at;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (fdunder(fd) && tick()) {
        if (torn)
            real(fd, buf, n / 2);
        _exit(77);
    }
    return real(fd, buf, n);
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t o)
{
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    if (fdunder(fd) && tick()) {
        if (torn)
            real(fd, buf, n / 2, o);
        _exit(77);
    }
    return real(fd, buf, n, o);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (fdunder(fd) && tick()) {
        if (torn)
            real(fd, buf, n / 2, o);
        _exit(77);
    }
    return real(fd, buf, n, o);
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (fdunder(fd) && tick())
        _exit(77);
    return real(fd, v, c);
}

int ftruncate(int fd, off_t n)
{
    REAL(int, ftruncate, int, off_t);
    if (fdunder(fd) && tick())
        _exit(77);
    return real(fd, n);
}

int ftruncate64(int fd, off64_t n)
{
    REAL(int, ftruncate64, int, off64_t);
    if (fdunder(fd) && tick())
        _exit(77);
    return real(fd, n);
}

int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    if (under(b) && tick())
        _exit(77);
    return real(a, b);
}

int unlink(const char *a)
{
    REAL(int, unlink, const char *);
    if (under(a) && tick())
        _exit(77);
    return real(a);
}

#define WRITABLE(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))
#define OPENLIKE(name, DECL, CALL, PATH) \
int name DECL \
{ \
    mode_t m = 0; \
    static int (*real) DECL; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (WRITABLE(flags) && under(PATH) && tick()) \
        _exit(77); \
    return real CALL; \
}
OPENLIKE(open, (const char *path, int flags, ...), (path, flags, m), path)
OPENLIKE(open64, (const char *path, int flags, ...), (path, flags, m), path)
OPENLIKE(openat, (int d, const char *path, int flags, ...), (d, path, flags, m), path)
OPENLIKE(openat64, (int d, const char *path, int flags, ...), (d, path, flags, m), path)

FILE *fopen(const char *path, const char *mode)
{
    REAL(FILE *, fopen, const char *, const char *);
    if (mode[0] != 'r' && under(path) && tick())
        _exit(77);
    return real(path, mode);
}

FILE *fopen64(const char *path, const char *mode)
{
    REAL(FILE *, fopen64, const char *, const char *);
    if (mode[0] != 'r' && under(path) && tick())
        _exit(77);
    return real(path, mode);
}
