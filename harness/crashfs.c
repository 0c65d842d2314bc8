/* Preloaded library: counts the operations that change files below one directory and makes the k-th of them
   crash the process (optionally after a part of a write) or fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static char root[PATH_MAX];
static int armed, count, mode, target, err, nlog;
static long part;
static char tracked[4096];
static char oplog[64][64];
enum { NONE, CRASH, TORN, FAIL, SHORT, FAILALL };
#define REAL(t, n) static t (*real_##n)(); if (!real_##n) real_##n = (t(*)())dlsym(RTLD_NEXT, #n)
void crashfs_root(const char* r) { snprintf(root, sizeof root, "%s", r); }
void crashfs_arm(int m, int k, long p, int e) { mode = m, target = k, part = p, err = e, count = 0, nlog = 0, armed = 1; }
int crashfs_disarm(void) { armed = 0; return count; }
const char* crashfs_op(int i) { return i < nlog && i < 64 ? oplog[i] : ""; }
static int inside(const char* p)
{
    char b[PATH_MAX];
    if (!p || !root[0])
        return 0;
    if (p[0] != '/') {
        if (!getcwd(b, sizeof b))
            return 0;
        return !strncmp(b, root, strlen(root));
    }
    return !strncmp(p, root, strlen(root));
}
/* 0: go on, 1: fail with errno, 2: this is the write to be cut */
static int step(const char* what, int writing)
{
    if (!armed)
        return 0;
    int k = count++;
    if (nlog < 64)
        snprintf(oplog[nlog++], 64, "%s", what);
    if (mode == FAILALL && k >= target) {
        errno = err;
        return 1;
    }
    if (k == target) {
        if (mode == CRASH)
            _exit(77);
        if (mode == FAIL) {
            errno = err;
            return 1;
        }
        if ((mode == TORN || mode == SHORT) && writing)
            return 2;
        if (mode == TORN)
            _exit(77);
    }
    return 0;
}
static int opened(int fd, const char* p, int flags)
{
    if (fd >= 0 && fd < (int)sizeof tracked)
        tracked[fd] = (flags & O_ACCMODE) != O_RDONLY && inside(p);
    return fd;
}
#define OPEN(name)                                                                   \
    int name(const char* p, int flags, ...)                                          \
    {                                                                                \
        REAL(int, name);                                                             \
        va_list a;                                                                   \
        va_start(a, flags);                                                          \
        mode_t m = va_arg(a, int);                                                   \
        va_end(a);                                                                   \
        if ((flags & (O_ACCMODE | O_CREAT | O_TRUNC)) && inside(p) && step("open", 0)) \
            return -1;                                                               \
        return opened(real_##name(p, flags, m), p, flags);                           \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                                 \
    int name(int d, const char* p, int flags, ...)                                   \
    {                                                                                \
        REAL(int, name);                                                             \
        va_list a;                                                                   \
        va_start(a, flags);                                                          \
        mode_t m = va_arg(a, int);                                                   \
        va_end(a);                                                                   \
        if ((flags & (O_ACCMODE | O_CREAT | O_TRUNC)) && inside(p) && step("open", 0)) \
            return -1;                                                               \
        return opened(real_##name(d, p, flags, m), p, flags);                        \
    }
OPENAT(openat)
OPENAT(openat64)
static int is(int fd) { return fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
ssize_t write(int fd, const void* b, size_t n)
{
    REAL(ssize_t, write);
    if (is(fd)) {
        int s = step("write", 1);
        if (s == 1)
            return -1;
        if (s == 2) {
            size_t j = part >= 0 ? (size_t)part : n - (size_t)(-part);
            if (part == 1000000)
                j = n / 2;
            if (j > n)
                j = n;
            ssize_t r = j ? real_write(fd, b, j) : 0;
            if (mode == TORN)
                _exit(77);
            if (r > 0)
                return r;
            errno = ENOSPC;
            return -1;
        }
    }
    return real_write(fd, b, n);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
    REAL(ssize_t, pwrite64);
    if (is(fd) && step("write", 0))
        return -1;
    return real_pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    REAL(ssize_t, writev);
    if (is(fd) && step("write", 0))
        return -1;
    return real_writev(fd, v, n);
}
int close(int fd)
{
    REAL(int, close);
    if (is(fd)) {
        tracked[fd] = 0;
        if (step("close", 0)) {
            real_close(fd);
            return -1;
        }
    }
    return real_close(fd);
}
int rename(const char* a, const char* b)
{
    REAL(int, rename);
    if ((inside(a) || inside(b)) && step("rename", 0))
        return -1;
    return real_rename(a, b);
}
int renameat(int x, const char* a, int y, const char* b)
{
    REAL(int, renameat);
    if ((inside(a) || inside(b)) && step("rename", 0))
        return -1;
    return real_renameat(x, a, y, b);
}
int unlink(const char* a)
{
    REAL(int, unlink);
    if (inside(a) && step("unlink", 0))
        return -1;
    return real_unlink(a);
}
int unlinkat(int d, const char* a, int f)
{
    REAL(int, unlinkat);
    if (inside(a) && step("unlink", 0))
        return -1;
    return real_unlinkat(d, a, f);
}
int link(const char* a, const char* b)
{
    REAL(int, link);
    if (inside(b) && step("link", 0))
        return -1;
    return real_link(a, b);
}
int ftruncate64(int fd, off64_t n)
{
    REAL(int, ftruncate64);
    if (is(fd) && step("truncate", 0))
        return -1;
    return real_ftruncate64(fd, n);
}
int ftruncate(int fd, off_t n)
{
    REAL(int, ftruncate);
    if (is(fd) && step("truncate", 0))
        return -1;
    return real_ftruncate(fd, n);
}
int truncate64(const char* p, off64_t n)
{
    REAL(int, truncate64);
    if (inside(p) && step("truncate", 0))
        return -1;
    return real_truncate64(p, n);
}
int fsync(int fd)
{
    REAL(int, fsync);
    if (is(fd) && step("fsync", 0))
        return -1;
    return real_fsync(fd);
}
int fdatasync(int fd)
{
    REAL(int, fdatasync);
    if (is(fd) && step("fsync", 0))
        return -1;
    return real_fdatasync(fd);
}
ssize_t sendfile64(int o, int i, off64_t* f, size_t n) { errno = EINVAL; return -1; }
ssize_t sendfile(int o, int i, off_t* f, size_t n) { errno = EINVAL; return -1; }
ssize_t copy_file_range(int i, off64_t* a, int o, off64_t* b, size_t n, unsigned f) { errno = EXDEV; return -1; }
