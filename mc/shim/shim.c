/* Interposed file system calls.  While the calling thread is watched, every call on a path below the watched
 * directory, or on a descriptor opened from there, is announced on a socket and then does what the controller says:
 *   g        go on
 *   x        the process dies before the call
 *   e<n>     the call fails with errno n
 *   s<n>     (write) only the first n bytes are written, and the call says so
 *   t<n>     (write) the first n bytes are written, then the process dies
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int ctl = -1;
static char prefix[4096];
static size_t prefix_len;
static unsigned char ours[65536];
static __thread int watched;

void mcshim_begin(int fd, const char *dir)
{
    ctl = fd;
    snprintf(prefix, sizeof prefix, "%s", dir);
    prefix_len = strlen(prefix);
    memset(ours, 0, sizeof ours);
    watched = 1;
}

void mcshim_end(void) { watched = 0; }

#define REAL(name) ((__typeof__(&name))real(#name))

static void *real(const char *name)
{
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "shim: no %s\n", name); _exit(70); }
    return p;
}

static int below(const char *path)
{
    if (!watched || !path) return 0;
    if (path[0] != '/') return 0;
    return strncmp(path, prefix, prefix_len) == 0;
}

static int mine(int fd) { return watched && fd >= 0 && fd < 65536 && ours[fd]; }

/* returns 0: do the call; 1: fail with errno set; 2: short write of *n; 3: torn */
static int ask(const char *op, const char *a, const char *b, long size, long *n)
{
    char line[9000], cmd[32];
    int saved = errno, len, i;
    const char *base = a ? strrchr(a, '/') : 0, *base2 = b ? strrchr(b, '/') : 0;
    len = snprintf(line, sizeof line, "%s %ld %s %s\n", op, size, base ? base + 1 : "-", base2 ? base2 + 1 : "-");
    watched = 0;
    for (i = 0; i < len;) {
        ssize_t w = REAL(write)(ctl, line + i, len - i);
        if (w <= 0) _exit(71);
        i += w;
    }
    for (i = 0; i < 31;) {
        ssize_t r = REAL(read)(ctl, cmd + i, 1);
        if (r <= 0) _exit(72);
        if (cmd[i] == '\n') break;
        i++;
    }
    cmd[i] = 0;
    watched = 1;
    errno = saved;
    switch (cmd[0]) {
    case 'g': return 0;
    case 'x': _exit(77);
    case 'e': errno = atoi(cmd + 1); return 1;
    case 's': *n = atol(cmd + 1); return 2;
    case 't': *n = atol(cmd + 1); return 3;
    }
    _exit(73);
}

static int opened(int fd)
{
    if (fd >= 0 && fd < 65536) ours[fd] = 1;
    return fd;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

static const char *kind(int flags)
{
    if ((flags & O_ACCMODE) == O_RDONLY) return "open";
    return flags & O_TRUNC ? "open-truncate" : flags & O_EXCL ? "open-new" : "open-write";
}

int open(const char *path, int flags, ...)
{
    MODE(flags)
    if (!below(path)) return REAL(open)(path, flags, mode);
    if (ask(kind(flags), path, 0, 0, 0)) return -1;
    return opened(REAL(open)(path, flags, mode));
}

int open64(const char *path, int flags, ...)
{
    MODE(flags)
    if (!below(path)) return REAL(open64)(path, flags, mode);
    if (ask(kind(flags), path, 0, 0, 0)) return -1;
    return opened(REAL(open64)(path, flags, mode));
}

int openat(int d, const char *path, int flags, ...)
{
    MODE(flags)
    if (!below(path)) return REAL(openat)(d, path, flags, mode);
    if (ask(kind(flags), path, 0, 0, 0)) return -1;
    return opened(REAL(openat)(d, path, flags, mode));
}

int openat64(int d, const char *path, int flags, ...)
{
    MODE(flags)
    if (!below(path)) return REAL(openat64)(d, path, flags, mode);
    if (ask(kind(flags), path, 0, 0, 0)) return -1;
    return opened(REAL(openat64)(d, path, flags, mode));
}

int close(int fd)
{
    if (mine(fd)) {
        int r = ask("close", 0, 0, 0, 0);
        ours[fd] = 0;
        if (r) { int e = errno; REAL(close)(fd); errno = e; return -1; }
    }
    return REAL(close)(fd);
}

ssize_t write(int fd, const void *buf, size_t count)
{
    long n = 0;
    if (!mine(fd)) return REAL(write)(fd, buf, count);
    switch (ask("write", 0, 0, count, &n)) {
    case 1: return -1;
    case 2: return REAL(write)(fd, buf, n);
    case 3: if (n) REAL(write)(fd, buf, n); _exit(77);
    }
    return REAL(write)(fd, buf, count);
}

ssize_t pwrite64(int fd, const void *buf, size_t count, off64_t off)
{
    long n = 0;
    if (!mine(fd)) return REAL(pwrite64)(fd, buf, count, off);
    switch (ask("write", 0, 0, count, &n)) {
    case 1: return -1;
    case 2: return REAL(pwrite64)(fd, buf, n, off);
    case 3: if (n) REAL(pwrite64)(fd, buf, n, off); _exit(77);
    }
    return REAL(pwrite64)(fd, buf, count, off);
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t count)
{
    long n = 0;
    if (!mine(out)) return REAL(sendfile64)(out, in, off, count);
    switch (ask("sendfile", 0, 0, count, &n)) {
    case 1: return -1;
    case 2: return REAL(sendfile64)(out, in, off, n);
    case 3: if (n) REAL(sendfile64)(out, in, off, n); _exit(77);
    }
    return REAL(sendfile64)(out, in, off, count);
}

ssize_t read(int fd, void *buf, size_t count)
{
    if (mine(fd) && ask("read", 0, 0, count, 0)) return -1;
    return REAL(read)(fd, buf, count);
}

/* The scratch directory is a file system of its own, as the directory of a cache may be. */
static int inside(const char *path)
{
    const char *root = getenv("MC_SHIM_DIR");
    return root && path && path[0] == '/' && strncmp(path, root, strlen(root)) == 0;
}

static int other_device(const char *a, const char *b)
{
    if (inside(a) == inside(b)) return 0;
    errno = EXDEV;
    return 1;
}

#define TWO(ret, name, proto, args, op, a, b) \
    ret name proto { \
        if ((below(a) || below(b)) && ask(op, a, b, 0, 0)) return -1; \
        if (a[0] == '/' && b[0] == '/' && other_device(a, b)) return -1; \
        return REAL(name) args; }

#define ONE(ret, name, proto, args, cond, op, a, b) \
    ret name proto { if ((cond) && ask(op, a, b, 0, 0)) return -1; return REAL(name) args; }

TWO(int, rename, (const char *a, const char *b), (a, b), "rename", a, b)
TWO(int, renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), "rename", a, b)
TWO(int, link, (const char *a, const char *b), (a, b), "link", a, b)
TWO(int, linkat, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f), "link", a, b)
ONE(int, symlink, (const char *a, const char *b), (a, b), below(b), "symlink", a, b)
ONE(int, unlink, (const char *a), (a), below(a), "unlink", a, 0)
ONE(int, unlinkat, (int d, const char *a, int f), (d, a, f), below(a), "unlink", a, 0)
ONE(int, rmdir, (const char *a), (a), below(a), "rmdir", a, 0)
ONE(int, mkdir, (const char *a, mode_t m), (a, m), below(a), "mkdir", a, 0)
ONE(int, mkdirat, (int d, const char *a, mode_t m), (d, a, m), below(a), "mkdir", a, 0)
ONE(int, access, (const char *a, int m), (a, m), below(a), "stat", a, 0)
ONE(int, faccessat, (int d, const char *a, int m, int f), (d, a, m, f), below(a), "stat", a, 0)
ONE(int, stat64, (const char *a, struct stat64 *s), (a, s), below(a), "stat", a, 0)
ONE(int, lstat64, (const char *a, struct stat64 *s), (a, s), below(a), "stat", a, 0)
ONE(int, fstatat64, (int d, const char *a, struct stat64 *s, int f), (d, a, s, f), below(a), "stat", a, 0)
ONE(int, ftruncate64, (int fd, off64_t n), (fd, n), mine(fd), "truncate", 0, 0)
ONE(int, truncate64, (const char *a, off64_t n), (a, n), below(a), "truncate", a, 0)
ONE(int, fsync, (int fd), (fd), mine(fd), "fsync", 0, 0)
ONE(int, fdatasync, (int fd), (fd), mine(fd), "fsync", 0, 0)
ONE(int, chmod, (const char *a, mode_t m), (a, m), below(a), "chmod", a, 0)
ONE(int, fchmod, (int fd, mode_t m), (fd, m), mine(fd), "chmod", 0, 0)
