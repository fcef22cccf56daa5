/* Fault injector: counts the file operations below one directory and ends the process just before (or in the middle of) the n-th.
 * Loaded with LD_PRELOAD; controlled through the cfs_* functions. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXOPS 20000
static char dir_[PATH_MAX];
static size_t dirlen_;
static int armed_;
static long crash_at_ = -1, torn_ = -1, n_;
static char kind_[MAXOPS];
static long len_[MAXOPS];
static char name_[MAXOPS][48];

void cfs_arm(const char *dir, long crash_at, long torn) {
    strncpy(dir_, dir, sizeof dir_ - 1);
    dirlen_ = strlen(dir_);
    crash_at_ = crash_at; torn_ = torn; n_ = 0; armed_ = 1;
}
void cfs_disarm(void) { armed_ = 0; }
long cfs_count(void) { return n_; }
char cfs_kind(long i) { return kind_[i]; }
long cfs_len(long i) { return len_[i]; }
const char *cfs_name(long i) { return name_[i]; }

static int under(const char *p) { return strncmp(p, dir_, dirlen_) == 0 && (p[dirlen_] == '/' || p[dirlen_] == 0); }
static int path_in(int at, const char *p, char *out) {
    if (!armed_ || !p) return 0;
    if (p[0] == '/') snprintf(out, PATH_MAX, "%s", p);
    else {
        char base[PATH_MAX], link[64];
        ssize_t r;
        if (at == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else { snprintf(link, sizeof link, "/proc/self/fd/%d", at); r = readlink(link, base, sizeof base - 1); if (r < 0) return 0; base[r] = 0; }
        if (snprintf(out, PATH_MAX, "%s/%s", base, p) >= PATH_MAX) return 0;
    }
    return under(out);
}
static int fd_in(int fd, char *out) {
    char link[64];
    ssize_t r;
    if (!armed_) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    r = readlink(link, out, PATH_MAX - 1);
    if (r < 0) return 0;
    out[r] = 0;
    return under(out);
}
/* returns the number of bytes to write before dying, or -1 to go on */
static long op(char kind, long len, const char *path) {
    long i = n_++;
    if (i < MAXOPS) {
        const char *b = strrchr(path, '/');
        kind_[i] = kind; len_[i] = len;
        snprintf(name_[i], sizeof name_[i], "%s", b ? b + 1 : path);
    }
    if (i == crash_at_) { if (torn_ <= 0) _exit(77); return torn_; }
    return -1;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

static void open_op(int at, const char *p, int flags) {
    char q[PATH_MAX]; struct stat st;
    if (!(flags & (O_CREAT | O_TRUNC)) || !path_in(at, p, q)) return;
    if (stat(q, &st) == 0 && !((flags & O_TRUNC) && st.st_size > 0)) return;  /* changes nothing */
    op((flags & O_TRUNC) && stat(q, &st) == 0 ? 't' : 'c', 0, q);
}
#define OPEN(fn) int fn(const char *p, int flags, ...) { mode_t m = 0; va_list a; REAL(int, fn, const char *, int, ...); \
    va_start(a, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); open_op(AT_FDCWD, p, flags); return real(p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(fn) int fn(int at, const char *p, int flags, ...) { mode_t m = 0; va_list a; REAL(int, fn, int, const char *, int, ...); \
    va_start(a, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); open_op(at, p, flags); return real(at, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void *b, size_t n) {
    char q[PATH_MAX]; long t; REAL(ssize_t, write, int, const void *, size_t);
    if (fd_in(fd, q) && (t = op('w', n, q)) >= 0) { real(fd, b, (size_t)t < n ? (size_t)t : n); _exit(77); }
    return real(fd, b, n);
}
#define PWRITE(fn) ssize_t fn(int fd, const void *b, size_t n, off_t o) { char q[PATH_MAX]; long t; REAL(ssize_t, fn, int, const void *, size_t, off_t); \
    if (fd_in(fd, q) && (t = op('p', n, q)) >= 0) { real(fd, b, (size_t)t < n ? (size_t)t : n, o); _exit(77); } return real(fd, b, n, o); }
PWRITE(pwrite)
PWRITE(pwrite64)
ssize_t writev(int fd, const struct iovec *v, int c) { char q[PATH_MAX]; REAL(ssize_t, writev, int, const struct iovec *, int); if (fd_in(fd, q)) op('v', 0, q); return real(fd, v, c); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { char q[PATH_MAX]; REAL(ssize_t, sendfile, int, int, off_t *, size_t); if (fd_in(o, q)) op('s', 0, q); return real(o, i, f, n); }
ssize_t sendfile64(int o, int i, off_t *f, size_t n) { char q[PATH_MAX]; REAL(ssize_t, sendfile64, int, int, off_t *, size_t); if (fd_in(o, q)) op('s', 0, q); return real(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { char q[PATH_MAX]; REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (fd_in(o, q)) op('s', 0, q); return real(i, a, o, b, n, f); }
int ftruncate(int fd, off_t n) { char q[PATH_MAX]; REAL(int, ftruncate, int, off_t); if (fd_in(fd, q)) op('t', 0, q); return real(fd, n); }
int ftruncate64(int fd, off_t n) { char q[PATH_MAX]; REAL(int, ftruncate64, int, off_t); if (fd_in(fd, q)) op('t', 0, q); return real(fd, n); }
int truncate(const char *p, off_t n) { char q[PATH_MAX]; REAL(int, truncate, const char *, off_t); if (path_in(AT_FDCWD, p, q)) op('t', 0, q); return real(p, n); }
int unlink(const char *p) { char q[PATH_MAX]; REAL(int, unlink, const char *); if (path_in(AT_FDCWD, p, q) && access(q, F_OK) == 0) op('u', 0, q); return real(p); }
int remove(const char *p) { char q[PATH_MAX]; REAL(int, remove, const char *); if (path_in(AT_FDCWD, p, q) && access(q, F_OK) == 0) op('u', 0, q); return real(p); }
int unlinkat(int at, const char *p, int f) { char q[PATH_MAX]; REAL(int, unlinkat, int, const char *, int); if (path_in(at, p, q) && access(q, F_OK) == 0) op('u', 0, q); return real(at, p, f); }
int rmdir(const char *p) { char q[PATH_MAX]; REAL(int, rmdir, const char *); if (path_in(AT_FDCWD, p, q)) op('d', 0, q); return real(p); }
int rename(const char *a, const char *b) { char q[PATH_MAX]; REAL(int, rename, const char *, const char *); if (path_in(AT_FDCWD, a, q) || path_in(AT_FDCWD, b, q)) op('r', 0, q); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { char q[PATH_MAX]; REAL(int, renameat, int, const char *, int, const char *); if (path_in(x, a, q) || path_in(y, b, q)) op('r', 0, q); return real(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { char q[PATH_MAX]; REAL(int, renameat2, int, const char *, int, const char *, unsigned); if (path_in(x, a, q) || path_in(y, b, q)) op('r', 0, q); return real(x, a, y, b, f); }
int link(const char *a, const char *b) { char q[PATH_MAX]; REAL(int, link, const char *, const char *); if (path_in(AT_FDCWD, b, q)) op('l', 0, q); return real(a, b); }
int symlink(const char *a, const char *b) { char q[PATH_MAX]; REAL(int, symlink, const char *, const char *); if (path_in(AT_FDCWD, b, q)) op('l', 0, q); return real(a, b); }
int mkdir(const char *p, mode_t m) { char q[PATH_MAX]; REAL(int, mkdir, const char *, mode_t); if (path_in(AT_FDCWD, p, q) && access(q, F_OK) != 0) op('m', 0, q); return real(p, m); }
int mkdirat(int at, const char *p, mode_t m) { char q[PATH_MAX]; REAL(int, mkdirat, int, const char *, mode_t); if (path_in(at, p, q) && access(q, F_OK) != 0) op('m', 0, q); return real(at, p, m); }
