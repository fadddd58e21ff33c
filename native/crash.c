/* Counts the system calls of this process that change files, and at a chosen one kills the process (before it, or
 * after half of a write) or makes it fail.  Loaded with LD_PRELOAD; does nothing until armed.  */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static volatile long counting, count, target, mode, fail_errno;   /* mode 0 count, 1 kill, 2 kill half way, 3 fail */

void vf_arm(long n, long m, long err) { count = 0; target = n; mode = m; fail_errno = err; counting = 1; }
void vf_off(void) { counting = 0; }
long vf_count(void) { return count; }

static void die(void) { for (;;) syscall(SYS_exit_group, 137); }

/* 0: go on, 1: fail with errno set, 2: do half, then die */
static int hit(void)
{
    if (!counting) return 0;
    long c = __sync_add_and_fetch(&count, 1);
    if (mode == 0 || c != target) return 0;
    if (mode == 1) die();
    if (mode == 2) return 2;
    if (mode == 3) { errno = (int)fail_errno; return 1; }
    return 0;
}

static int plain_hit(void)
{
    int h = hit();
    if (h == 2) die();
    return h;
}

static int is_file(int fd)
{
    struct stat st;
    return counting && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

/* ---------------------------------------------------------------- writes */
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (is_file(fd)) { int h = hit(); if (h == 1) return -1; if (h == 2) { real(fd, b, n / 2); die(); } }
    return real(fd, b, n);
}
#define PW(name) ssize_t name(int fd, const void *b, size_t n, off_t o) { \
    REAL(ssize_t, #name, int, const void *, size_t, off_t); \
    if (is_file(fd)) { int h = hit(); if (h == 1) return -1; if (h == 2) { real(fd, b, n / 2, o); die(); } } \
    return real(fd, b, n, o); }
PW(pwrite)
PW(pwrite64)
#define SF(name) ssize_t name(int o, int i, off_t *off, size_t n) { \
    REAL(ssize_t, #name, int, int, off_t *, size_t); \
    if (is_file(o)) { int h = hit(); if (h == 1) return -1; if (h == 2) { struct stat st; fstat(i, &st); real(o, i, off, st.st_size / 2); die(); } } \
    return real(o, i, off, n); }
SF(sendfile)
SF(sendfile64)
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f)
{
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (is_file(o)) { int h = hit(); if (h == 1) return -1; if (h == 2) { real(i, oi, o, oo, n / 2, f); die(); } }
    return real(i, oi, o, oo, n, f);
}
#define FT(name) int name(int fd, off_t n) { \
    REAL(int, #name, int, off_t); if (is_file(fd) && plain_hit()) return -1; return real(fd, n); }
FT(ftruncate)
FT(ftruncate64)

/* ---------------------------------------------------------------- open */
static int creates(int dfd, const char *p, int flags)
{
    struct stat st;
    if (!counting || !(flags & (O_CREAT | O_TRUNC))) return 0;
    if (fstatat(dfd, p, &st, 0) != 0) return flags & O_CREAT;
    return S_ISREG(st.st_mode) && (flags & O_TRUNC) && st.st_size > 0;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
#define OP(name) int name(const char *p, int flags, ...) { MODE \
    REAL(int, #name, const char *, int, ...); if (creates(AT_FDCWD, p, flags) && plain_hit()) return -1; return real(p, flags, m); }
OP(open)
OP(open64)
#define OPA(name) int name(int d, const char *p, int flags, ...) { MODE \
    REAL(int, #name, int, const char *, int, ...); if (creates(d, p, flags) && plain_hit()) return -1; return real(d, p, flags, m); }
OPA(openat)
OPA(openat64)

/* ---------------------------------------------------------------- names */
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if (plain_hit()) return -1; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); if (plain_hit()) return -1; return real(x, a, y, b); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if (plain_hit()) return -1; return real(a, b); }
int unlink(const char *a) { REAL(int, "unlink", const char *); if (plain_hit()) return -1; return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int); if (plain_hit()) return -1; return real(d, a, f); }
int rmdir(const char *a) { REAL(int, "rmdir", const char *); if (plain_hit()) return -1; return real(a); }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", const char *, mode_t); if (plain_hit()) return -1; return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); if (plain_hit()) return -1; return real(d, a, m); }
