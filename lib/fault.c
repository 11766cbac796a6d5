/* Faults in what a process does to files below a directory: fault_arm(prefix, k, mode), then the k-th such operation is
 * 1 not done, 2 done half (writes only), 3 done, with the process ending there as if killed (status 77);
 * 4 done half (writes only), failing with ENOSPC like all later ones which need space; 5 done, with SIGINT sent to the process; 6 failing with EIO, once.
 * Below also means: with a name which begins with the prefix, if that ends with *.  fault_end: what to call instead of ending.
 * Mode 0 only counts.  The counter is in shared memory of the caller's. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static int mode = -1, full; static long at; static long *count; static char pre[PATH_MAX];
void fault_arm(const char *prefix, long k, int m, long *counter) { snprintf(pre, sizeof pre, "%s", prefix); at = k; count = counter; full = 0; mode = m; }
static int below(const char *p) { size_t n = strlen(pre); if (n && pre[n - 1] == '*') return !strncmp(p, pre, n - 1); return !strncmp(p, pre, n) && (!p[n] || p[n] == '/'); }
static int fd_below(int fd) {
    char l[64], b[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n < 0) return 0;
    b[n] = 0; return below(b);
}
static int path_below(int dir, const char *p) {
    char l[64], b[PATH_MAX], j[2 * PATH_MAX];
    if (!p) return 0;
    if (*p == '/') return below(p);
    if (dir == AT_FDCWD) { if (!getcwd(b, sizeof b)) return 0; }
    else { snprintf(l, sizeof l, "/proc/self/fd/%d", dir); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return 0; b[n] = 0; }
    snprintf(j, sizeof j, "%s/%s", b, p); return below(j);
}
static void (*end)(void);
void fault_end(void (*f)(void)) { end = f; }
static void die(void) { mode = -1; if (end) end(); syscall(SYS_exit_group, 77); }
#define DIE die()
/* What to do: 0 go on, 1 fail with errno, 2 half and fail, 3 half and die, 4 done and die */
static int due(int space) {
    if (full && space) { errno = ENOSPC; return 1; }
    if (++*count != at || !mode) return 0;
    switch (mode) {
    case 1: DIE;
    case 2: return 3;
    case 3: return 4;
    case 4: full = 1; if (!space) return 0; errno = ENOSPC; return 2;
    case 5: kill(getpid(), SIGINT); return 0;
    case 6: errno = EIO; return 1;
    }
    return 0;
}
#define REAL(ret, name, args) static ret (*f) args; if (!f) f = (ret (*) args)dlsym(RTLD_NEXT, #name)
/* an operation which is done whole or not at all */
#define WHOLE(ret, name, types, call, cond, space) { REAL(ret, name, types); if (mode < 0 || !(cond)) return f call; \
    int d = due(space); if (d == 1 || d == 2) return -1; if (d == 3) DIE; ret r = f call; if (d == 4) DIE; return r; }
#define MAKES(fl) (((fl) & (O_CREAT | O_TRUNC)) != 0 || ((fl) & __O_TMPFILE) == __O_TMPFILE)
#define MODE mode_t mo = 0; if (MAKES(fl)) { va_list a; va_start(a, fl); mo = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE WHOLE(int, open, (const char *, int, ...), (p, fl, mo), MAKES(fl) && path_below(AT_FDCWD, p), 1) }
int open64(const char *p, int fl, ...) { MODE WHOLE(int, open64, (const char *, int, ...), (p, fl, mo), MAKES(fl) && path_below(AT_FDCWD, p), 1) }
int openat(int dir, const char *p, int fl, ...) { MODE WHOLE(int, openat, (int, const char *, int, ...), (dir, p, fl, mo), MAKES(fl) && path_below(dir, p), 1) }
int openat64(int dir, const char *p, int fl, ...) { MODE WHOLE(int, openat64, (int, const char *, int, ...), (dir, p, fl, mo), MAKES(fl) && path_below(dir, p), 1) }
int mkdir(const char *p, mode_t m) WHOLE(int, mkdir, (const char *, mode_t), (p, m), path_below(AT_FDCWD, p), 1)
int mkdirat(int dir, const char *p, mode_t m) WHOLE(int, mkdirat, (int, const char *, mode_t), (dir, p, m), path_below(dir, p), 1)
int rename(const char *p, const char *q) WHOLE(int, rename, (const char *, const char *), (p, q), path_below(AT_FDCWD, q), 0)
int renameat(int d1, const char *p, int d2, const char *q) WHOLE(int, renameat, (int, const char *, int, const char *), (d1, p, d2, q), path_below(d2, q), 0)
int renameat2(int d1, const char *p, int d2, const char *q, unsigned int fl) WHOLE(int, renameat2, (int, const char *, int, const char *, unsigned int), (d1, p, d2, q, fl), path_below(d2, q), 0)
int link(const char *p, const char *q) WHOLE(int, link, (const char *, const char *), (p, q), path_below(AT_FDCWD, q), 1)
int linkat(int d1, const char *p, int d2, const char *q, int fl) WHOLE(int, linkat, (int, const char *, int, const char *, int), (d1, p, d2, q, fl), path_below(d2, q), 1)
int symlink(const char *p, const char *q) WHOLE(int, symlink, (const char *, const char *), (p, q), path_below(AT_FDCWD, q), 1)
int unlink(const char *p) WHOLE(int, unlink, (const char *), (p), path_below(AT_FDCWD, p), 0)
int unlinkat(int dir, const char *p, int fl) WHOLE(int, unlinkat, (int, const char *, int), (dir, p, fl), path_below(dir, p), 0)
int ftruncate(int fd, off_t n) WHOLE(int, ftruncate, (int, off_t), (fd, n), fd_below(fd), 0)
int ftruncate64(int fd, off64_t n) WHOLE(int, ftruncate64, (int, off64_t), (fd, n), fd_below(fd), 0)
/* writes may be done half; what fails then is the next one */
#define WRITES(ret, name, types, call, half) { REAL(ret, name, types); if (mode < 0 || !fd_below(fd)) return f call; \
    int d = due(1); if (d == 1) return -1; if (d == 2) { ret r = n / 2 ? f half : 0; if (r > 0) return r; errno = ENOSPC; return -1; } \
    if (d == 3) { if (n / 2) f half; DIE; } ret r = f call; if (d == 4) DIE; return r; }
ssize_t write(int fd, const void *b, size_t n) WRITES(ssize_t, write, (int, const void *, size_t), (fd, b, n), (fd, b, n / 2))
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) WRITES(ssize_t, pwrite, (int, const void *, size_t, off_t), (fd, b, n, o), (fd, b, n / 2, o))
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) WRITES(ssize_t, pwrite64, (int, const void *, size_t, off64_t), (fd, b, n, o), (fd, b, n / 2, o))
ssize_t sendfile(int fd, int in, off_t *o, size_t n) WRITES(ssize_t, sendfile, (int, int, off_t *, size_t), (fd, in, o, n), (fd, in, o, n / 2))
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) WRITES(ssize_t, sendfile64, (int, int, off64_t *, size_t), (fd, in, o, n), (fd, in, o, n / 2))
ssize_t writev(int fd, const struct iovec *v, int n) WRITES(ssize_t, writev, (int, const struct iovec *, int), (fd, v, n), (fd, v, n / 2))
ssize_t copy_file_range(int in, off64_t *i, int fd, off64_t *o, size_t n, unsigned int fl) WRITES(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned int), (in, i, fd, o, n, fl), (in, i, fd, o, n / 2, fl))
