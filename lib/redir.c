/* Redirects the system-wide dsari directories below $REDIR_ROOT, so that programs which use them can be run harmlessly. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static const char *const P[] = {"/etc/dsari", "/var/lib/dsari", "/usr/local/etc/dsari", "/usr/local/lib/dsari", "/root/.dsari"};
static __thread char B[2][8192];
static const char *m(const char *p, int k) {
    const char *r = getenv("REDIR_ROOT");
    if (!p || !r) return p;
    for (unsigned i = 0; i < sizeof P / sizeof *P; i++) {
        size_t n = strlen(P[i]);
        if (!strncmp(p, P[i], n) && (p[n] == 0 || p[n] == '/')) { snprintf(B[k], sizeof B[k], "%s%s", r, p); return B[k]; }
    }
    return p;
}
#define REAL(ret, name, args) static ret (*f) args; if (!f) f = (ret (*) args)dlsym(RTLD_NEXT, #name)
#define OPENF(name) int name(const char *p, int fl, ...) { mode_t mo = 0; va_list a; va_start(a, fl); if (fl & (O_CREAT | __O_TMPFILE)) mo = va_arg(a, mode_t); va_end(a); \
    REAL(int, name, (const char *, int, ...)); return f(m(p, 0), fl, mo); }
OPENF(open) OPENF(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { mode_t mo = 0; va_list a; va_start(a, fl); if (fl & (O_CREAT | __O_TMPFILE)) mo = va_arg(a, mode_t); va_end(a); \
    REAL(int, name, (int, const char *, int, ...)); return f(d, m(p, 0), fl, mo); }
OPENAT(openat) OPENAT(openat64)
#define ST(name, T) int name(const char *p, T *s) { REAL(int, name, (const char *, T *)); return f(m(p, 0), s); }
ST(stat, struct stat) ST(lstat, struct stat) ST(stat64, struct stat64) ST(lstat64, struct stat64)
#define STAT_AT(name, T) int name(int d, const char *p, T *s, int fl) { REAL(int, name, (int, const char *, T *, int)); return f(d, m(p, 0), s, fl); }
STAT_AT(fstatat, struct stat) STAT_AT(fstatat64, struct stat64)
int statx(int d, const char *p, int fl, unsigned int mask, struct statx *s) { REAL(int, statx, (int, const char *, int, unsigned int, struct statx *)); return f(d, m(p, 0), fl, mask, s); }
FILE *fopen(const char *p, const char *o) { REAL(FILE *, fopen, (const char *, const char *)); return f(m(p, 0), o); }
FILE *fopen64(const char *p, const char *o) { REAL(FILE *, fopen64, (const char *, const char *)); return f(m(p, 0), o); }
DIR *opendir(const char *p) { REAL(DIR *, opendir, (const char *)); return f(m(p, 0)); }
#define ONE(name, T) int name(const char *p, T x) { REAL(int, name, (const char *, T)); return f(m(p, 0), x); }
ONE(access, int) ONE(mkdir, mode_t) ONE(chmod, mode_t) ONE(truncate, off_t)
int faccessat(int d, const char *p, int a, int b) { REAL(int, faccessat, (int, const char *, int, int)); return f(d, m(p, 0), a, b); }
int mkdirat(int d, const char *p, mode_t x) { REAL(int, mkdirat, (int, const char *, mode_t)); return f(d, m(p, 0), x); }
int unlinkat(int d, const char *p, int x) { REAL(int, unlinkat, (int, const char *, int)); return f(d, m(p, 0), x); }
#define ZERO(name) int name(const char *p) { REAL(int, name, (const char *)); return f(m(p, 0)); }
ZERO(unlink) ZERO(rmdir) ZERO(chdir)
#define TWO(name) int name(const char *p, const char *q) { REAL(int, name, (const char *, const char *)); return f(m(p, 0), m(q, 1)); }
TWO(rename) TWO(link) TWO(symlink)
int renameat(int d, const char *p, int e, const char *q) { REAL(int, renameat, (int, const char *, int, const char *)); return f(d, m(p, 0), e, m(q, 1)); }
int utimensat(int d, const char *p, const struct timespec t[2], int fl) { REAL(int, utimensat, (int, const char *, const struct timespec *, int)); return f(d, m(p, 0), t, fl); }
ssize_t readlink(const char *p, char *b, size_t n) { REAL(ssize_t, readlink, (const char *, char *, size_t)); return f(m(p, 0), b, n); }
