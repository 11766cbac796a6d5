/* A run's command: reports how it was started, then follows a script.
 * PROBE_OUT: prefix of the report (RUN_ID is appended); PROBE_SCRIPT: file of lines
 *   w FD HEX    write these bytes      d FD N BYTE  write N times this byte
 *   x CODE      exit                   k SIG        kill itself
 */
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static void hex(FILE *f, const char *s) {
    for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s);
}

static int put(int fd, const char *b, size_t n) {
    while (n) {
        ssize_t k = write(fd, b, n);
        if (k <= 0) return 1;
        b += k; n -= k;
    }
    return 0;
}

int main(int argc, char **argv) {
    const char *out = getenv("PROBE_OUT"), *script = getenv("PROBE_SCRIPT"), *rid = getenv("RUN_ID");
    char path[4096], tmp[4200], line[70000];
    char fds[4096] = "";
    DIR *d = opendir("/proc/self/fd");
    struct dirent *e;
    struct stat s;
    while (d && (e = readdir(d))) {
        int fd = atoi(e->d_name);
        if (e->d_name[0] == '.' || fd == dirfd(d)) continue;
        snprintf(fds + strlen(fds), sizeof fds - strlen(fds), "%d ", fd);
    }
    if (d) closedir(d);
    if (!out) return 99;
    snprintf(path, sizeof path, "%s.%s", out, rid ? rid : "none");
    snprintf(tmp, sizeof tmp, "%s.tmp", path);
    FILE *f = fopen(tmp, "w");
    if (!f) return 98;
    for (int i = 0; i < argc; i++) { fprintf(f, "arg "); hex(f, argv[i]); fprintf(f, "\n"); }
    fprintf(f, "fds %s\n", fds);
    for (int i = 0; i < 3; i++)
        if (fstat(i, &s) == 0) fprintf(f, "stat %d %lu %lu %o\n", i, (unsigned long)s.st_dev, (unsigned long)s.st_ino, s.st_mode);
    if (fstat(0, &s) == 0) {
        char c;
        fprintf(f, "stdin %ld\n", (long)read(0, &c, 1));
    }
    fprintf(f, "pid %d\npgrp %d\n", (int)getpid(), (int)getpgrp());
    if (getcwd(tmp, sizeof tmp)) { fprintf(f, "cwd "); hex(f, tmp); fprintf(f, "\n"); }
    for (int i = 1; i <= 64; i++) {
        struct sigaction a;
        if (i == SIGKILL || i == SIGSTOP || sigaction(i, NULL, &a)) continue;
        if (a.sa_handler != SIG_DFL) fprintf(f, "ign %d\n", i);
    }
    sigset_t m;
    sigprocmask(SIG_BLOCK, NULL, &m);
    for (int i = 1; i <= 64; i++) if (sigismember(&m, i) == 1) fprintf(f, "blk %d\n", i);
    fclose(f);
    snprintf(tmp, sizeof tmp, "%s.tmp", path);
    rename(tmp, path);
    FILE *g = script ? fopen(script, "r") : NULL;
    if (!g) return 97;
    while (fgets(line, sizeof line, g)) {
        int fd, n, b, k = 0;
        if (line[0] == 'w' && sscanf(line, "w %d %n", &fd, &k) == 1) {
            static char buf[40000];
            size_t len = 0;
            for (char *p = line + k; p[0] && p[1] && sscanf(p, "%2x", &b) == 1; p += 2) buf[len++] = b;
            if (put(fd, buf, len)) return 96;
        } else if (sscanf(line, "d %d %d %d", &fd, &n, &b) == 3) {
            char *buf = malloc(n);
            memset(buf, b, n);
            if (put(fd, buf, n)) return 96;
            free(buf);
        } else if (sscanf(line, "x %d", &n) == 1) {
            _exit(n);
        } else if (sscanf(line, "k %d", &n) == 1) {
            kill(getpid(), n);
            pause();
        }
    }
    return 0;
}
