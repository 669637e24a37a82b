/* Counts the calls that change a folder, and ends the process at the n-th, or makes it fail.
   VERIF_SHIM=<mode>:<n>:<control file>:<folder>; mode: count, kill (before the call), torn (in the middle of a write), fail.
   The calls are counted while the control file exists; with count, their number is written in it by shim_report. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static char mode[16], control[4096], root[4096];
static long at = -1, seen = 0;
static char inside[4096];                 /* descriptors of files of the folder */
static int ready = 0;

static void setup(void) {
    if (ready) return;
    ready = 1;
    const char *e = getenv("VERIF_SHIM");
    if (!e) return;
    sscanf(e, "%15[^:]:%ld:%4095[^:]:%4095s", mode, &at, control, root);
}
static int active(void) {
    setup();
    return root[0] && access(control, F_OK) == 0;
}
static int under(int dirfd, const char *p) {
    if (p[0] == '/') return strncmp(p, root, strlen(root)) == 0;
    return dirfd >= 0 && dirfd < (int)sizeof(inside) && inside[dirfd];
}
/* 0: go on, -1: fail, -2: write a part only and die */
static int step(int writing) {
    seen++;
    if (!strcmp(mode, "count")) {
        FILE *(*o)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen");
        FILE *f = o(control, "w");
        if (f) { fprintf(f, "%ld", seen); fclose(f); }
        return 0;
    }
    if (seen != at) return 0;
    if (!strcmp(mode, "kill")) _exit(77);
    if (!strcmp(mode, "torn")) { if (writing) return -2; _exit(77); }
    errno = writing ? ENOSPC : EIO;
    return -1;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define MARK(fd, p, d) do { if (fd >= 0 && fd < (int)sizeof(inside)) inside[fd] = root[0] && under(d, p); } while (0)

#define OPEN(NAME) \
int NAME(const char *p, int flags, ...) { \
    REAL(NAME); va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    if (active() && under(-1, p) && (flags & (O_CREAT | O_TRUNC | O_TMPFILE) & ~O_DIRECTORY) && step(0) == -1) return -1; \
    int fd = real(p, flags, m); MARK(fd, p, -1); return fd; }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
int NAME(int d, const char *p, int flags, ...) { \
    REAL(NAME); va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    if (active() && under(d, p) && (flags & (O_CREAT | O_TRUNC | O_TMPFILE) & ~O_DIRECTORY) && step(0) == -1) return -1; \
    int fd = real(d, p, flags, m); MARK(fd, p, d); return fd; }
OPENAT(openat)
OPENAT(openat64)
int close(int fd) { REAL(close); if (fd >= 0 && fd < (int)sizeof(inside)) inside[fd] = 0; return real(fd); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (fd > 2 && fd < (int)sizeof(inside) && inside[fd] && active()) {
        int s = step(1);
        if (s == -1) return -1;
        if (s == -2) { real(fd, b, n / 2); _exit(77); }
    }
    return real(fd, b, n);
}
#define ONE(NAME, SIG, CALL, COND) int NAME SIG { REAL(NAME); if (active() && (COND) && step(0) == -1) return -1; return real CALL; }
ONE(mkdir, (const char *p, mode_t m), (p, m), under(-1, p))
ONE(rmdir, (const char *p), (p), under(-1, p))
ONE(unlink, (const char *p), (p), under(-1, p))
ONE(unlinkat, (int d, const char *p, int f), (d, p, f), under(d, p))
ONE(rename, (const char *p, const char *q), (p, q), under(-1, p) || under(-1, q))
ONE(renameat, (int a, const char *p, int b, const char *q), (a, p, b, q), under(a, p) || under(b, q))
ONE(link, (const char *p, const char *q), (p, q), under(-1, q))
ONE(symlink, (const char *p, const char *q), (p, q), under(-1, q))
ONE(ftruncate, (int fd, off_t n), (fd, n), fd >= 0 && fd < (int)sizeof(inside) && inside[fd])
ONE(ftruncate64, (int fd, off64_t n), (fd, n), fd >= 0 && fd < (int)sizeof(inside) && inside[fd])
ONE(truncate, (const char *p, off_t n), (p, n), under(-1, p))
