/* Fault injector: counts every file-system mutation below a directory and ends
 * the process at the chosen one, optionally after a torn (partial) write.
 * Interposed with LD_PRELOAD; inert until mc_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static char prefix[PATH_MAX];
static size_t plen;
static int armed, mode, logfd = -1;
static long crash_at, count;
static char *paths[MAXFD];

static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
#define REAL(name) static __typeof__(name) *r; if (!r) r = dlsym(RTLD_NEXT, #name)

long mc_count(void) { return count; }
void mc_arm(const char *p, long at, int m, int lfd) {
    r_write = dlsym(RTLD_NEXT, "write");
    r_pwrite = dlsym(RTLD_NEXT, "pwrite");
    r_writev = dlsym(RTLD_NEXT, "writev");
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    crash_at = at; mode = m; logfd = lfd; count = 0; armed = 1;
}
void mc_disarm(void) { armed = 0; }
void mc_mark(const char *s) {
    if (!armed || logfd < 0) return;
    char b[512];
    int n = snprintf(b, sizeof b, "%ld\tmark\t%s\t0\n", count, s);
    r_write(logfd, b, n);
}

static const char *full(int dfd, const char *p, char *buf) {
    if (p[0] == '/') return p;
    char l[64];
    ssize_t n;
    if (dfd == AT_FDCWD) { if (!getcwd(buf, PATH_MAX)) return p; n = strlen(buf); }
    else {
        snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
        n = readlink(l, buf, PATH_MAX - 1);
        if (n < 0) return p;
        buf[n] = 0;
    }
    snprintf(buf + n, PATH_MAX - n, "/%s", p);
    return buf;
}
static int mine(const char *p) { return armed && plen && strncmp(p, prefix, plen) == 0; }
/* returns 1 when the process must die at this operation */
static int hit(const char *op, const char *p, long sz) {
    count++;
    if (logfd >= 0) {
        char b[PATH_MAX + 128];
        int n = snprintf(b, sizeof b, "%ld\t%s\t%s\t%ld\n", count, op, p + plen, sz);
        r_write(logfd, b, n);
    }
    return count == crash_at;
}
#define DIE() _exit(77)

static void track(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    free(paths[fd]); paths[fd] = p ? strdup(p) : NULL;
}
static int wants(int flags) { return flags & (O_CREAT | O_TRUNC); }
static int do_open(int (*r)(const char *, int, ...), const char *p, int flags, mode_t m) {
    char b[PATH_MAX]; const char *f = armed ? full(AT_FDCWD, p, b) : p;
    if (mine(f) && wants(flags) && hit("open", f, 0)) DIE();
    int fd = r(p, flags, m);
    if (armed) track(fd, mine(f) && (flags & O_ACCMODE) != O_RDONLY ? f : NULL);
    return fd;
}
#define MODE va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)
int open(const char *p, int flags, ...) { MODE; static int (*r)(const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "open"); return do_open(r, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE; static int (*r)(const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "open64"); return do_open(r, p, flags, m); }
static int do_openat(int (*r)(int, const char *, int, ...), int d, const char *p, int flags, mode_t m) {
    char b[PATH_MAX]; const char *f = armed ? full(d, p, b) : p;
    if (mine(f) && wants(flags) && hit("open", f, 0)) DIE();
    int fd = r(d, p, flags, m);
    if (armed) track(fd, mine(f) && (flags & O_ACCMODE) != O_RDONLY ? f : NULL);
    return fd;
}
int openat(int d, const char *p, int flags, ...) { MODE; static int (*r)(int, const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "openat"); return do_openat(r, d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE; static int (*r)(int, const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "openat64"); return do_openat(r, d, p, flags, m); }

int close(int fd) { REAL(close); if (armed) track(fd, NULL); return r(fd); }

ssize_t write(int fd, const void *b, size_t n) {
    if (!r_write) r_write = dlsym(RTLD_NEXT, "write");
    if (armed && fd >= 0 && fd < MAXFD && paths[fd] && hit("write", paths[fd], n)) {
        if (mode == 1 && n > 1) r_write(fd, b, n / 2);
        if (mode == 2 && n > 1) r_write(fd, b, n - 1);
        DIE();
    }
    return r_write(fd, b, n);
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!r_pwrite) r_pwrite = dlsym(RTLD_NEXT, "pwrite");
    if (armed && fd >= 0 && fd < MAXFD && paths[fd] && hit("write", paths[fd], n)) {
        if (mode == 1 && n > 1) r_pwrite(fd, b, n / 2, o);
        if (mode == 2 && n > 1) r_pwrite(fd, b, n - 1, o);
        DIE();
    }
    return r_pwrite(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!r_writev) r_writev = dlsym(RTLD_NEXT, "writev");
    if (armed && fd >= 0 && fd < MAXFD && paths[fd] && hit("write", paths[fd], c)) DIE();
    return r_writev(fd, v, c);
}
int ftruncate(int fd, off_t n) {
    REAL(ftruncate);
    if (armed && fd >= 0 && fd < MAXFD && paths[fd] && hit("trunc", paths[fd], n)) DIE();
    return r(fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
#define TWO(op, da, a, db, bb) char x[PATH_MAX], y[PATH_MAX]; \
    if (armed) { const char *f = full(da, a, x), *g = full(db, bb, y); \
        if ((mine(g) && hit(op, g, 0)) || (!mine(g) && mine(f) && hit(op, f, 0))) DIE(); }
int rename(const char *a, const char *b) { REAL(rename); TWO("rename", AT_FDCWD, a, AT_FDCWD, b); return r(a, b); }
int renameat(int da, const char *a, int db, const char *b) { REAL(renameat); TWO("rename", da, a, db, b); return r(da, a, db, b); }
int renameat2(int da, const char *a, int db, const char *b, unsigned fl) { REAL(renameat2); TWO("rename", da, a, db, b); return r(da, a, db, b, fl); }
int link(const char *a, const char *b) { REAL(link); TWO("link", AT_FDCWD, a, AT_FDCWD, b); return r(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); TWO("link", AT_FDCWD, a, AT_FDCWD, b); return r(a, b); }
#define ONE(op, d, p) char x[PATH_MAX]; \
    if (armed) { const char *f = full(d, p, x); if (mine(f) && hit(op, f, 0)) DIE(); }
int unlink(const char *p) { REAL(unlink); ONE("unlink", AT_FDCWD, p); return r(p); }
int unlinkat(int d, const char *p, int fl) { REAL(unlinkat); ONE("unlink", d, p); return r(d, p, fl); }
int rmdir(const char *p) { REAL(rmdir); ONE("rmdir", AT_FDCWD, p); return r(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); ONE("mkdir", AT_FDCWD, p); return r(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); ONE("mkdir", d, p); return r(d, p, m); }
int truncate(const char *p, off_t n) { REAL(truncate); ONE("trunc", AT_FDCWD, p); return r(p, n); }
