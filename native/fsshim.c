/* LD_PRELOAD shim: counts, delays, fails or dies at the file system calls that
 * change anything under a watched directory. Controlled through vf_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, DIE_BEFORE, DIE_AFTER, FAIL, DELAY };

static char prefix[PATH_MAX];
static size_t plen;
static volatile int mode;
static long at;
static int err_no;
static atomic_long n;
static char ops[1 << 16];
static atomic_ulong rnd;
static volatile int dead;

void vf_arm(const char *p, int m, long k, int e) {
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    at = k;
    err_no = e;
    atomic_store(&n, 0);
    atomic_store(&rnd, (unsigned long)k * 2654435761u + 1);
    dead = 0;
    mode = m;
}
long vf_count(void) { return atomic_load(&n); }
const char *vf_ops(void) { return ops; }
void vf_off(void) { mode = OFF; }

static int under(const char *p) { return strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || p[plen] == 0); }

static int watched_at(int dfd, const char *p) {
    if (mode == OFF || !p) return 0;
    char b[PATH_MAX * 2];
    if (p[0] == '/') return under(p);
    ssize_t l;
    if (dfd == AT_FDCWD) {
        if (!getcwd(b, PATH_MAX)) return 0;
    } else {
        char q[64];
        snprintf(q, sizeof q, "/proc/self/fd/%d", dfd);
        l = readlink(q, b, PATH_MAX - 1);
        if (l < 0) return 0;
        b[l] = 0;
    }
    return under(b);
}
static int watched_fd(int fd) {
    if (mode == OFF) return 0;
    char q[64], b[PATH_MAX];
    snprintf(q, sizeof q, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(q, b, sizeof b - 1);
    if (l < 0) return 0;
    b[l] = 0;
    return under(b);
}

/* 0: go on; 1: go on, then die; 2: fail */
static int hit(char op) {
    long i = atomic_fetch_add(&n, 1);
    if (i < (long)sizeof ops - 1) ops[i] = op, ops[i + 1] = 0;
    switch (mode) {
    case DIE_BEFORE:
        if (i >= at) _exit(77);
        break;
    case DIE_AFTER:
        if (i > at) _exit(77);
        if (i == at) { dead = 1; return 1; }
        break;
    case FAIL:
        if (i == at) { errno = err_no; return 2; }
        break;
    case DELAY: {
        unsigned long r = atomic_fetch_add(&rnd, 0x9E3779B97F4A7C15ul);
        r ^= r >> 29; r *= 0xBF58476D1CE4E5B9ul; r ^= r >> 32;
        if (r % 4 == 0) usleep(r / 4 % 3000);
        break;
    }
    }
    return 0;
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = dlsym(RTLD_NEXT, #name); f; })
#define WRAP(op, cond, call) \
    do { \
        int h = 0; \
        if (cond) { h = hit(op); if (h == 2) return -1; } \
        __auto_type r = call; \
        if (h == 1) _exit(77); \
        return r; \
    } while (0)

#define CREATES(fl) ((fl) & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))
#define MODE int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }

int open(const char *p, int fl, ...) { MODE WRAP('o', CREATES(fl) && watched_at(AT_FDCWD, p), REAL(open)(p, fl, m)); }
int open64(const char *p, int fl, ...) { MODE WRAP('o', CREATES(fl) && watched_at(AT_FDCWD, p), REAL(open64)(p, fl, m)); }
int openat(int d, const char *p, int fl, ...) { MODE WRAP('o', CREATES(fl) && watched_at(d, p), REAL(openat)(d, p, fl, m)); }
int openat64(int d, const char *p, int fl, ...) { MODE WRAP('o', CREATES(fl) && watched_at(d, p), REAL(openat64)(d, p, fl, m)); }
static FILE *do_fopen(const char *p, const char *md, FILE *(*f)(const char *, const char *)) {
    int h = 0;
    if (md[0] != 'r' && watched_at(AT_FDCWD, p)) { h = hit('o'); if (h == 2) return NULL; }
    FILE *r = f(p, md);
    if (h == 1) _exit(77);
    return r;
}
FILE *fopen(const char *p, const char *md) { return do_fopen(p, md, REAL(fopen)); }
FILE *fopen64(const char *p, const char *md) { return do_fopen(p, md, REAL(fopen64)); }

ssize_t write(int fd, const void *b, size_t c) {
    int h = 0;
    if (watched_fd(fd)) { h = hit('w'); if (h == 2) return -1; }
    if (h == 1) { REAL(write)(fd, b, c / 2); _exit(77); }   /* torn */
    return REAL(write)(fd, b, c);
}
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    int h = 0;
    if (watched_fd(fd)) { h = hit('w'); if (h == 2) return -1; }
    if (h == 1) { REAL(pwrite64)(fd, b, c / 2, o); _exit(77); }
    return REAL(pwrite64)(fd, b, c, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) { WRAP('w', watched_fd(fd), REAL(writev)(fd, v, c)); }
ssize_t sendfile(int o, int i, off_t *off, size_t c) { WRAP('w', watched_fd(o), REAL(sendfile)(o, i, off, c)); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t c) { WRAP('w', watched_fd(o), REAL(sendfile64)(o, i, off, c)); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t c, unsigned fl) { WRAP('w', watched_fd(o), REAL(copy_file_range)(i, io, o, oo, c, fl)); }
int ftruncate(int fd, off_t l) { WRAP('t', watched_fd(fd), REAL(ftruncate)(fd, l)); }
int ftruncate64(int fd, off64_t l) { WRAP('t', watched_fd(fd), REAL(ftruncate64)(fd, l)); }
int truncate(const char *p, off_t l) { WRAP('t', watched_at(AT_FDCWD, p), REAL(truncate)(p, l)); }
int rename(const char *a, const char *b) { WRAP('r', watched_at(AT_FDCWD, a) || watched_at(AT_FDCWD, b), REAL(rename)(a, b)); }
int renameat(int d, const char *a, int e, const char *b) { WRAP('r', watched_at(d, a) || watched_at(e, b), REAL(renameat)(d, a, e, b)); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { WRAP('r', watched_at(d, a) || watched_at(e, b), REAL(renameat2)(d, a, e, b, f)); }
int mkdir(const char *p, mode_t m) { WRAP('m', watched_at(AT_FDCWD, p), REAL(mkdir)(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { WRAP('m', watched_at(d, p), REAL(mkdirat)(d, p, m)); }
int unlink(const char *p) { WRAP('u', watched_at(AT_FDCWD, p), REAL(unlink)(p)); }
int unlinkat(int d, const char *p, int f) { WRAP(f & AT_REMOVEDIR ? 'd' : 'u', watched_at(d, p), REAL(unlinkat)(d, p, f)); }
int rmdir(const char *p) { WRAP('d', watched_at(AT_FDCWD, p), REAL(rmdir)(p)); }
int link(const char *a, const char *b) { WRAP('l', watched_at(AT_FDCWD, b), REAL(link)(a, b)); }
int symlink(const char *a, const char *b) { WRAP('l', watched_at(AT_FDCWD, b), REAL(symlink)(a, b)); }
