/*
 * File-system interposer (LD_PRELOAD): numbers the file-system operations that the
 * process performs below a scratch prefix, and at a chosen operation lets the process
 * die (optionally in the middle of a write) or makes the operation fail.
 * Controlled through the fsint_* functions, which the harness calls with ctypes.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXLOG 4096

static int armed, reads, mode, half, cross;
static int target = -1, err_no, count;
static char prefix[512];
static size_t prefix_len;
static char side_a[512], side_b[512];
static unsigned char mark[MAXFD];
static char fdpath[MAXFD][512];
static char kinds[MAXLOG];

enum { OFF = 0, COUNT = 1, CRASH = 2, FAIL = 3, STICKY = 4, STICKY_SPACE = 5, SCHED = 6 };
static int sched_out = -1, sched_in = -1;

void fsint_arm(const char *p, int mode_, int target_, int err_, int half_, int reads_) {
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    mode = mode_; target = target_; err_no = err_; half = half_; reads = reads_;
    count = 0; memset(kinds, 0, sizeof kinds);
    armed = 1;
}
/* SCHED: every operation is announced on fd `out` and waits for a byte on fd `in` */
void fsint_sched(int out, int in) { sched_out = out; sched_in = in; }
void fsint_disarm(void) { armed = 0; }
int fsint_count(void) { return count; }
const char *fsint_kinds(void) { return kinds; }
/* rename between directories a and b fails with EXDEV, as between file systems */
void fsint_cross(const char *a, const char *b) {
    if (!a) { cross = 0; return; }
    strncpy(side_a, a, sizeof side_a - 1);
    strncpy(side_b, b, sizeof side_b - 1);
    cross = 1;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int inside(const char *p) {
    return p && prefix_len && !strncmp(p, prefix, prefix_len);
}
static int inside_at(int dirfd, const char *p) {
    if (p && p[0] == '/') return inside(p);
    return dirfd >= 0 && dirfd < MAXFD && mark[dirfd];
}
static void remember(int fd, int flag, int dirfd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    mark[fd] = flag;
    if (p[0] == '/') snprintf(fdpath[fd], sizeof fdpath[fd], "%s", p);
    else if (dirfd >= 0 && dirfd < MAXFD && mark[dirfd]) {
        char tmp[512];
        snprintf(tmp, sizeof tmp, "%.250s/%.250s", fdpath[dirfd], p);
        strcpy(fdpath[fd], tmp);
    }
}

/* 0: carry on; 1: fail with errno set; 2: (writes) do half and die */
static int at_op(char kind, int space) {
    if (!armed) return 0;
    int k = count++;
    if (k < MAXLOG - 1) kinds[k] = kind;
    if (mode == SCHED) {
        static ssize_t (*real)(int, const void *, size_t);
        if (!real) real = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
        int e = errno;
        char b = kind;
        if (real(sched_out, &b, 1) != 1 || read(sched_in, &b, 1) != 1) _exit(87);
        errno = e;
        return 0;
    }
    if (mode == CRASH && k == target) {
        if (half && (kind == 'w' || kind == 's')) return 2;
        _exit(86);
    }
    if ((mode == FAIL && k == target) || (mode == STICKY && k >= target) ||
        (mode == STICKY_SPACE && k >= target && space)) {
        if (half && (kind == 'w' || kind == 's')) return 3;
        errno = err_no;
        return 1;
    }
    return 0;
}

static int do_open(const char *name, int dirfd, const char *path, int flags, mode_t m, int at) {
    int in = at ? inside_at(dirfd, path) : inside(path);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int dir = flags & O_DIRECTORY;
    if (in && (wr || reads) && at_op(wr ? 'o' : dir ? 'd' : 'r', !!(flags & O_CREAT))) return -1;
    int fd;
    if (at) {
        REAL(int, "openat64", int, const char *, int, ...);
        fd = real(dirfd, path, flags, m);
    } else {
        REAL(int, "open64", const char *, int, ...);
        fd = real(path, flags, m);
    }
    if (fd >= 0 && fd < MAXFD) mark[fd] = 0;
    if (in) remember(fd, wr ? 2 : 1, dirfd, path);
    return fd;
}
#define MODE(flags, path) mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(flags, path); return do_open("open", AT_FDCWD, path, flags, m, 0); }
int open64(const char *path, int flags, ...) { MODE(flags, path); return do_open("open64", AT_FDCWD, path, flags, m, 0); }
int openat(int d, const char *path, int flags, ...) { MODE(flags, path); return do_open("openat", d, path, flags, m, 1); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags, path); return do_open("openat64", d, path, flags, m, 1); }
int creat(const char *path, mode_t m) { return do_open("creat", AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }

int close(int fd) {
    REAL(int, "close", int);
    int w = fd >= 0 && fd < MAXFD && mark[fd] == 2;
    if (fd >= 0 && fd < MAXFD) mark[fd] = 0;
    if (w && reads) {
        int r = at_op('c', 0);
        if (r) { int e = errno; real(fd); errno = e; return -1; }
    }
    return real(fd);
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fd >= 0 && fd < MAXFD && mark[fd] == 2) {
        int r = at_op('w', 1);
        if (r == 1) return -1;
        if (r == 2) { real(fd, buf, n / 2); _exit(86); }
        if (r == 3) { ssize_t k = real(fd, buf, n / 2); if (n / 2 == 0) { errno = err_no; return -1; } return k; }
    }
    return real(fd, buf, n);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t);
    if (fd >= 0 && fd < MAXFD && mark[fd] == 2) {
        int r = at_op('w', 1);
        if (r == 1) return -1;
        if (r == 2) { real(fd, buf, n / 2, o); _exit(86); }
    }
    return real(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fd >= 0 && fd < MAXFD && mark[fd] == 2) {
        int r = at_op('w', 1);
        if (r == 1) return -1;
        if (r == 2) { real(fd, v, 1); _exit(86); }
    }
    return real(fd, v, n);
}
static ssize_t do_sendfile(int out, int in, off_t *o, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off_t *, size_t);
    if (out >= 0 && out < MAXFD && mark[out] == 2) {
        int r = at_op('s', 1);
        if (r == 1) return -1;
        if (r >= 2) {
            struct stat st;
            size_t len = fstat(in, &st) == 0 ? (size_t)st.st_size : n;
            if (len < n) n = len;
            ssize_t k = n / 2 ? real(out, in, o, n / 2) : 0;
            if (r == 2) _exit(86);
            if (n / 2 == 0) { errno = err_no; return -1; }
            return k;
        }
    }
    return real(out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return do_sendfile(out, in, (off_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (out >= 0 && out < MAXFD && mark[out] == 2) {
        int r = at_op('s', 1);
        if (r == 1) return -1;
        if (r == 2) { real(in, io, out, oo, n / 2, fl); _exit(86); }
    }
    return real(in, io, out, oo, n, fl);
}

static const char *resolve(int dirfd, const char *p, char *buf) {
    if (p[0] == '/' || dirfd < 0 || dirfd >= MAXFD || !mark[dirfd]) return p;
    snprintf(buf, 1024, "%s/%s", fdpath[dirfd], p);
    return buf;
}
static int crosses(const char *a, const char *b) {
    if (!cross) return 0;
    int aa = !strncmp(a, side_a, strlen(side_a)), ba = !strncmp(b, side_a, strlen(side_a));
    int ab = !strncmp(a, side_b, strlen(side_b)), bb = !strncmp(b, side_b, strlen(side_b));
    return (aa && bb) || (ab && ba);
}
#define RENAME(d1, a, d2, b, call) \
    char ba_[1024], bb_[1024]; \
    if (crosses(resolve(d1, a, ba_), resolve(d2, b, bb_))) { errno = EXDEV; return -1; } \
    if (inside_at(d1, a) || inside_at(d2, b)) { \
        if (at_op('m', 0)) return -1; \
    } \
    return call
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); RENAME(AT_FDCWD, a, AT_FDCWD, b, real(a, b)); }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); RENAME(d1, a, d2, b, real(d1, a, d2, b)); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { REAL(int, "renameat2", int, const char *, int, const char *, unsigned); RENAME(d1, a, d2, b, real(d1, a, d2, b, f)); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); RENAME(AT_FDCWD, a, AT_FDCWD, b, real(a, b)); }


int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); if (inside(p) && at_op('k', 1)) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); if (inside_at(d, p) && at_op('k', 1)) return -1; return real(d, p, m); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); if (inside(p) && at_op('x', 0)) return -1; return real(p); }
int unlink(const char *p) { REAL(int, "unlink", const char *); if (inside(p) && at_op('u', 0)) return -1; return real(p); }
int remove(const char *p) { REAL(int, "remove", const char *); if (inside(p) && at_op('u', 0)) return -1; return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); if (inside_at(d, p) && at_op(f & AT_REMOVEDIR ? 'x' : 'u', 0)) return -1; return real(d, p, f); }
int symlink(const char *a, const char *p) { REAL(int, "symlink", const char *, const char *); if (inside(p) && at_op('l', 1)) return -1; return real(a, p); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); if (inside(p) && at_op('h', 0)) return -1; return real(p, m); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); if (fd >= 0 && fd < MAXFD && mark[fd] && at_op('h', 0)) return -1; return real(fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); if (inside_at(d, p) && at_op('h', 0)) return -1; return real(d, p, m, f); }
int truncate(const char *p, off_t n) { REAL(int, "truncate", const char *, off_t); if (inside(p) && at_op('t', 0)) return -1; return real(p, n); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); if (fd >= 0 && fd < MAXFD && mark[fd] == 2 && at_op('t', 0)) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); if (fd >= 0 && fd < MAXFD && mark[fd] == 2 && at_op('t', 0)) return -1; return real(fd, n); }
int fsync(int fd) { REAL(int, "fsync", int); if (fd >= 0 && fd < MAXFD && mark[fd] && at_op('f', 0)) return -1; return real(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); if (fd >= 0 && fd < MAXFD && mark[fd] && at_op('f', 0)) return -1; return real(fd); }
int utimensat(int d, const char *p, const struct timespec ts[2], int f) {
    REAL(int, "utimensat", int, const char *, const struct timespec *, int);
    if (p && inside_at(d, p) && at_op('i', 0)) return -1;
    return real(d, p, ts, f);
}
int futimens(int fd, const struct timespec ts[2]) { REAL(int, "futimens", int, const struct timespec *); if (fd >= 0 && fd < MAXFD && mark[fd] && at_op('i', 0)) return -1; return real(fd, ts); }
DIR *opendir(const char *p) { REAL(DIR *, "opendir", const char *); if (inside(p) && reads && at_op('d', 0)) return NULL; return real(p); }

/* operations that only look; they are scheduled, never made to fail */
#define LOOK(cond, kind) if (armed && reads && mode == SCHED && (cond)) at_op(kind, 0)
int stat64(const char *p, struct stat64 *b) { REAL(int, "stat64", const char *, struct stat64 *); LOOK(inside(p), 'S'); return real(p, b); }
int lstat64(const char *p, struct stat64 *b) { REAL(int, "lstat64", const char *, struct stat64 *); LOOK(inside(p), 'S'); return real(p, b); }
int fstatat64(int d, const char *p, struct stat64 *b, int f) { REAL(int, "fstatat64", int, const char *, struct stat64 *, int); LOOK(inside_at(d, p), 'S'); return real(d, p, b, f); }
int access(const char *p, int m) { REAL(int, "access", const char *, int); LOOK(inside(p), 'S'); return real(p, m); }
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    LOOK(fd >= 0 && fd < MAXFD && mark[fd], 'R');
    return real(fd, b, n);
}
