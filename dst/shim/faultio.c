/*
 * LD_PRELOAD seam between the process under simulation and the real file
 * system.  Every file operation under one scratch root is counted, logged and
 * matched against a small fault plan that Python fills in through ctypes.
 * Anything outside the root, and everything while disarmed, passes straight
 * through.  A planned crash ends the process with _exit(137) in the middle of
 * the operation, so that only what had been handed to the OS survives.
 */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN_R = 0, K_OPEN_W, K_READ, K_WRITE, K_TRUNC, K_CLOSE, K_MKDIR,
       K_RMDIR, K_UNLINK, K_RENAME, K_FSYNC, NKIND };
enum { A_NONE = 0, A_FAIL, A_SHORT, A_TORN, A_CRASH, A_CRASH_TORN,
       A_CRASH_AFTER, A_STICKY, A_EEXIST };

#define MAXFD 4096
#define MAXPLAN 32
#define MAXLOG 200000

static char root[4096];
static size_t rootlen = 0;
static volatile int armed = 0;
static char *fdpath[MAXFD];
static char fdw[MAXFD];
static long nops = 0, nkind[NKIND];
static long cap = -1, cap_hits = 0;
struct plan { int kind; long nth; int action; int err; long param;
              char sub[128]; long seen; int fired; };
static struct plan plans[MAXPLAN];
static int nplan = 0;
static unsigned char oplog[MAXLOG];
#define MAXPATHS (1 << 18)
static char plog[MAXPATHS];             /* paths that were created */
static long nplog = 0;
static long fired_total = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = 0; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);

/* ---- control interface (ctypes) ---- */
void dst_root(const char *p) { strncpy(root, p, sizeof(root) - 1);
    rootlen = strlen(root); }
void dst_reset(void) { nops = 0; memset(nkind, 0, sizeof(nkind)); nplan = 0;
    cap = -1; cap_hits = 0; fired_total = 0; armed = 0; nplog = 0; }
void dst_arm(int on) { armed = on; }
void dst_clear(void) { nplan = 0; cap = -1; }
void dst_capacity(long bytes) { cap = bytes; }
long dst_cap_hits(void) { return cap_hits; }
int dst_plan(int kind, long nth, int action, int err, long param,
             const char *sub) {
    if (nplan >= MAXPLAN) return -1;
    struct plan *p = &plans[nplan];
    memset(p, 0, sizeof(*p));
    p->kind = kind; p->nth = nth; p->action = action; p->err = err;
    p->param = param;
    if (sub) strncpy(p->sub, sub, sizeof(p->sub) - 1);
    return nplan++;
}
int dst_fired(int i) { return (i >= 0 && i < nplan) ? plans[i].fired : 0; }
long dst_nops(void) { return nops; }
long dst_nkind(int k) { return (k >= 0 && k < NKIND) ? nkind[k] : 0; }
long dst_log(unsigned char *out, long n) {
    long m = nops < MAXLOG ? nops : MAXLOG;
    if (m > n) m = n;
    memcpy(out, oplog, m);
    return m;
}
long dst_paths(char *out, long n) {
    long m = nplog < n ? nplog : n;
    memcpy(out, plog, m);
    return m;
}

/* ---- path handling ---- */
static void abspath_at(int dirfd, const char *path, char *out, size_t n) {
    if (!path) { out[0] = 0; return; }
    if (path[0] == '/') { snprintf(out, n, "%s", path); return; }
    if (dirfd != AT_FDCWD && dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) {
        snprintf(out, n, "%s/%s", fdpath[dirfd], path);
        return;
    }
    if (dirfd == AT_FDCWD) {
        char cwd[3000];
        if (getcwd(cwd, sizeof(cwd)))
            snprintf(out, n, "%s/%s", cwd, path);
        else out[0] = 0;
        return;
    }
    out[0] = 0;
}
static int inside(const char *p) {
    return rootlen && strncmp(p, root, rootlen) == 0;
}

/* Count one operation and return the plan that applies to it, or NULL. */
static struct plan *hit(int kind, const char *path) {
    if (!armed) return NULL;
    if (nops < MAXLOG) oplog[nops] = (unsigned char)kind;
    nops++;
    nkind[kind]++;
    if (kind == K_OPEN_W || kind == K_MKDIR || kind == K_RENAME) {
        long n = (long)strlen(path);
        if (nplog + n + 2 < MAXPATHS) {
            plog[nplog++] = kind == K_MKDIR ? 'd' : 'f';
            memcpy(plog + nplog, path, n);
            nplog += n;
            plog[nplog++] = '\n';
        }
    }
    for (int i = 0; i < nplan; i++) {
        struct plan *p = &plans[i];
        int match;
        if (p->kind >= 0) match = (p->kind == kind);
        else match = 1;
        if (!match) continue;
        if (p->sub[0] && !strstr(path, p->sub)) continue;
        p->seen++;
        if (p->seen == p->nth || (p->action == A_STICKY && p->seen > p->nth)) {
            p->fired++;
            fired_total++;
            return p;
        }
    }
    return NULL;
}
static void crash_now(void) { _exit(137); }

#define PRE_SIMPLE(kind, path) \
    struct plan *pl = NULL; \
    if (armed && inside(path)) pl = hit(kind, path); \
    if (pl) { \
        if (pl->action == A_CRASH || pl->action == A_CRASH_TORN) crash_now(); \
        if (pl->action == A_FAIL || pl->action == A_STICKY || \
            pl->action == A_TORN) { errno = pl->err; return -1; } \
    }
#define POST_SIMPLE() \
    if (pl && pl->action == A_CRASH_AFTER) crash_now();

static int do_open(int dirfd, const char *path, int flags, mode_t mode,
                   int use_at) {
    REAL(int, openat, int, const char *, int, ...);
    REAL(int, open, const char *, int, ...);
    char ap[4096];
    int fd;
    abspath_at(use_at ? dirfd : AT_FDCWD, path, ap, sizeof(ap));
    int in = inside(ap);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    struct plan *pl = NULL;
    struct stat sb;
    /* directories are opened to list or to remove them: not struck here */
    int isdir = in && armed && !w && stat(ap, &sb) == 0 && S_ISDIR(sb.st_mode);
    if (in && armed && !(flags & O_DIRECTORY) && !isdir)
        pl = hit(w ? K_OPEN_W : K_OPEN_R, ap);
    if (pl) {
        if (pl->action == A_CRASH || pl->action == A_CRASH_TORN) crash_now();
        if (pl->action == A_FAIL || pl->action == A_STICKY ||
            pl->action == A_TORN) { errno = pl->err; return -1; }
    }
    if (use_at) fd = real_openat(dirfd, path, flags, mode);
    else fd = real_open(path, flags, mode);
    if (fd >= 0 && fd < MAXFD && in) {
        free(fdpath[fd]);
        fdpath[fd] = strdup(ap);
        fdw[fd] = (char)w;
    }
    if (pl && pl->action == A_CRASH_AFTER) crash_now();
    return fd;
}
#define MODE_ARG() \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap_; va_start(ap_, flags); \
        mode = (mode_t)va_arg(ap_, int); va_end(ap_); }

int open(const char *path, int flags, ...) {
    MODE_ARG(); return do_open(0, path, flags, mode, 0); }
int open64(const char *path, int flags, ...) {
    MODE_ARG(); return do_open(0, path, flags | O_LARGEFILE, mode, 0); }
int openat(int d, const char *path, int flags, ...) {
    MODE_ARG(); return do_open(d, path, flags, mode, 1); }
int openat64(int d, const char *path, int flags, ...) {
    MODE_ARG(); return do_open(d, path, flags | O_LARGEFILE, mode, 1); }
int creat(const char *path, mode_t mode) {
    return do_open(0, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }
int creat64(const char *path, mode_t mode) {
    return do_open(0, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }

int dup(int fd) {
    REAL(int, dup, int);
    int r = real_dup(fd);
    if (r >= 0 && r < MAXFD) {
        free(fdpath[r]); fdpath[r] = NULL;
        if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
            fdpath[r] = strdup(fdpath[fd]); fdw[r] = fdw[fd]; }
    }
    return r;
}
static int tracked(int fd) {
    return fd >= 0 && fd < MAXFD && fdpath[fd] != NULL;
}
int close(int fd) {
    REAL(int, close, int);
    struct plan *pl = NULL;
    if (armed && tracked(fd) && fdw[fd]) pl = hit(K_CLOSE, fdpath[fd]);
    if (pl && (pl->action == A_CRASH || pl->action == A_CRASH_TORN))
        crash_now();
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = NULL;
        fdw[fd] = 0; }
    int r = real_close(fd);
    if (pl && pl->action == A_CRASH_AFTER) crash_now();
    if (pl && (pl->action == A_FAIL || pl->action == A_STICKY ||
               pl->action == A_TORN)) { errno = pl->err; return -1; }
    return r;
}

/* ---- writes ---- */
static ssize_t plan_write(int fd, size_t n, size_t *allow, int *err,
                          int *crash) {
    *allow = n; *err = 0; *crash = 0;
    struct plan *pl = hit(K_WRITE, fdpath[fd]);
    if (pl) {
        long part = (long)((double)n * (double)pl->param / 1000.0);
        if (part < 0) part = 0;
        if ((size_t)part > n) part = (long)n;
        switch (pl->action) {
        case A_FAIL: case A_STICKY: *allow = 0; *err = pl->err; return 1;
        case A_SHORT: if (part < 1) part = 1; *allow = (size_t)part; return 1;
        case A_TORN: *allow = (size_t)part; *err = pl->err; return 1;
        case A_CRASH: crash_now(); return 1;
        case A_CRASH_TORN: *allow = (size_t)part; *crash = 1; return 1;
        case A_CRASH_AFTER: *crash = 1; return 1;
        }
    }
    if (cap >= 0) {
        if ((long)n > cap) {
            cap_hits++;
            if (cap > 0) { *allow = (size_t)cap; cap = 0; return 1; }
            *allow = 0; *err = ENOSPC; return 1;
        }
        cap -= (long)n;
    }
    return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!armed || !tracked(fd)) return real_write(fd, buf, n);
    size_t allow; int err, crash;
    plan_write(fd, n, &allow, &err, &crash);
    ssize_t r = allow ? real_write(fd, buf, allow) : 0;
    if (crash) crash_now();
    if (err) { errno = err; return -1; }
    return r;
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off64_t off) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!armed || !tracked(fd)) return real_pwrite64(fd, buf, n, off);
    size_t allow; int err, crash;
    plan_write(fd, n, &allow, &err, &crash);
    ssize_t r = allow ? real_pwrite64(fd, buf, allow, off) : 0;
    if (crash) crash_now();
    if (err) { errno = err; return -1; }
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    return do_pwrite(fd, buf, n, (off64_t)off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    return do_pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!armed || !tracked(fd)) return real_writev(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}

/* ---- reads ---- */
static int plan_read(int fd, size_t n, size_t *allow, int *err) {
    *allow = n; *err = 0;
    struct plan *pl = hit(K_READ, fdpath[fd]);
    if (!pl) return 0;
    long part = (long)((double)n * (double)pl->param / 1000.0);
    if (part < 1) part = 1;
    if ((size_t)part > n) part = (long)n;
    switch (pl->action) {
    case A_FAIL: case A_STICKY: case A_TORN: *err = pl->err; break;
    case A_SHORT: *allow = (size_t)part; break;
    case A_CRASH: case A_CRASH_TORN: case A_CRASH_AFTER: crash_now();
    }
    return 1;
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (!armed || !tracked(fd)) return real_read(fd, buf, n);
    size_t allow; int err;
    plan_read(fd, n, &allow, &err);
    if (err) { errno = err; return -1; }
    return real_read(fd, buf, allow);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off64_t off) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    if (!armed || !tracked(fd)) return real_pread64(fd, buf, n, off);
    size_t allow; int err;
    plan_read(fd, n, &allow, &err);
    if (err) { errno = err; return -1; }
    return real_pread64(fd, buf, allow, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
    return do_pread(fd, buf, n, (off64_t)off); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    return do_pread(fd, buf, n, off); }

/* ---- metadata operations ---- */
int ftruncate64(int fd, off64_t len) {
    REAL(int, ftruncate64, int, off64_t);
    if (tracked(fd)) {
        PRE_SIMPLE(K_TRUNC, fdpath[fd]);
        int r = real_ftruncate64(fd, len);
        POST_SIMPLE();
        return r;
    }
    return real_ftruncate64(fd, len);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, (off64_t)len); }
int fsync(int fd) {
    REAL(int, fsync, int);
    if (tracked(fd)) { PRE_SIMPLE(K_FSYNC, fdpath[fd]);
        int r = real_fsync(fd); POST_SIMPLE(); return r; }
    return real_fsync(fd);
}
int fdatasync(int fd) {
    REAL(int, fdatasync, int);
    if (tracked(fd)) { PRE_SIMPLE(K_FSYNC, fdpath[fd]);
        int r = real_fdatasync(fd); POST_SIMPLE(); return r; }
    return real_fdatasync(fd);
}
int mkdirat(int d, const char *path, mode_t mode) {
    REAL(int, mkdirat, int, const char *, mode_t);
    char ap[4096];
    abspath_at(d, path, ap, sizeof(ap));
    PRE_SIMPLE(K_MKDIR, ap);
    int r = real_mkdirat(d, path, mode);
    if (pl && pl->action == A_EEXIST && r == 0) { errno = EEXIST; return -1; }
    POST_SIMPLE();
    return r;
}
int mkdir(const char *path, mode_t mode) {
    return mkdirat(AT_FDCWD, path, mode); }
int unlinkat(int d, const char *path, int flags) {
    REAL(int, unlinkat, int, const char *, int);
    char ap[4096];
    abspath_at(d, path, ap, sizeof(ap));
    PRE_SIMPLE((flags & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, ap);
    int r = real_unlinkat(d, path, flags);
    POST_SIMPLE();
    return r;
}
int unlink(const char *path) { return unlinkat(AT_FDCWD, path, 0); }
int rmdir(const char *path) { return unlinkat(AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char *path) {
    struct stat st;
    if (lstat(path, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(path);
    return unlink(path);
}
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    char ap[4096];
    abspath_at(d2, b, ap, sizeof(ap));
    PRE_SIMPLE(K_RENAME, ap);
    int r = real_renameat(d1, a, d2, b);
    POST_SIMPLE();
    return r;
}
int rename(const char *a, const char *b) {
    return renameat(AT_FDCWD, a, AT_FDCWD, b); }
