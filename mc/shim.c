/* File system call interposer (LD_PRELOAD). Inactive until mc_arm().
 *
 * Only calls whose path lies under a prefix are intercepted. Modes:
 *  RECORD  log every mutating operation, with its data, to a descriptor
 *  KILL    die right before the k-th mutating operation, or in the middle of it
 *  FAIL    the k-th operation fails with an errno (or: all from the k-th on,
 *          or: a write transfers half and the next one fails)
 *  SCHED   announce operations on a socket and wait for permission
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, RECORD, KILL, FAIL, SCHED };
enum { F_MID = 1, F_STICKY = 2, F_SHORT = 4, F_LIST = 8 };

static volatile int mode = OFF;
static char prefix[PATH_MAX];
static size_t plen;
static long target, *counter, own_counter;
static int err, flags, fd_ctl = -1, mute, short_hit;

void mc_arm(int m, const char *p, long k, int e, int fl, int fd, long *shared) {
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    target = k; err = e; flags = fl; fd_ctl = fd;
    own_counter = 0; short_hit = 0;
    counter = shared ? shared : &own_counter;
    mute = 0;
    mode = m;
}
void mc_disarm(void) { mode = OFF; }
void mc_mute(int m) { mute = m; }
long mc_count(void) { return counter ? *counter : 0; }

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int under(const char *p) { return mode != OFF && !mute && !strncmp(p, prefix, plen) && (p[plen] == '/' || !p[plen]); }

static int abspath(int dirfd, const char *p, char *out) {
    if (mode == OFF || mute || !p) return 0;
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); }
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        if (snprintf(out, PATH_MAX, "%s/%s", base, p) >= PATH_MAX) return 0;
    }
    return under(out);
}

static int fdpath(int fd, char *out) {
    if (mode == OFF || mute) return 0;
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, l, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0;
    return under(out);
}

static void out(const void *b, size_t n) {
    const char *p = b;
    while (n) {
        ssize_t w = syscall(SYS_write, fd_ctl, p, n);
        if (w <= 0) { if (w < 0 && errno == EINTR) continue; return; }
        p += w; n -= w;
    }
}

/* one record: op \0 path \0 path2 \0 num \0 len \0 data */
static void rec(const char *op, const char *a, const char *b, long num, const void *data, size_t len) {
    int e = errno;
    char h[3 * PATH_MAX];
    int n = snprintf(h, sizeof h, "%s%c%s%c%s%c%ld%c%zu%c", op, 0, a, 0, b ? b : "", 0, num, 0, len, 0);
    out(h, n);
    if (len) out(data, len);
    errno = e;
}

static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

static int interesting(const char *p) {
    const char *b = strrchr(p, '/'); b = b ? b + 1 : p;
    size_t n = strlen(b);
    if (b[0] == '.') return 1;
    if (n > 4 && !strcmp(b + n - 4, ".rev")) return 1;
    if (n > 10 && !strcmp(b + n - 10, ".chunk.lzo")) return 1;
    if (n == 22 && strncmp(b, "tmp", 3)) return 1;
    if (!strcmp(b, "last")) return 1;
    return 0;
}

static void say(const char *kind, const char *op, const char *p) {
    int e = errno;
    char m[2 * PATH_MAX], r;
    snprintf(m, sizeof m, "%s %s %s\n", kind, op, p);
    out(m, strlen(m));
    ssize_t n;
    do n = syscall(SYS_read, fd_ctl, &r, 1); while (n < 0 && errno == EINTR);
    if (n != 1) die();
    errno = e;
}

/* An external effect (a call of another program). */
static int before(const char *op, const char *p, int mut, int iswrite);
void mc_point(const char *label) {
    if (mute) return;
    if (mode == SCHED) say("point", "call", label);
    if (mode == KILL) before("call", label, 1, 0);
    if (mode == RECORD) rec("call", label, 0, 0, 0, 0);
}

/* Before an operation. mut: it changes the disk. Returns 1 if it must fail
 * (errno set), 2 if a write must be cut short / interrupted half way. */
static int before(const char *op, const char *p, int mut, int iswrite) {
    switch (mode) {
    case SCHED:
        if (interesting(p)) say("point", op, p);
        return 0;
    case KILL:
        if (!mut) return 0;
        ++*counter;
        if (flags & F_LIST) rec(op, p, 0, iswrite, 0, 0);
        if (*counter != target) return 0;
        if (iswrite && (flags & F_MID)) return 2;
        if (flags & F_MID) return 0;
        die();
        return 0;
    case FAIL:
        ++*counter;
        if (flags & F_LIST) rec(op, p, 0, mut + 2 * iswrite, 0, 0);
        if (short_hit == 1 && iswrite) { short_hit = 2; errno = err; return 1; }
        if (*counter == target || ((flags & F_STICKY) && target && *counter >= target)) {
            if (iswrite && (flags & F_SHORT)) { short_hit = 1; return 2; }
            errno = err;
            return 1;
        }
        return 0;
    }
    return 0;
}

static long off_of(int fd) { return (long)syscall(SYS_lseek, fd, 0L, SEEK_CUR); }

/* ------------------------------------------------------------ open */
static int do_open(int dirfd, const char *path, int oflags, mode_t m) {
    char p[PATH_MAX];
    if (!abspath(dirfd, path, p)) return syscall(SYS_openat, dirfd, path, oflags, m);
    struct stat st;
    int exists = !syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0);
    int mut = ((oflags & O_CREAT) && !exists) || ((oflags & O_TRUNC) && exists);
    if (before(mut ? "create" : "open", p, mut, 0) == 1) return -1;
    int fd = syscall(SYS_openat, dirfd, path, oflags, m);
    if (fd >= 0 && mode == RECORD) {
        if (!exists) rec("create", p, 0, m, 0, 0);
        else if (oflags & O_TRUNC) rec("truncate", p, 0, 0, 0, 0);
    }
    return fd;
}
#define OPEN_MODE(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { OPEN_MODE(fl) return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPEN_MODE(fl) return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { OPEN_MODE(fl) return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPEN_MODE(fl) return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

static FILE *do_fopen(const char *p, const char *md, FILE *(*real)(const char *, const char *)) {
    char a[PATH_MAX];
    if (abspath(AT_FDCWD, p, a)) abort(); /* not used by the code under test */
    return real(p, md);
}
FILE *fopen(const char *p, const char *md) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, md, real_fopen); }
FILE *fopen64(const char *p, const char *md) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, md, real_fopen64); }

DIR *opendir(const char *path) {
    REAL(DIR *, opendir, const char *);
    char p[PATH_MAX];
    if (mode == FAIL && abspath(AT_FDCWD, path, p) && before("opendir", p, 0, 0) == 1) return 0;
    return real_opendir(path);
}

#define READDIR(name, type) \
type *name(DIR *d) { \
    REAL(type *, name, DIR *); \
    char p[PATH_MAX]; \
    if (mode == FAIL && fdpath(dirfd(d), p) && before("readdir", p, 0, 0) == 1) return 0; \
    return real_##name(d); \
}
READDIR(readdir, struct dirent)
READDIR(readdir64, struct dirent64)

static int stat_fails(int d, const char *path, const char *what) {
    char p[PATH_MAX];
    if (mode != FAIL) return 0;
    int ok = path && *path ? abspath(d, path, p) : fdpath(d, p);
    return ok && before(what, p, 0, 0) == 1;
}
int stat(const char *path, struct stat *b) {
    return stat_fails(AT_FDCWD, path, "stat") ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, path, b, 0);
}
int lstat(const char *path, struct stat *b) {
    return stat_fails(AT_FDCWD, path, "lstat") ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, path, b, AT_SYMLINK_NOFOLLOW);
}
int fstatat(int d, const char *path, struct stat *b, int fl) {
    return stat_fails(d, path, "stat") ? -1 : (int)syscall(SYS_newfstatat, d, path, b, fl);
}
int fstat(int fd, struct stat *b) {
    return stat_fails(fd, 0, "fstat") ? -1 : (int)syscall(SYS_fstat, fd, b);
}
int stat64(const char *path, struct stat64 *b) { return stat(path, (struct stat *)b); }
int lstat64(const char *path, struct stat64 *b) { return lstat(path, (struct stat *)b); }
int fstatat64(int d, const char *path, struct stat64 *b, int fl) { return fstatat(d, path, (struct stat *)b, fl); }
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }

/* ------------------------------------------------------------ data */
ssize_t read(int fd, void *b, size_t n) {
    char p[PATH_MAX];
    if (mode == FAIL && fdpath(fd, p) && before("read", p, 0, 0) == 1) return -1;
    return syscall(SYS_read, fd, b, n);
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int has_off) {
    char p[PATH_MAX];
    if (mode == OFF || mute || fd == fd_ctl || !fdpath(fd, p))
        return has_off ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
    int r = before("write", p, 1, 1);
    if (r == 1) return -1;
    size_t len = r == 2 ? n / 2 : n;
    long at = has_off ? off : off_of(fd);
    if (!has_off && (fcntl(fd, F_GETFL) & O_APPEND)) { struct stat st; syscall(SYS_fstat, fd, &st); at = st.st_size; }
    if (r == 2 && mode == FAIL && len == 0) { errno = err; return -1; }
    ssize_t w = has_off ? syscall(SYS_pwrite64, fd, b, len, off) : syscall(SYS_write, fd, b, len);
    if (r == 2 && mode == KILL) die();
    if (w > 0 && mode == RECORD) rec("write", p, 0, at, b, w);
    return w;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    char p[PATH_MAX];
    if (mode == OFF || !fdpath(fd, p)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t w = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (w < 0) return t ? t : -1;
        t += w;
        if ((size_t)w < v[i].iov_len) break;
    }
    return t;
}

/* Kernel side copies become a plain read and write, so they can be recorded and cut. */
static ssize_t copy_by_hand(int out_fd, int in_fd, off_t *in_off, size_t n) {
    if (n > (1 << 20)) n = 1 << 20;
    char *b = malloc(n);
    ssize_t r = in_off ? syscall(SYS_pread64, in_fd, b, n, *in_off) : read(in_fd, b, n);
    if (r > 0) {
        ssize_t w = do_write(out_fd, b, r, 0, 0);
        if (w >= 0 && in_off) *in_off += w;
        if (w >= 0 && w < r && !in_off) syscall(SYS_lseek, in_fd, (long)(w - r), SEEK_CUR);
        r = w;
    }
    int e = errno; free(b); errno = e;
    return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    char p[PATH_MAX];
    if (mode == OFF || !fdpath(o, p)) return syscall(SYS_sendfile, o, i, off, n);
    return copy_by_hand(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    char p[PATH_MAX];
    if (mode == OFF || !fdpath(o, p)) return syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
    errno = ENOSYS;
    return -1;
}
static int do_ftruncate(int fd, off_t n) {
    char p[PATH_MAX];
    if (!fdpath(fd, p)) return syscall(SYS_ftruncate, fd, n);
    if (before("ftruncate", p, 1, 0) == 1) return -1;
    int r = syscall(SYS_ftruncate, fd, n);
    if (!r && mode == RECORD) rec("truncate", p, 0, n, 0, 0);
    return r;
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftruncate(fd, n); }
int truncate(const char *path, off_t n) {
    char p[PATH_MAX];
    if (!abspath(AT_FDCWD, path, p)) return syscall(SYS_truncate, path, n);
    if (before("truncate", p, 1, 0) == 1) return -1;
    int r = syscall(SYS_truncate, path, n);
    if (!r && mode == RECORD) rec("truncate", p, 0, n, 0, 0);
    return r;
}
int truncate64(const char *path, off64_t n) { return truncate(path, n); }
static int do_fallocate(int fd, int m, off_t o, off_t n) {
    char p[PATH_MAX];
    if (fdpath(fd, p)) { errno = EOPNOTSUPP; return -1; }
    return syscall(SYS_fallocate, fd, m, o, n);
}
int fallocate(int fd, int m, off_t o, off_t n) { return do_fallocate(fd, m, o, n); }
int fallocate64(int fd, int m, off64_t o, off64_t n) { return do_fallocate(fd, m, o, n); }

/* ------------------------------------------------------------ durability */
static int do_fsync(int fd, long nr, const char *op) {
    char p[PATH_MAX];
    if (!fdpath(fd, p)) return syscall(nr, fd);
    if (before(op, p, 1, 0) == 1) return -1;
    if (mode == RECORD) rec("fsync", p, 0, 0, 0, 0);
    return 0;
}
int fsync(int fd) { return do_fsync(fd, SYS_fsync, "fsync"); }
int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync, "fsync"); }
void sync(void) {
    if (mode == OFF) return; /* global to the machine: only its place in the order matters */
    if (mute) return;
    before("sync", prefix, 1, 0);
    if (mode == RECORD) rec("sync", prefix, 0, 0, 0, 0);
}
int syncfs(int fd) {
    char p[PATH_MAX];
    if (!fdpath(fd, p)) return syscall(SYS_syncfs, fd);
    if (before("sync", p, 1, 0) == 1) return -1;
    if (mode == RECORD) rec("sync", p, 0, 0, 0, 0);
    return 0;
}

/* ------------------------------------------------------------ names */
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
    char p[PATH_MAX], q[PATH_MAX];
    int u = abspath(d1, a, p), v = abspath(d2, b, q);
    if (!u && !v) return syscall(SYS_renameat2, d1, a, d2, b, fl);
    if (before("rename", v ? q : p, 1, 0) == 1) return -1;
    int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
    if (!r && mode == RECORD) rec("rename", p, q, 0, 0, 0);
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }

#define NAMEOP(fn, op, args, dirfd, path, call, mut) \
    int fn args { \
        char p[PATH_MAX]; \
        if (!abspath(dirfd, path, p)) return call; \
        if (before(op, p, mut, 0) == 1) return -1; \
        int r = call; \
        if (!r && mode == RECORD) rec(op, p, 0, 0, 0, 0); \
        return r; \
    }
NAMEOP(unlink, "unlink", (const char *a), AT_FDCWD, a, syscall(SYS_unlink, a), 1)
NAMEOP(unlinkat, "unlink", (int d, const char *a, int fl), d, a, syscall(SYS_unlinkat, d, a, fl), 1)
NAMEOP(rmdir, "rmdir", (const char *a), AT_FDCWD, a, syscall(SYS_rmdir, a), 1)
NAMEOP(mkdir, "mkdir", (const char *a, mode_t m), AT_FDCWD, a, syscall(SYS_mkdir, a, m), 1)
NAMEOP(mkdirat, "mkdir", (int d, const char *a, mode_t m), d, a, syscall(SYS_mkdirat, d, a, m), 1)

static int do_chmod(int d, const char *a, mode_t m, int fl) {
    char p[PATH_MAX];
    if (!abspath(d, a, p)) return syscall(SYS_fchmodat, d, a, m);
    if (before("chmod", p, 1, 0) == 1) return -1;
    int r = syscall(SYS_fchmodat, d, a, m);
    if (!r && mode == RECORD) rec("chmod", p, 0, m, 0, 0);
    return r;
}
int chmod(const char *a, mode_t m) { return do_chmod(AT_FDCWD, a, m, 0); }
int fchmodat(int d, const char *a, mode_t m, int fl) { return do_chmod(d, a, m, fl); }
int fchmod(int fd, mode_t m) {
    char p[PATH_MAX];
    if (!fdpath(fd, p)) return syscall(SYS_fchmod, fd, m);
    if (before("chmod", p, 1, 0) == 1) return -1;
    int r = syscall(SYS_fchmod, fd, m);
    if (!r && mode == RECORD) rec("chmod", p, 0, m, 0, 0);
    return r;
}
static int do_symlink(const char *t, int d, const char *a) {
    char p[PATH_MAX];
    if (!abspath(d, a, p)) return syscall(SYS_symlinkat, t, d, a);
    if (before("symlink", p, 1, 0) == 1) return -1;
    int r = syscall(SYS_symlinkat, t, d, a);
    if (!r && mode == RECORD) rec("symlink", p, t, 0, 0, 0);
    return r;
}
int symlink(const char *t, const char *a) { return do_symlink(t, AT_FDCWD, a); }
int symlinkat(const char *t, int d, const char *a) { return do_symlink(t, d, a); }
static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
    char p[PATH_MAX], q[PATH_MAX];
    int u = abspath(d1, a, p), v = abspath(d2, b, q);
    if (!u && !v) return syscall(SYS_linkat, d1, a, d2, b, fl);
    if (before("link", q, 1, 0) == 1) return -1;
    int r = syscall(SYS_linkat, d1, a, d2, b, fl);
    if (!r && mode == RECORD) rec("link", p, q, 0, 0, 0);
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl); }

/* ------------------------------------------------------------ locks */
int flock(int fd, int op) {
    char p[PATH_MAX];
    if (mode == FAIL && fdpath(fd, p) && !(op & LOCK_UN) && before("flock", p, 0, 0) == 1) return -1;
    if (mode != SCHED || mute || !fdpath(fd, p)) return syscall(SYS_flock, fd, op);
    if (op & LOCK_UN) { say("point", "unlock", p); return syscall(SYS_flock, fd, op); }
    say("point", (op & LOCK_EX) ? "lock-ex" : "lock-sh", p);
    if (op & LOCK_NB) return syscall(SYS_flock, fd, op);
    for (;;) {
        if (!syscall(SYS_flock, fd, op | LOCK_NB)) return 0;
        if (errno != EWOULDBLOCK) return -1;
        say("blocked", "lock", p);
    }
}
