/* File-system seam of the simulator (LD_PRELOAD).
 *
 * While active, every file-system call of this process on a path below the
 * given prefix is one numbered operation.  Before it happens a decision is
 * taken - by the plan installed in this process, or by the scheduler at the
 * other end of a socket - to let it pass, make it fail, cut it short, or end
 * the process before, in the middle of or after it.  What happened is appended
 * to a log, with the data of writes, from which crash states are made.
 *
 * Calls on other paths, and all calls while inactive, are passed on untouched.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_TRUNC, K_FSYNC, K_CLOSE, K_RENAME, K_UNLINK, K_MKDIR,
       K_RMDIR, K_LINK, K_CHMOD, K_STAT, K_ACCESS, K_OPENDIR, K_FLOCK, K_READLINK };
enum { A_GO = 0, A_FAIL, A_SHORT, A_DIE, A_DIE_PART, A_DIE_AFTER, A_STICKY };
/* what a log record says happened */
enum { R_DONE = 0, R_FAILED, R_DIED };

#define MAXFD 4096
#define MAXRULES 64

static int active;
static char prefix[PATH_MAX];
static size_t prefix_len;
static int ctl_fd = -1, log_fd = -1;
static long n_ops;
static long n_fired;
static long quota = -1;
static int sticky_errno;
static struct { long op; int action; int arg; } rules[MAXRULES];
static int n_rules;
static struct { char used; char append; char *path; } fds[MAXFD];

#define REAL(ret, name, args) \
    static ret (*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ------------------------------------------------------------- control */

void popsim_start(const char *pre, int ctl, int log)
{
    strncpy(prefix, pre, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    ctl_fd = ctl;
    log_fd = log;
    n_ops = 0;
    n_fired = 0;
    quota = -1;
    sticky_errno = 0;
    n_rules = 0;
    active = 1;
}

void popsim_rule(long op, int action, int arg)
{
    if (n_rules < MAXRULES) {
        rules[n_rules].op = op;
        rules[n_rules].action = action;
        rules[n_rules].arg = arg;
        n_rules++;
    }
}

void popsim_quota(long bytes) { quota = bytes; }
long popsim_ops(void) { return n_ops; }
long popsim_fired(void) { return n_fired; }
void popsim_heal(void) { sticky_errno = 0; quota = -1; n_rules = 0; }

void popsim_stop(void)
{
    active = 0;
    ctl_fd = log_fd = -1;
}

/* ------------------------------------------------------------- helpers */

static long raw_write(int fd, const void *buf, size_t n)
{
    const char *p = buf;
    size_t left = n;
    while (left) {
        long r = syscall(SYS_write, fd, p, left);
        if (r <= 0) {
            if (r < 0 && errno == EINTR) continue;
            return -1;
        }
        p += r;
        left -= r;
    }
    return n;
}

static long raw_read(int fd, void *buf, size_t n)
{
    char *p = buf;
    size_t left = n;
    while (left) {
        long r = syscall(SYS_read, fd, p, left);
        if (r <= 0) {
            if (r < 0 && errno == EINTR) continue;
            return -1;
        }
        p += r;
        left -= r;
    }
    return n;
}

static void die(void)
{
    syscall(SYS_exit_group, 137);
}

/* absolute form of a path, in buf; NULL if it is not below the prefix */
static const char *mine(const char *path, char *buf)
{
    if (!active || !path) return NULL;
    if (path[0] != '/') {
        long n = syscall(SYS_getcwd, buf, PATH_MAX);
        if (n <= 0) return NULL;
        n = strlen(buf);
        if (n + strlen(path) + 2 > PATH_MAX) return NULL;
        buf[n] = '/';
        strcpy(buf + n + 1, path);
    } else {
        if (strlen(path) + 1 > PATH_MAX) return NULL;
        strcpy(buf, path);
    }
    if (strncmp(buf, prefix, prefix_len) != 0) return NULL;
    if (buf[prefix_len] != 0 && buf[prefix_len] != '/') return NULL;
    return buf;
}

static int tracked(int fd)
{
    return active && fd >= 0 && fd < MAXFD && fds[fd].used;
}

struct decision { int action, arg; };

static struct decision decide(int kind, const char *path)
{
    struct decision d = {A_GO, 0};
    long op = n_ops++;
    if (ctl_fd >= 0) {
        uint32_t head[2] = {(uint32_t)kind, (uint32_t)strlen(path)};
        int32_t rep[2];
        if (raw_write(ctl_fd, head, sizeof head) < 0 || raw_write(ctl_fd, path, head[1]) < 0 ||
            raw_read(ctl_fd, rep, sizeof rep) < 0)
            die();
        d.action = rep[0];
        d.arg = rep[1];
    } else {
        for (int i = 0; i < n_rules; i++)
            if (rules[i].op == op) {
                d.action = rules[i].action;
                d.arg = rules[i].arg;
            }
    }
    if (d.action == A_STICKY) {
        sticky_errno = d.arg;
        d.action = A_FAIL;
    } else if (sticky_errno && d.action == A_GO &&
               (kind == K_WRITE || kind == K_FSYNC || kind == K_TRUNC)) {
        d.action = A_FAIL;
        d.arg = sticky_errno;
    }
    if (d.action != A_GO) n_fired++;
    return d;
}

static void record(int kind, int what, const char *path, const char *path2, uint64_t ino,
                   int64_t a, int64_t b, const void *data, size_t len)
{
    if (log_fd < 0) return;
    struct { uint32_t kind, what, plen, p2len; uint64_t ino; int64_t a, b; uint64_t dlen; } h;
    h.kind = kind;
    h.what = what;
    h.plen = path ? strlen(path) : 0;
    h.p2len = path2 ? strlen(path2) : 0;
    h.ino = ino;
    h.a = a;
    h.b = b;
    h.dlen = len;
    raw_write(log_fd, &h, sizeof h);
    if (h.plen) raw_write(log_fd, path, h.plen);
    if (h.p2len) raw_write(log_fd, path2, h.p2len);
    if (len) raw_write(log_fd, data, len);
}

static uint64_t ino_of_fd(int fd, int64_t *size)
{
    struct stat st;
    if (syscall(SYS_fstat, fd, &st) != 0) return 0;
    if (size) *size = st.st_size;
    return st.st_ino;
}

static uint64_t ino_of_path(const char *path, int follow)
{
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, follow ? 0 : AT_SYMLINK_NOFOLLOW) != 0) return 0;
    return st.st_ino;
}

/* ------------------------------------------------------- one-path calls */

/* do CALL as an operation on path: fails or dies as decided */
#define PATH_OP(kind, abs, path2, A, B, CALL)                                   \
    do {                                                                        \
        struct decision d_ = decide(kind, abs);                                 \
        if (d_.action == A_DIE || d_.action == A_DIE_PART) {                    \
            record(kind, R_DIED, abs, path2, 0, A, B, NULL, 0);                 \
            die();                                                              \
        }                                                                       \
        if (d_.action == A_FAIL || d_.action == A_SHORT) {                      \
            int e_ = d_.arg ? d_.arg : EIO;                                     \
            record(kind, R_FAILED, abs, path2, 0, A, e_, NULL, 0);              \
            errno = e_;                                                         \
            return -1;                                                          \
        }                                                                       \
        uint64_t ino_ = ino_of_path(abs, 0);                                    \
        long r_ = CALL;                                                         \
        int err_ = errno;                                                       \
        record(kind, r_ < 0 ? R_FAILED : R_DONE, abs, path2, ino_, A,           \
               r_ < 0 ? err_ : B, NULL, 0);                                     \
        if (d_.action == A_DIE_AFTER) die();                                    \
        errno = err_;                                                           \
        return r_;                                                              \
    } while (0)

static int do_open(const char *abs, int flags, mode_t mode)
{
    struct decision d = decide(K_OPEN, abs);
    if (d.action == A_DIE || d.action == A_DIE_PART) {
        record(K_OPEN, R_DIED, abs, NULL, 0, flags, 0, NULL, 0);
        die();
    }
    if (d.action == A_FAIL || d.action == A_SHORT) {
        int e = d.arg ? d.arg : EIO;
        record(K_OPEN, R_FAILED, abs, NULL, 0, flags, e, NULL, 0);
        errno = e;
        return -1;
    }
    uint64_t before = ino_of_path(abs, 1);
    int fd = syscall(SYS_openat, AT_FDCWD, abs, flags, mode);
    if (fd < 0) {
        int e = errno;
        record(K_OPEN, R_FAILED, abs, NULL, 0, flags, e, NULL, 0);
        if (d.action == A_DIE_AFTER) die();
        errno = e;
        return -1;
    }
    /* b: 1 created, 2 truncated */
    int64_t b = 0;
    if (!before) b = 1;
    else if (flags & O_TRUNC) b = 2;
    record(K_OPEN, R_DONE, abs, NULL, ino_of_fd(fd, NULL), flags, b, NULL, 0);
    if (d.action == A_DIE_AFTER) die();
    if (fd < MAXFD) {
        fds[fd].used = 1;
        fds[fd].append = (flags & O_APPEND) != 0;
        free(fds[fd].path);
        fds[fd].path = strdup(abs);
    }
    return fd;
}

#define OPEN_BODY(name)                                                        \
    mode_t mode = 0;                                                           \
    if (flags & (O_CREAT | __O_TMPFILE)) {                                     \
        va_list ap;                                                            \
        va_start(ap, flags);                                                   \
        mode = va_arg(ap, mode_t);                                             \
        va_end(ap);                                                            \
    }                                                                          \
    char buf[PATH_MAX];                                                        \
    const char *abs = mine(path, buf);                                         \
    if (abs) return do_open(abs, flags, mode);

int open(const char *path, int flags, ...)
{
    OPEN_BODY(open)
    REAL(int, open, (const char *, int, ...));
    return real_open(path, flags, mode);
}

int open64(const char *path, int flags, ...)
{
    OPEN_BODY(open64)
    REAL(int, open64, (const char *, int, ...));
    return real_open64(path, flags, mode);
}

int openat(int dir, const char *path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    char buf[PATH_MAX];
    const char *abs = (dir == AT_FDCWD || (path && path[0] == '/')) ? mine(path, buf) : NULL;
    if (abs) return do_open(abs, flags, mode);
    REAL(int, openat, (int, const char *, int, ...));
    return real_openat(dir, path, flags, mode);
}

int openat64(int dir, const char *path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    char buf[PATH_MAX];
    const char *abs = (dir == AT_FDCWD || (path && path[0] == '/')) ? mine(path, buf) : NULL;
    if (abs) return do_open(abs, flags, mode);
    REAL(int, openat64, (int, const char *, int, ...));
    return real_openat64(dir, path, flags, mode);
}

int creat64(const char *path, mode_t mode) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat(const char *path, mode_t mode) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

#define ONE_PATH(ret, name, kind, decl, args, a)                               \
    ret name decl                                                              \
    {                                                                          \
        REAL(ret, name, decl);                                                 \
        char buf[PATH_MAX];                                                    \
        const char *abs = mine(path, buf);                                     \
        if (!abs) return real_##name args;                                     \
        PATH_OP(kind, abs, NULL, a, 0, real_##name args);                      \
    }

ONE_PATH(int, mkdir, K_MKDIR, (const char *path, mode_t mode), (path, mode), 0)
ONE_PATH(int, rmdir, K_RMDIR, (const char *path), (path), 0)
ONE_PATH(int, unlink, K_UNLINK, (const char *path), (path), 0)
ONE_PATH(int, remove, K_UNLINK, (const char *path), (path), 0)
ONE_PATH(int, chmod, K_CHMOD, (const char *path, mode_t mode), (path, mode), mode)
ONE_PATH(int, access, K_ACCESS, (const char *path, int mode), (path, mode), 0)
ONE_PATH(int, stat64, K_STAT, (const char *path, struct stat64 *st), (path, st), 0)
ONE_PATH(int, lstat64, K_STAT, (const char *path, struct stat64 *st), (path, st), 0)
ONE_PATH(int, stat, K_STAT, (const char *path, struct stat *st), (path, st), 0)
ONE_PATH(int, lstat, K_STAT, (const char *path, struct stat *st), (path, st), 0)

ssize_t readlink(const char *path, char *out, size_t n)
{
    REAL(ssize_t, readlink, (const char *, char *, size_t));
    char buf[PATH_MAX];
    const char *abs = mine(path, buf);
    if (!abs) return real_readlink(path, out, n);
    PATH_OP(K_READLINK, abs, NULL, 0, 0, real_readlink(path, out, n));
}

int __xstat64(int ver, const char *path, struct stat64 *st)
{
    REAL(int, __xstat64, (int, const char *, struct stat64 *));
    char buf[PATH_MAX];
    const char *abs = mine(path, buf);
    if (!abs) return real___xstat64(ver, path, st);
    PATH_OP(K_STAT, abs, NULL, 0, 0, real___xstat64(ver, path, st));
}

int __lxstat64(int ver, const char *path, struct stat64 *st)
{
    REAL(int, __lxstat64, (int, const char *, struct stat64 *));
    char buf[PATH_MAX];
    const char *abs = mine(path, buf);
    if (!abs) return real___lxstat64(ver, path, st);
    PATH_OP(K_STAT, abs, NULL, 0, 0, real___lxstat64(ver, path, st));
}

#define AT_PATH(ret, name, kind, decl, args, a)                                \
    ret name decl                                                              \
    {                                                                          \
        REAL(ret, name, decl);                                                 \
        char buf[PATH_MAX];                                                    \
        const char *abs = (dir == AT_FDCWD || (path && path[0] == '/')) ? mine(path, buf) : NULL; \
        if (!abs) return real_##name args;                                     \
        PATH_OP(kind, abs, NULL, a, 0, real_##name args);                      \
    }

AT_PATH(int, mkdirat, K_MKDIR, (int dir, const char *path, mode_t mode), (dir, path, mode), 0)
AT_PATH(int, unlinkat, K_UNLINK, (int dir, const char *path, int flags), (dir, path, flags), 0)
AT_PATH(int, fchmodat, K_CHMOD, (int dir, const char *path, mode_t mode, int flags), (dir, path, mode, flags), mode)
AT_PATH(int, faccessat, K_ACCESS, (int dir, const char *path, int mode, int flags), (dir, path, mode, flags), 0)
AT_PATH(int, fstatat64, K_STAT, (int dir, const char *path, struct stat64 *st, int flags), (dir, path, st, flags), 0)

DIR *opendir(const char *path)
{
    REAL(DIR *, opendir, (const char *));
    char buf[PATH_MAX];
    const char *abs = mine(path, buf);
    if (abs) {
        struct decision d = decide(K_OPENDIR, abs);
        record(K_OPENDIR, d.action ? R_FAILED : R_DONE, abs, NULL, 0, 0, 0, NULL, 0);
        if (d.action == A_DIE || d.action == A_DIE_PART || d.action == A_DIE_AFTER) die();
        if (d.action != A_GO) {
            errno = d.arg ? d.arg : EIO;
            return NULL;
        }
    }
    return real_opendir(path);
}

/* ------------------------------------------------------- two-path calls */

#define TWO_PATH(name, kind, decl, from, to, args)                             \
    int name decl                                                              \
    {                                                                          \
        REAL(int, name, decl);                                                 \
        char buf[PATH_MAX], buf2[PATH_MAX];                                    \
        const char *a = mine(from, buf), *b = mine(to, buf2);                  \
        if (!a && !b) return real_##name args;                                 \
        PATH_OP(kind, (a ? a : from), (b ? b : to), 0, 0, real_##name args);   \
    }

TWO_PATH(rename, K_RENAME, (const char *from, const char *to), from, to, (from, to))
TWO_PATH(renameat, K_RENAME, (int d1, const char *from, int d2, const char *to), from, to, (d1, from, d2, to))
TWO_PATH(link, K_LINK, (const char *from, const char *to), from, to, (from, to))
TWO_PATH(linkat, K_LINK, (int d1, const char *from, int d2, const char *to, int f), from, to, (d1, from, d2, to, f))

int symlink(const char *target, const char *path)
{
    REAL(int, symlink, (const char *, const char *));
    char buf[PATH_MAX];
    const char *abs = mine(path, buf);
    if (!abs) return real_symlink(target, path);
    PATH_OP(K_LINK, abs, target, 1, 0, real_symlink(target, path));
}

/* ------------------------------------------------------ descriptor calls */

static long write_op(int fd, const void *data, size_t n, int64_t off, int positioned)
{
    const char *path = fds[fd].path;
    int64_t size = 0;
    uint64_t ino = ino_of_fd(fd, &size);
    if (!positioned) off = fds[fd].append ? size : (int64_t)syscall(SYS_lseek, fd, 0L, SEEK_CUR);
    struct decision d = decide(K_WRITE, path);
    size_t want = n;
    int e = 0, die_after = d.action == A_DIE_AFTER;
    if (d.action == A_DIE) {
        record(K_WRITE, R_DIED, path, NULL, ino, off, 0, NULL, 0);
        die();
    }
    if (d.action == A_FAIL) e = d.arg ? d.arg : EIO;
    if (d.action == A_SHORT || d.action == A_DIE_PART) {
        /* arg: thousandths of the data that get through */
        want = (size_t)((double)n * (d.arg % 1000) / 1000.0);
        if (want == 0 && d.action == A_SHORT) want = n > 1 ? 1 : n;
        if (d.action == A_DIE_PART) die_after = 1;
    }
    if (!e && quota >= 0) {
        int64_t growth = off + (int64_t)want - size;
        if (growth > quota) {
            int64_t fits = (int64_t)want - (growth - quota);
            n_fired++;
            if (fits <= 0) e = ENOSPC;
            else want = fits;
        }
    }
    if (e) {
        record(K_WRITE, R_FAILED, path, NULL, ino, off, e, NULL, 0);
        errno = e;
        return -1;
    }
    long r = positioned ? syscall(SYS_pwrite64, fd, data, want, off) : syscall(SYS_write, fd, data, want);
    int err = errno;
    if (r >= 0 && quota >= 0) {
        int64_t growth = off + r - size;
        if (growth > 0) quota -= growth;
    }
    record(K_WRITE, r < 0 ? R_FAILED : R_DONE, path, NULL, ino, off, r < 0 ? err : r, data, r < 0 ? 0 : r);
    if (die_after) die();
    errno = err;
    return r;
}

ssize_t write(int fd, const void *data, size_t n)
{
    if (tracked(fd)) return write_op(fd, data, n, 0, 0);
    REAL(ssize_t, write, (int, const void *, size_t));
    return real_write(fd, data, n);
}

ssize_t pwrite64(int fd, const void *data, size_t n, off64_t off)
{
    if (tracked(fd)) return write_op(fd, data, n, off, 1);
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t));
    return real_pwrite64(fd, data, n, off);
}

ssize_t pwrite(int fd, const void *data, size_t n, off_t off)
{
    if (tracked(fd)) return write_op(fd, data, n, off, 1);
    REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
    return real_pwrite(fd, data, n, off);
}

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (tracked(fd)) {
        for (int i = 0; i < cnt; i++)
            if (iov[i].iov_len) return write_op(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
        return 0;
    }
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    return real_writev(fd, iov, cnt);
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    if (tracked(out)) {
        /* as one read and one write */
        size_t m = n > (1 << 20) ? (1 << 20) : n;
        char *buf = malloc(m);
        long r = off ? syscall(SYS_pread64, in, buf, m, *off) : syscall(SYS_read, in, buf, m);
        if (r > 0) {
            long w = write_op(out, buf, r, 0, 0);
            int e = errno;
            if (off && w > 0) *off += w;
            if (!off) {
                long back = r - (w > 0 ? w : 0);
                if (back) syscall(SYS_lseek, in, -back, SEEK_CUR);
            }
            free(buf);
            errno = e;
            return w;
        }
        free(buf);
        return r;
    }
    REAL(ssize_t, sendfile64, (int, int, off64_t *, size_t));
    return real_sendfile64(out, in, off, n);
}

ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }

ssize_t copy_file_range(int in, off64_t *ioff, int out, off64_t *ooff, size_t n, unsigned flags)
{
    if (tracked(in) || tracked(out)) {
        errno = EXDEV;
        return -1;
    }
    REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));
    return real_copy_file_range(in, ioff, out, ooff, n, flags);
}

static long read_op(int fd, void *data, size_t n, int64_t off, int positioned)
{
    struct decision d = decide(K_READ, fds[fd].path);
    if (d.action == A_DIE || d.action == A_DIE_PART) {
        record(K_READ, R_DIED, fds[fd].path, NULL, 0, off, 0, NULL, 0);
        die();
    }
    if (d.action == A_FAIL) {
        int e = d.arg ? d.arg : EIO;
        record(K_READ, R_FAILED, fds[fd].path, NULL, 0, off, e, NULL, 0);
        errno = e;
        return -1;
    }
    if (d.action == A_SHORT && n > 1) {
        n = (size_t)((double)n * (d.arg % 1000) / 1000.0);
        if (n == 0) n = 1;
    }
    long r = positioned ? syscall(SYS_pread64, fd, data, n, off) : syscall(SYS_read, fd, data, n);
    int err = errno;
    record(K_READ, r < 0 ? R_FAILED : R_DONE, fds[fd].path, NULL, 0, off, r, NULL, 0);
    if (d.action == A_DIE_AFTER) die();
    errno = err;
    return r;
}

ssize_t read(int fd, void *data, size_t n)
{
    if (tracked(fd)) return read_op(fd, data, n, -1, 0);
    REAL(ssize_t, read, (int, void *, size_t));
    return real_read(fd, data, n);
}

ssize_t pread64(int fd, void *data, size_t n, off64_t off)
{
    if (tracked(fd)) return read_op(fd, data, n, off, 1);
    REAL(ssize_t, pread64, (int, void *, size_t, off64_t));
    return real_pread64(fd, data, n, off);
}

ssize_t pread(int fd, void *data, size_t n, off_t off)
{
    if (tracked(fd)) return read_op(fd, data, n, off, 1);
    REAL(ssize_t, pread, (int, void *, size_t, off_t));
    return real_pread(fd, data, n, off);
}

#define FD_OP(kind, A, CALL)                                                    \
    do {                                                                        \
        const char *p_ = fds[fd].path;                                          \
        uint64_t ino_ = ino_of_fd(fd, NULL);                                    \
        struct decision d_ = decide(kind, p_);                                  \
        if (d_.action == A_DIE || d_.action == A_DIE_PART) {                    \
            record(kind, R_DIED, p_, NULL, ino_, A, 0, NULL, 0);                \
            die();                                                              \
        }                                                                       \
        if (d_.action == A_FAIL || d_.action == A_SHORT) {                      \
            int e_ = d_.arg ? d_.arg : EIO;                                     \
            record(kind, R_FAILED, p_, NULL, ino_, A, e_, NULL, 0);             \
            errno = e_;                                                         \
            return -1;                                                          \
        }                                                                       \
        long r_ = CALL;                                                         \
        int err_ = errno;                                                       \
        record(kind, r_ < 0 ? R_FAILED : R_DONE, p_, NULL, ino_, A, 0, NULL, 0);\
        if (d_.action == A_DIE_AFTER) die();                                    \
        errno = err_;                                                           \
        return r_;                                                              \
    } while (0)

int ftruncate64(int fd, off64_t size)
{
    REAL(int, ftruncate64, (int, off64_t));
    if (!tracked(fd)) return real_ftruncate64(fd, size);
    FD_OP(K_TRUNC, size, real_ftruncate64(fd, size));
}

int ftruncate(int fd, off_t size)
{
    REAL(int, ftruncate, (int, off_t));
    if (!tracked(fd)) return real_ftruncate(fd, size);
    FD_OP(K_TRUNC, size, real_ftruncate(fd, size));
}

int fsync(int fd)
{
    REAL(int, fsync, (int));
    if (!tracked(fd)) return real_fsync(fd);
    FD_OP(K_FSYNC, 0, real_fsync(fd));
}

int fdatasync(int fd)
{
    REAL(int, fdatasync, (int));
    if (!tracked(fd)) return real_fdatasync(fd);
    FD_OP(K_FSYNC, 0, real_fdatasync(fd));
}

int fchmod(int fd, mode_t mode)
{
    REAL(int, fchmod, (int, mode_t));
    if (!tracked(fd)) return real_fchmod(fd, mode);
    FD_OP(K_CHMOD, mode, real_fchmod(fd, mode));
}

int flock(int fd, int op)
{
    REAL(int, flock, (int, int));
    if (!tracked(fd)) return real_flock(fd, op);
    if (ctl_fd >= 0 && !(op & LOCK_NB) && !(op & LOCK_UN)) {
        /* waiting is asking again whenever the scheduler says so */
        const char *p = fds[fd].path;
        for (;;) {
            struct decision d = decide(K_FLOCK, p);
            if (d.action == A_DIE || d.action == A_DIE_PART) die();
            if (d.action == A_FAIL || d.action == A_SHORT) {
                errno = d.arg ? d.arg : EIO;
                return -1;
            }
            int r = real_flock(fd, op | LOCK_NB);
            int e = errno;
            if (r == 0 || e != EWOULDBLOCK) {
                record(K_FLOCK, r < 0 ? R_FAILED : R_DONE, p, NULL, 0, op, 0, NULL, 0);
                if (d.action == A_DIE_AFTER) die();
                errno = e;
                return r;
            }
            if (d.action == A_DIE_AFTER) die();
        }
    }
    FD_OP(K_FLOCK, op, real_flock(fd, op));
}

static int fcntl_op(int fd, int cmd, void *arg, int (*real)(int, int, ...))
{
    if (!tracked(fd) || (cmd != F_SETLK && cmd != F_SETLKW && cmd != F_OFD_SETLK && cmd != F_OFD_SETLKW))
        return real(fd, cmd, arg);
    int wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW;
    int now = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
    for (;;) {
        struct decision d = decide(K_FLOCK, fds[fd].path);
        if (d.action == A_DIE || d.action == A_DIE_PART) die();
        if (d.action == A_FAIL || d.action == A_SHORT) {
            errno = d.arg ? d.arg : EIO;
            return -1;
        }
        int r = real(fd, ctl_fd >= 0 ? now : cmd, arg);
        int e = errno;
        if (d.action == A_DIE_AFTER) die();
        if (r == 0 || !wait || ctl_fd < 0 || (e != EAGAIN && e != EACCES)) {
            errno = e;
            return r;
        }
    }
}

int fcntl(int fd, int cmd, ...)
{
    REAL(int, fcntl, (int, int, ...));
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    return fcntl_op(fd, cmd, arg, real_fcntl);
}

int fcntl64(int fd, int cmd, ...)
{
    REAL(int, fcntl64, (int, int, ...));
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    return fcntl_op(fd, cmd, arg, real_fcntl64);
}

int close(int fd)
{
    REAL(int, close, (int));
    if (!tracked(fd)) {
        if (fd >= 0 && fd < MAXFD && fds[fd].used) {
            fds[fd].used = 0;
        }
        return real_close(fd);
    }
    struct decision d = decide(K_CLOSE, fds[fd].path);
    uint64_t ino = ino_of_fd(fd, NULL);
    if (d.action == A_DIE || d.action == A_DIE_PART) {
        record(K_CLOSE, R_DIED, fds[fd].path, NULL, ino, 0, 0, NULL, 0);
        die();
    }
    /* a failing close closes the descriptor all the same */
    int r = real_close(fd);
    fds[fd].used = 0;
    record(K_CLOSE, R_DONE, fds[fd].path, NULL, ino, 0, 0, NULL, 0);
    if (d.action == A_DIE_AFTER) die();
    if (d.action == A_FAIL || d.action == A_SHORT) {
        errno = d.arg ? d.arg : EIO;
        return -1;
    }
    return r;
}
