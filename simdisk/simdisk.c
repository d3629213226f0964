/* simdisk: owns the system calls on files below a prefix.
 *
 * Loaded with LD_PRELOAD, inactive until simdisk_start().  Then
 *  - every call that changes a file below the prefix is written, with its data,
 *    to a log from which the disk image at any crash point can be rebuilt, and
 *  - reads and writes can be split, interrupted or made to fail at chosen points.
 * Everything is decided by the rules given by the simulator: no clock, no
 * randomness.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_SYNC, OP_MARK, OP_FAULT, OP_READ, OP_CLOSE };
/* fault classes */
enum { CL_READ = 0, CL_WRITE, CL_OPEN, CL_META, CL_CLOSE, NCLASS };
enum { K_ERRNO = 1, K_SHORT, K_EINTR, K_EOF, K_STICKY };

#define MAXFD 4096
#define MAXRULE 256
static char prefix[PATH_MAX];
static size_t prefix_len;
static int log_fd = -1;
static int active;
static int log_reads;
static int32_t file_id[MAXFD];           /* 0: not ours, else id of the path */
static struct { int cls, nth, kind, arg, used; char sub[64]; } rules[MAXRULE];
static int nrules;
static long counts[NCLASS];
static long fired;
static int split_reads, split_writes;      /* 0: off, else maximum bytes per call */

static void raw_write(int fd, const void *p, size_t n)
{
    const char *c = p;
    while (n) {
        long r = syscall(SYS_write, fd, c, n);
        if (r < 0) { if (errno == EINTR) continue; return; }
        c += r; n -= r;
    }
}

static void logrec(int op, int id, int64_t off, int64_t len, const char *p1, const char *p2, const void *data)
{
    if (log_fd < 0) return;
    int e = errno;
    int64_t h[6];
    size_t l1 = p1 ? strlen(p1) : 0, l2 = p2 ? strlen(p2) : 0;
    h[0] = op; h[1] = id; h[2] = off; h[3] = len; h[4] = (int64_t)l1 | ((int64_t)l2 << 32); h[5] = data ? len : 0;
    raw_write(log_fd, h, sizeof h);
    if (l1) raw_write(log_fd, p1, l1);
    if (l2) raw_write(log_fd, p2, l2);
    if (data && len > 0) raw_write(log_fd, data, len);
    errno = e;
}

void simdisk_start(const char *pfx, int logfd, int reads)
{
    snprintf(prefix, sizeof prefix, "%s", pfx);
    prefix_len = strlen(prefix);
    log_fd = logfd;
    log_reads = reads;
    memset(counts, 0, sizeof counts);
    fired = 0;
    nrules = 0;
    split_reads = split_writes = 0;
    active = 1;
}
void simdisk_stop(void) { active = 0; log_fd = -1; }
void simdisk_mark(long n) { if (active) logrec(OP_MARK, 0, n, 0, 0, 0, 0); }
void simdisk_split(int r, int w) { split_reads = r; split_writes = w; }
long simdisk_fired(void) { return fired; }
long simdisk_count(int cls) { return counts[cls]; }
void simdisk_adopt(int fd, int id) { if (fd >= 0 && fd < MAXFD) file_id[fd] = id; }
int simdisk_rule(int cls, int nth, int kind, int arg, const char *sub)
{
    if (nrules >= MAXRULE) return -1;
    rules[nrules].cls = cls; rules[nrules].nth = nth; rules[nrules].kind = kind;
    rules[nrules].arg = arg; rules[nrules].used = 0;
    snprintf(rules[nrules].sub, sizeof rules[nrules].sub, "%s", sub ? sub : "");
    return nrules++;
}

#define MAXPATH 512
static char *paths[MAXPATH];
static int npaths;
static int path_id(const char *p)
{
    for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], p)) return i + 1;
    if (npaths >= MAXPATH) return 0;
    paths[npaths++] = strdup(p);
    return npaths;
}

static int ours(int dirfd, const char *p, char *out)
{
    if (!active || !p) return 0;
    char full[PATH_MAX * 2];
    if (p[0] == '/') snprintf(full, sizeof full, "%s", p);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        snprintf(full, sizeof full, "%s/%s", base, p);
    }
    if (strncmp(full, prefix, prefix_len)) return 0;
    if (strlen(full) >= PATH_MAX) return 0;
    memcpy(out, full, strlen(full) + 1);
    return 1;
}

/* Returns a rule index that fires for this call, or -1. */
static int fires(int cls, const char *path)
{
    counts[cls]++;
    for (int i = 0; i < nrules; i++) {
        if (rules[i].cls != cls) continue;
        if (rules[i].sub[0] && (!path || !strstr(path, rules[i].sub))) continue;
        rules[i].used++;
        int hit = (rules[i].kind & 256) ? rules[i].used >= rules[i].nth : rules[i].used == rules[i].nth;
        if (hit) {
            fired++;
            int id = path ? path_id(path) : 0;
            logrec(OP_FAULT, id, i, rules[i].arg, path, 0, 0);
            return i;
        }
    }
    return -1;
}

static const char *fdpath(int fd) { return file_id[fd] > 0 && file_id[fd] <= npaths ? paths[file_id[fd] - 1] : ""; }
#define TRACKED(fd) (active && (fd) >= 0 && (fd) < MAXFD && file_id[fd])

static int after_open(int fd, int flags, const char *full, int existed, int64_t size)
{
    if (fd >= 0 && fd < MAXFD) {
        file_id[fd] = path_id(full);
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT))
            if (!existed || ((flags & O_TRUNC) && size != 0) )
                logrec(OP_OPEN, file_id[fd], flags & O_TRUNC ? 1 : 0, existed, full, 0, 0);
    }
    return fd;
}

static int do_open(int dirfd, const char *p, int flags, mode_t mode)
{
    char full[PATH_MAX];
    int mine = ours(dirfd, p, full);
    struct stat st;
    int existed = 0;
    if (mine) {
        existed = stat(full, &st) == 0;
        if (existed || (flags & O_CREAT)) {
            int r = fires(CL_OPEN, full);
            if (r >= 0 && (rules[r].kind & 255) == K_ERRNO) { errno = rules[r].arg; return -1; }
        }
    }
    int fd = syscall(SYS_openat, dirfd, p, flags, mode);
    if (fd >= 0 && fd < MAXFD) file_id[fd] = 0;
    if (mine) after_open(fd, flags, full, existed, existed ? st.st_size : 0);
    return fd;
}

#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd)
{
    if (TRACKED(fd)) {
        int r = fires(CL_CLOSE, fdpath(fd));
        file_id[fd] = 0;
        if (r >= 0 && (rules[r].kind & 255) == K_ERRNO) { syscall(SYS_close, fd); errno = rules[r].arg; return -1; }
    }
    return syscall(SYS_close, fd);
}

static int dup_common(int nfd, int fd)
{
    if (nfd >= 0 && nfd < MAXFD) file_id[nfd] = (fd >= 0 && fd < MAXFD) ? file_id[fd] : 0;
    return nfd;
}
int dup(int fd) { return dup_common(syscall(SYS_dup, fd), fd); }
int dup2(int fd, int n) { return dup_common(fd == n ? syscall(SYS_fcntl, fd, F_GETFD) < 0 ? -1 : n : syscall(SYS_dup3, fd, n, 0), fd); }
int dup3(int fd, int n, int f) { return dup_common(syscall(SYS_dup3, fd, n, f), fd); }

/* The write decision: returns -2 to go on with *n bytes, else the result. */
static ssize_t write_fault(int fd, size_t *n)
{
    int r = fires(CL_WRITE, fdpath(fd));
    if (r < 0) {
        if (split_writes && *n > (size_t)split_writes) *n = split_writes;
        return -2;
    }
    switch (rules[r].kind & 255) {
    case K_ERRNO: errno = rules[r].arg; return -1;
    case K_EINTR: errno = EINTR; return -1;
    case K_SHORT:
        if (*n > (size_t)rules[r].arg && rules[r].arg > 0) *n = rules[r].arg;
        return -2;
    }
    return -2;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (!TRACKED(fd)) return syscall(SYS_write, fd, buf, n);
    ssize_t f = write_fault(fd, &n);
    if (f != -2) return f;
    struct stat st;
    int64_t off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    int fl = syscall(SYS_fcntl, fd, F_GETFL);
    if (fl >= 0 && (fl & O_APPEND) && fstat(fd, &st) == 0) off = st.st_size;
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (r > 0) logrec(OP_WRITE, file_id[fd], off, r, fdpath(fd), 0, buf);
    return r;
}

static ssize_t do_pwrite(int fd, const void *buf, size_t n, off64_t off)
{
    if (!TRACKED(fd)) return syscall(SYS_pwrite64, fd, buf, n, off);
    ssize_t f = write_fault(fd, &n);
    if (f != -2) return f;
    ssize_t r = syscall(SYS_pwrite64, fd, buf, n, off);
    if (r > 0) logrec(OP_WRITE, file_id[fd], off, r, fdpath(fd), 0, buf);
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return do_pwrite(fd, buf, n, off); }

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (!TRACKED(fd)) return syscall(SYS_writev, fd, iov, cnt);
    ssize_t total = 0;
    for (int i = 0; i < cnt; i++) {
        if (!iov[i].iov_len) continue;
        ssize_t r = write(fd, iov[i].iov_base, iov[i].iov_len);
        if (r < 0) return total ? total : r;
        total += r;
        if ((size_t)r < iov[i].iov_len) break;
    }
    return total;
}

static int meta_fault(const char *path)
{
    int r = fires(CL_META, path);
    if (r >= 0 && (rules[r].kind & 255) == K_ERRNO) { errno = rules[r].arg; return -1; }
    return 0;
}

static int do_ftruncate(int fd, off64_t len)
{
    if (TRACKED(fd)) {
        if (meta_fault(fdpath(fd))) return -1;
        int r = syscall(SYS_ftruncate, fd, len);
        if (r == 0) logrec(OP_TRUNC, file_id[fd], len, 0, fdpath(fd), 0, 0);
        return r;
    }
    return syscall(SYS_ftruncate, fd, len);
}
int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_ftruncate(fd, len); }
static int do_truncate(const char *p, off64_t len)
{
    char full[PATH_MAX];
    if (ours(AT_FDCWD, p, full)) {
        if (meta_fault(full)) return -1;
        int r = syscall(SYS_truncate, p, len);
        if (r == 0) logrec(OP_TRUNC, path_id(full), len, 0, full, 0, 0);
        return r;
    }
    return syscall(SYS_truncate, p, len);
}
int truncate(const char *p, off_t len) { return do_truncate(p, len); }
int truncate64(const char *p, off64_t len) { return do_truncate(p, len); }

/* Open descriptors follow a renamed file; a replaced or removed file lives on
 * without a name. */
#define ORPHAN (MAXPATH + 1)
static void moved(const char *from, const char *to)
{
    int a = path_id(from), b = to ? path_id(to) : 0;
    for (int i = 0; i < MAXFD; i++) {
        if (to && file_id[i] == b) file_id[i] = ORPHAN;
        else if (file_id[i] == a) file_id[i] = to ? b : ORPHAN;
    }
}

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl)
{
    char fa[PATH_MAX], fb[PATH_MAX];
    int ma = ours(d1, a, fa), mb = ours(d2, b, fb);
    if (ma || mb) {
        if (meta_fault(mb ? fb : fa)) return -1;
        int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
        if (r == 0) { logrec(OP_RENAME, 0, 0, 0, ma ? fa : a, mb ? fb : b, 0); moved(ma ? fa : a, mb ? fb : b); }
        return r;
    }
    return syscall(SYS_renameat2, d1, a, d2, b, fl);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }

static int do_unlink(int d, const char *p, int flags)
{
    char full[PATH_MAX];
    int mine = ours(d, p, full);
    int r = syscall(SYS_unlinkat, d, p, flags);
    if (mine && r == 0) { logrec(OP_UNLINK, path_id(full), 0, 0, full, 0, 0); moved(full, 0); }
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int link(const char *a, const char *b)
{
    char fa[PATH_MAX];
    if (ours(AT_FDCWD, a, fa) || ours(AT_FDCWD, b, fa)) { errno = EPERM; return -1; }
    return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
}

static int do_sync(int fd, long nr)
{
    if (TRACKED(fd)) {
        if (meta_fault(fdpath(fd))) return -1;
        logrec(OP_SYNC, file_id[fd], 0, 0, fdpath(fd), 0, 0);
        return 0;                       /* the simulated disk is in memory */
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static ssize_t read_fault(int fd, size_t *n)
{
    int r = fires(CL_READ, fdpath(fd));
    if (r < 0) {
        if (split_reads && *n > (size_t)split_reads) *n = split_reads;
        return -2;
    }
    switch (rules[r].kind & 255) {
    case K_ERRNO: errno = rules[r].arg; return -1;
    case K_EINTR: errno = EINTR; return -1;
    case K_EOF: return 0;
    case K_SHORT:
        if (*n > (size_t)rules[r].arg && rules[r].arg > 0) *n = rules[r].arg;
        return -2;
    }
    return -2;
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (!TRACKED(fd)) return syscall(SYS_read, fd, buf, n);
    ssize_t f = read_fault(fd, &n);
    if (f != -2) return f;
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (log_reads) logrec(OP_READ, file_id[fd], n, r, fdpath(fd), 0, 0);
    return r;
}
static ssize_t do_pread(int fd, void *buf, size_t n, off64_t off)
{
    if (!TRACKED(fd)) return syscall(SYS_pread64, fd, buf, n, off);
    ssize_t f = read_fault(fd, &n);
    if (f != -2) return f;
    ssize_t r = syscall(SYS_pread64, fd, buf, n, off);
    if (log_reads) logrec(OP_READ, file_id[fd], n, r, fdpath(fd), 0, 0);
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return do_pread(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *iov, int cnt)
{
    if (!TRACKED(fd)) return syscall(SYS_readv, fd, iov, cnt);
    for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
/* Fast paths that would bypass the log: not available on the simulated disk. */
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{ if (TRACKED(o) || TRACKED(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{ if (TRACKED(o) || TRACKED(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f)
{ if (TRACKED(o) || TRACKED(i)) { errno = EXDEV; return -1; } return syscall(SYS_copy_file_range, i, oi, o, oo, n, f); }
