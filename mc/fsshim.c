/* LD_PRELOAD shim: logs every mutating file-system call below one directory, and
 * can make the n-th of them fail.  Controlled through ctypes by mc/fslog.py. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/syscall.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
enum { OP_CREATE = 1, OP_WRITE, OP_TRUNC, OP_FSYNC, OP_RENAME, OP_LINK, OP_UNLINK, OP_MARK, OP_FAILED };

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int enabled;
static char prefix[PATH_MAX];
static size_t prefix_len;
static unsigned char tracked[MAXFD], socks[MAXFD];
static char *buf;
static size_t buf_len, buf_cap;
static long opno;            /* mutating operations seen since shim_start */
static long fail_at;         /* 1-based; 0 = never */
static int fail_errno, fail_sticky, fail_partial, fail_fired;

#define REAL(type, name, ...) \
    static type (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);

static void put(const void *p, size_t n)
{
    if (buf_len + n > buf_cap) {
        buf_cap = (buf_len + n) * 2 + 65536;
        buf = realloc(buf, buf_cap);
        if (!buf) abort();
    }
    memcpy(buf + buf_len, p, n);
    buf_len += n;
}

static void entry(int op, uint64_t ino, uint64_t off, uint64_t aux,
                  const char *p1, const char *p2, const void *data, uint64_t n)
{
    uint32_t h[4];
    uint64_t q[4];
    h[0] = op;
    h[1] = p1 ? strlen(p1) : 0;
    h[2] = p2 ? strlen(p2) : 0;
    h[3] = 0;
    q[0] = ino; q[1] = off; q[2] = aux; q[3] = n;
    put(h, sizeof h);
    put(q, sizeof q);
    if (p1) put(p1, h[1]);
    if (p2) put(p2, h[2]);
    if (n) put(data, n);
}

static const char *full(const char *path, char *tmp)
{
    if (path[0] == '/') return path;
    if (!getcwd(tmp, PATH_MAX - 300)) return path;
    strcat(tmp, "/");
    strncat(tmp, path, 290);
    return tmp;
}

static int ours(const char *path, char *tmp, const char **out)
{
    if (!enabled || !path) return 0;
    *out = full(path, tmp);
    return strncmp(*out, prefix, prefix_len) == 0;
}

/* 0: go on; 1: fail with errno set; 2: do half, then fail from now on */
/* is_write: 1 overwrites bytes of the file, 2 makes it longer (what a full disk refuses) */
static int inject(int is_write)
{
    opno++;
    if (fail_fired && fail_sticky && is_write == 2) { errno = fail_errno; return 1; }
    if (fail_at && opno == fail_at) {
        fail_fired = 1;
        if (fail_partial && is_write) return 2;
        errno = fail_errno;
        return 1;
    }
    return 0;
}

/* ---------------------------------------------------------------- control */
void shim_start(const char *p)
{
    pthread_mutex_lock(&mu);
    strncpy(prefix, p, PATH_MAX - 1);
    prefix_len = strlen(prefix);
    buf_len = 0;
    opno = 0;
    fail_at = fail_fired = 0;
    enabled = 1;
    pthread_mutex_unlock(&mu);
}
void shim_track(int fd, int v) { if (fd >= 0 && fd < MAXFD) tracked[fd] = v; }
void shim_stop(void) { enabled = 0; fail_at = fail_fired = 0; }
void shim_mark(long n) { pthread_mutex_lock(&mu); if (enabled) entry(OP_MARK, n, 0, 0, 0, 0, 0, 0); pthread_mutex_unlock(&mu); }
void shim_fail(long at, int err, int partial, int sticky)
{
    fail_at = at ? opno + at : 0;
    fail_errno = err; fail_partial = partial; fail_sticky = sticky; fail_fired = 0;
}
int shim_fired(void) { return fail_fired; }
long shim_opno(void) { return opno; }
const char *shim_buf(void) { return buf; }
long shim_len(void) { return buf_len; }

/* ---------------------------------------------------------------- scheduling
 * Every call on files below the directory announces itself on sched_w and waits for a
 * byte on sched_r, so that another process decides when it happens. */
static int sched_w = -1, sched_r = -1;
void shim_sched(int w, int r) { sched_w = w; sched_r = r; }
static void point(char op)
{
    char c;
    int e = errno;
    if (sched_w < 0) return;
    if (syscall(SYS_write, sched_w, &op, 1) != 1) _exit(7);
    if (syscall(SYS_read, sched_r, &c, 1) != 1) _exit(7);
    errno = e;
}
static int xstat(const char *path, struct stat *st) { return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0); }

/* ---------------------------------------------------------------- open / close */
static int note_open(const char *path, int flags, int fd, int existed, uint64_t oldsize)
{
    struct stat st;
    if (fd < 0) return fd;
    if (fd >= MAXFD) abort();
    tracked[fd] = 1;
    if (fstat(fd, &st) == 0) {
        if (!existed)
            entry(OP_CREATE, st.st_ino, 0, S_ISDIR(st.st_mode), path, 0, 0, 0);
        else if ((flags & O_TRUNC) && oldsize)
            entry(OP_TRUNC, st.st_ino, 0, 0, path, 0, 0, 0);
        if (S_ISDIR(st.st_mode)) tracked[fd] = 2;
    }
    return fd;
}

#define OPEN_BODY(CALL) \
    char tmp[PATH_MAX]; const char *p; struct stat st; int fd, existed; \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!ours(path, tmp, &p)) return CALL; \
    point('o'); \
    pthread_mutex_lock(&mu); \
    existed = xstat(p, &st) == 0; \
    if ((!existed && (flags & O_CREAT)) || (existed && (flags & O_TRUNC))) { \
        if (inject(0)) { int e = errno; pthread_mutex_unlock(&mu); errno = e; return -1; } } \
    fd = CALL; \
    { int e = errno; note_open(p, flags, fd, existed, existed ? st.st_size : 0); errno = e; } \
    pthread_mutex_unlock(&mu); \
    return fd;

int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...) OPEN_BODY(real_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...) OPEN_BODY(real_open64(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...)
{
    REAL(int, openat, int, const char *, int, ...)
    OPEN_BODY(real_openat(d, path, flags, mode))
}
int openat64(int d, const char *path, int flags, ...)
{
    REAL(int, openat64, int, const char *, int, ...)
    OPEN_BODY(real_openat64(d, path, flags, mode))
}

int close(int fd)
{
    REAL(int, close, int)
    if (enabled && fd >= 0 && fd < MAXFD && (tracked[fd] || socks[fd])) point('c');
    if (fd >= 0 && fd < MAXFD) tracked[fd] = socks[fd] = 0;
    return real_close(fd);
}

int dup2(int a, int b) { REAL(int, dup2, int, int) int r = real_dup2(a, b); if (r >= 0 && a < MAXFD && b < MAXFD) tracked[b] = tracked[a]; return r; }
int dup(int a) { REAL(int, dup, int) int r = real_dup(a); if (r >= 0 && r < MAXFD && a < MAXFD) tracked[r] = tracked[a]; return r; }

static int isours(int fd) { return enabled && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* ---------------------------------------------------------------- write */
static uint64_t ino_of(int fd, uint64_t *size)
{
    struct stat st;
    if (fstat(fd, &st)) return 0;
    if (size) *size = st.st_size;
    return st.st_ino;
}

static ssize_t do_write(int fd, const void *data, size_t n, off_t off, int use_off)
{
    REAL(ssize_t, write, int, const void *, size_t)
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
    uint64_t size = 0, ino;
    ssize_t r;
    int how;
    point('w');
    pthread_mutex_lock(&mu);
    ino = ino_of(fd, &size);
    if (!use_off) {
        if (fcntl(fd, F_GETFL) & O_APPEND) off = size;
        else off = lseek(fd, 0, SEEK_CUR);
    }
    how = inject(off + n > size ? 2 : 1);
    if (how == 1) { int e = errno; pthread_mutex_unlock(&mu); errno = e; return -1; }
    if (how == 2) {
        if (n < 2) {
            pthread_mutex_unlock(&mu); errno = fail_errno; return -1;
        }
        n = n / 2;
        if (!fail_sticky) { fail_at = opno + 1; fail_partial = 0; }  /* the rest fails */
    }
    if (!use_off)
        r = real_write(fd, data, n);
    else
        r = real_pwrite64(fd, data, n, off);
    { int e = errno; if (r > 0) entry(OP_WRITE, ino, off, size, 0, 0, data, r); errno = e; }
    pthread_mutex_unlock(&mu);
    return r;
}

ssize_t write(int fd, const void *data, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t)
    if (!isours(fd)) return real_write(fd, data, n);
    return do_write(fd, data, n, 0, 0);
}
ssize_t pwrite(int fd, const void *data, size_t n, off_t off)
{
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
    if (!isours(fd)) return real_pwrite(fd, data, n, off);
    return do_write(fd, data, n, off, 1);
}
ssize_t pwrite64(int fd, const void *data, size_t n, off64_t off)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
    if (!isours(fd)) return real_pwrite64(fd, data, n, off);
    return do_write(fd, data, n, off, 1);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int)
    if (!isours(fd)) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = v[i].iov_len ? do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0) : 0;
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}

/* ---------------------------------------------------------------- truncate, sync */
#define TRUNC_BODY(CALL) \
    int r; \
    if (!isours(fd)) return CALL; \
    point('t'); \
    pthread_mutex_lock(&mu); \
    if (inject(0)) { int e = errno; pthread_mutex_unlock(&mu); errno = e; return -1; } \
    { uint64_t size = 0, ino = ino_of(fd, &size); r = CALL; \
      int e = errno; if (r == 0 && size != (uint64_t)len) entry(OP_TRUNC, ino, len, size, 0, 0, 0, 0); errno = e; } \
    pthread_mutex_unlock(&mu); \
    return r;
int ftruncate(int fd, off_t len) { REAL(int, ftruncate, int, off_t) TRUNC_BODY(real_ftruncate(fd, len)) }
int ftruncate64(int fd, off64_t len) { REAL(int, ftruncate64, int, off64_t) TRUNC_BODY(real_ftruncate64(fd, len)) }

#define PTRUNC_BODY(CALL) \
    char t1[PATH_MAX]; const char *p1; int r; struct stat st; \
    if (!ours(a, t1, &p1)) return CALL; \
    point('n'); \
    pthread_mutex_lock(&mu); \
    if (inject(0)) { int e = errno; pthread_mutex_unlock(&mu); errno = e; return -1; } \
    if (xstat(p1, &st)) memset(&st, 0, sizeof st); \
    r = CALL; \
    { int e = errno; if (r == 0 && st.st_size != len) entry(OP_TRUNC, st.st_ino, len, st.st_size, 0, 0, 0, 0); errno = e; } \
    pthread_mutex_unlock(&mu); \
    return r;
int truncate(const char *a, off_t len) { REAL(int, truncate, const char *, off_t) PTRUNC_BODY(real_truncate(a, len)) }
int truncate64(const char *a, off64_t len) { REAL(int, truncate64, const char *, off64_t) PTRUNC_BODY(real_truncate64(a, len)) }

#define SYNC_BODY(CALL) \
    int r; \
    if (!isours(fd)) return CALL; \
    pthread_mutex_lock(&mu); \
    if (tracked[fd] != 2 && inject(0)) { int e = errno; pthread_mutex_unlock(&mu); errno = e; return -1; } \
    r = CALL; \
    { int e = errno; if (r == 0) entry(OP_FSYNC, ino_of(fd, 0), 0, tracked[fd] == 2, 0, 0, 0, 0); errno = e; } \
    pthread_mutex_unlock(&mu); \
    return r;
int fsync(int fd) { REAL(int, fsync, int) SYNC_BODY(real_fsync(fd)) }
int fdatasync(int fd) { REAL(int, fdatasync, int) SYNC_BODY(real_fdatasync(fd)) }

/* ---------------------------------------------------------------- names */
#define TWO_BODY(OP, CALL) \
    char t1[PATH_MAX], t2[PATH_MAX]; const char *p1, *p2; int r; \
    int o1 = ours(a, t1, &p1), o2 = ours(b, t2, &p2); \
    if (!o1 && !o2) return CALL; \
    point('n'); \
    pthread_mutex_lock(&mu); \
    if (inject(0)) { int e = errno; pthread_mutex_unlock(&mu); errno = e; return -1; } \
    r = CALL; \
    { int e = errno; if (r == 0) entry(OP, 0, 0, 0, p1, p2, 0, 0); errno = e; } \
    pthread_mutex_unlock(&mu); \
    return r;
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *) TWO_BODY(OP_RENAME, real_rename(a, b)) }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(int, renameat, int, const char *, int, const char *) TWO_BODY(OP_RENAME, real_renameat(d1, a, d2, b)) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *) TWO_BODY(OP_LINK, real_link(a, b)) }
int linkat(int d1, const char *a, int d2, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int) TWO_BODY(OP_LINK, real_linkat(d1, a, d2, b, f)) }

#define ONE_BODY(CALL) \
    char t1[PATH_MAX]; const char *p1; int r; \
    if (!ours(a, t1, &p1)) return CALL; \
    point('n'); \
    pthread_mutex_lock(&mu); \
    if (inject(0)) { int e = errno; pthread_mutex_unlock(&mu); errno = e; return -1; } \
    r = CALL; \
    { int e = errno; if (r == 0) entry(OP_UNLINK, 0, 0, 0, p1, 0, 0, 0); errno = e; } \
    pthread_mutex_unlock(&mu); \
    return r;
int unlink(const char *a) { REAL(int, unlink, const char *) ONE_BODY(real_unlink(a)) }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int) ONE_BODY(real_unlinkat(d, a, f)) }
int remove(const char *a) { REAL(int, remove, const char *) ONE_BODY(real_remove(a)) }

/* ---------------------------------------------------------------- only observed */
#define STAT_BODY(CALL) \
    char t1[PATH_MAX]; const char *p1; \
    if (ours(a, t1, &p1)) point('s'); \
    return CALL;
int stat(const char *a, struct stat *st) { REAL(int, stat, const char *, struct stat *) STAT_BODY(real_stat(a, st)) }
int stat64(const char *a, struct stat64 *st) { REAL(int, stat64, const char *, struct stat64 *) STAT_BODY(real_stat64(a, st)) }
int lstat(const char *a, struct stat *st) { REAL(int, lstat, const char *, struct stat *) STAT_BODY(real_lstat(a, st)) }
int lstat64(const char *a, struct stat64 *st) { REAL(int, lstat64, const char *, struct stat64 *) STAT_BODY(real_lstat64(a, st)) }
int fstatat(int d, const char *a, struct stat *st, int f) { REAL(int, fstatat, int, const char *, struct stat *, int) STAT_BODY(real_fstatat(d, a, st, f)) }
int fstatat64(int d, const char *a, struct stat64 *st, int f) { REAL(int, fstatat64, int, const char *, struct stat64 *, int) STAT_BODY(real_fstatat64(d, a, st, f)) }
int access(const char *a, int m) { REAL(int, access, const char *, int) STAT_BODY(real_access(a, m)) }
int flock(int fd, int how) { REAL(int, flock, int, int) 
    int r;
    if (!isours(fd)) return real_flock(fd, how);
    point('l');
    if (sched_w < 0 || how & (LOCK_NB | LOCK_UN)) return real_flock(fd, how);
    while ((r = real_flock(fd, how | LOCK_NB)) && errno == EWOULDBLOCK) point('B');  /* another one's turn */
    return r;
}
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t) if (isours(fd)) point('r'); return real_read(fd, b, n); }

/* ---------------------------------------------------------------- Unix domain sockets */
static int unix_ours(int fd, const struct sockaddr *a)
{
    char t1[PATH_MAX]; const char *p1;
    if (!enabled || a->sa_family != AF_UNIX || fd >= MAXFD) return 0;
    if (!ours(((const struct sockaddr_un *)a)->sun_path, t1, &p1)) return 0;
    socks[fd] = 1;
    return 1;
}
int bind(int fd, const struct sockaddr *a, socklen_t n) { REAL(int, bind, int, const struct sockaddr *, socklen_t) if (unix_ours(fd, a)) point('b'); return real_bind(fd, a, n); }
int connect(int fd, const struct sockaddr *a, socklen_t n) { REAL(int, connect, int, const struct sockaddr *, socklen_t) if (unix_ours(fd, a)) point('C'); return real_connect(fd, a, n); }
int listen(int fd, int n) { REAL(int, listen, int, int) if (enabled && fd >= 0 && fd < MAXFD && socks[fd]) point('L'); return real_listen(fd, n); }
