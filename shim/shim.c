// Fault injector (LD_PRELOAD). Counts the file operations of the process on files below VC_DIR (and
// VC_DIR2) and acts at one of them.
//   VC_AT   number of the operation to act at (from 1); with stop, several divided by commas
//   VC_WHEN KIND:HASH:N,...  acts as well at the N-th operation of this kind on the path of this hash;
//           VC_HIT is a file that gets a byte with the place in this list
//   VC_NOT  files below this are not counted after all
//   VC_ACT  fail:ERRNO | short | eintr | kill | torn | stop
//   VC_KEEP with fail: all later operations of the same kind on the same file fail too
//   VC_LOG  file that gets a record of every operation (with the bytes written)
//   VC_OPS  file that gets one byte per counted operation: its kind
//   VC_SITES  file that gets 5 bytes per counted operation: its kind and a hash of the path
//   VC_CLOCK  seconds added to the wall clock
//   VC_NOSLEEP sleeping takes no time
//   VC_RACY file of this name is rewritten just before it is opened for reading and again when it is closed
//   VC_JUMP   the rewriting at the end happens after the first read instead, and then it is 5 seconds later until it is closed
//   VC_COARSE the time stamps of files are whole seconds, as on some file systems
//   VC_ORDER SEED      directories are listed in an order of its own
//   VC_SHORT SEED,MAX  reads give at most 1..MAX bytes (varying), now and then they are interrupted
//   VC_STDOUT writes to standard output count too
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
static char *paths[MAXFD];
static const char *dirs[2], *not_dir;
static long at[16], count, clock_off;
static int act, act_errno, keep, logfd = -1, opsfd = -1, sitesfd = -1, nosleep, ready, want_stdout, coarse;
static int kept_kind = -1;
static char kept_path[PATH_MAX];
static const char *racy;
static int jump, jumped;
static unsigned long short_state, short_max;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

enum { FAIL = 1, SHORT, EINTR_, KILL, TORN, STOP };
enum { K_OPEN = 1, K_READ, K_WRITE, K_SYNC, K_TRUNC, K_UNLINK, K_MKDIR, K_RENAME, K_STAT, K_DIR, K_LOCK, K_CLOSE, K_MARK };

#define REAL(ret, name, ...)                                   \
    static ret (*real_##name)(__VA_ARGS__);                    \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static long raw_open(const char *p, int f, int m) { return syscall(SYS_openat, AT_FDCWD, p, f, m); }

static unsigned long order_state;
static struct {
    int kind;
    uint32_t hash;
    long n, seen;
} when[16];

__attribute__((constructor)) static void init(void) {
    const char *s;
    dirs[0] = getenv("VC_DIR");
    dirs[1] = getenv("VC_DIR2");
    not_dir = getenv("VC_NOT");
    s = getenv("VC_AT");
    for (int i = 0; s && *s && i < 16; i++) {
        at[i] = strtol(s, (char **)&s, 10);
        if (*s) s++;
    }
    s = getenv("VC_WHEN");
    for (int i = 0; s && *s && i < 16; i++) {
        when[i].kind = strtol(s, (char **)&s, 10);
        if (*s) s++;
        when[i].hash = strtoul(s, (char **)&s, 10);
        if (*s) s++;
        when[i].n = strtol(s, (char **)&s, 10);
        if (*s) s++;
    }
    if ((s = getenv("VC_ACT"))) {
        if (!strncmp(s, "fail:", 5)) act = FAIL, act_errno = atoi(s + 5);
        else if (!strcmp(s, "short")) act = SHORT;
        else if (!strcmp(s, "eintr")) act = EINTR_;
        else if (!strcmp(s, "kill")) act = KILL;
        else if (!strcmp(s, "torn")) act = TORN;
        else if (!strcmp(s, "stop")) act = STOP;
    }
    keep = getenv("VC_KEEP") != NULL;
    nosleep = getenv("VC_NOSLEEP") != NULL;
    coarse = getenv("VC_COARSE") != NULL;
    want_stdout = getenv("VC_STDOUT") != NULL;
    if ((s = getenv("VC_CLOCK"))) clock_off = atol(s);
    racy = getenv("VC_RACY");
    jump = getenv("VC_JUMP") != NULL;
    if ((s = getenv("VC_SHORT"))) {
        short_state = strtoul(s, NULL, 10);
        short_max = strchr(s, ',') ? strtoul(strchr(s, ',') + 1, NULL, 10) : 1;
    }
    if ((s = getenv("VC_ORDER"))) order_state = strtoul(s, NULL, 10) * 2 + 1;
    if ((s = getenv("VC_LOG"))) {
        int fd = raw_open(s, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
    if ((s = getenv("VC_OPS"))) {
        int fd = raw_open(s, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        opsfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
    if ((s = getenv("VC_SITES"))) {
        int fd = raw_open(s, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        sitesfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
    ready = 1;
}

static int below(const char *p, const char *d) {
    size_t n = strlen(d);
    return !strncmp(p, d, n) && (p[n] == 0 || p[n] == '/');
}

static int in_scope(const char *p) {
    if (not_dir && below(p, not_dir)) return 0;
    for (int i = 0; i < 2; i++) {
        if (dirs[i] && below(p, dirs[i])) return 1;
    }
    return 0;
}

// Makes a path absolute without resolving links. Returns 0 if it is outside of the scope.
static int resolve(int dfd, const char *p, char *out) {
    if (!ready || !p || !dirs[0]) return 0;
    if (p[0] == '/') {
        snprintf(out, PATH_MAX, "%s", p);
    } else {
        char base[PATH_MAX];
        if (dfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
            long n = syscall(SYS_readlink, l, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        if (!*p) snprintf(out, PATH_MAX, "%s", base);
        else if (snprintf(out, PATH_MAX, "%s/%s", base, p) >= PATH_MAX) return 0;
    }
    return in_scope(out);
}

static void put(const void *p, size_t n) {
    const char *c = p;
    while (n > 0) {
        long r = syscall(SYS_write, logfd, c, n);
        if (r <= 0) return;
        c += r;
        n -= r;
    }
}

static void record(int kind, const char *path, int64_t off, const void *data, int64_t len) {
    if (logfd < 0) return;
    uint8_t k = kind;
    uint32_t pl = strlen(path);
    int64_t dl = data ? len : 0;
    put(&k, 1);
    put(&off, 8);
    put(&len, 8);
    put(&pl, 4);
    put(path, pl);
    put(&dl, 8);
    if (data) put(data, dl);
}

// Counts an operation. Returns what to do about it (0: go on).
static int step(int kind, const char *path) {
    int a = 0;
    pthread_mutex_lock(&mu);
    count++;
    if (opsfd >= 0) {
        char k = kind;
        syscall(SYS_write, opsfd, &k, 1L);
    }
    int hit = 0;
    uint32_t h = 2166136261u;
    if (sitesfd >= 0 || when[0].n) {
        for (const char *c = path ? path : ""; *c; c++) h = (h ^ (uint8_t)*c) * 16777619u;
    }
    for (int i = 0; i < 16 && when[i].n; i++) {
        if (when[i].kind != kind || when[i].hash != h || ++when[i].seen != when[i].n) continue;
        hit = 1;
        char b = i;
        int fd = getenv("VC_HIT") ? raw_open(getenv("VC_HIT"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
        if (fd >= 0) {
            syscall(SYS_write, fd, &b, 1L);
            syscall(SYS_close, fd);
        }
    }
    if (sitesfd >= 0) {
        char k[5] = {kind, h, h >> 8, h >> 16, h >> 24};
        syscall(SYS_write, sitesfd, k, 5L);
    }
    for (int i = 0; i < 16 && at[i]; i++) hit |= count == at[i];
    if (hit) {
        a = act;
        if (a == FAIL && keep) {
            kept_kind = kind;
            snprintf(kept_path, sizeof kept_path, "%s", path);
        }
    } else if (kept_kind == kind && !strcmp(kept_path, path)) {
        a = FAIL;
    }
    pthread_mutex_unlock(&mu);
    if (a == STOP) {
        raise(SIGSTOP);
        return 0;
    }
    if (a == KILL) {
        raise(SIGKILL);
        for (;;) pause();
    }
    if (a == TORN && kind != K_WRITE) {
        raise(SIGKILL);
        for (;;) pause();
    }
    if (a == FAIL) errno = act_errno;
    return a;
}

static const char *fdpath(int fd) {
    if (want_stdout && fd == 1) return "<stdout>";
    return fd >= 0 && fd < MAXFD ? paths[fd] : NULL;
}

static void track(int fd, const char *path) {
    if (fd >= 0 && fd < MAXFD) {
        free(paths[fd]);
        paths[fd] = strdup(path);
    }
}

static int is_racy(const char *path) {
    if (!racy) return 0;
    size_t n = strlen(path), m = strlen(racy);
    return n > m && path[n - m - 1] == '/' && !strcmp(path + n - m, racy);
}

// Inverts every byte of the file, keeping size and modification time.
static void flip(const char *path) {
    long fd = raw_open(path, O_RDWR, 0);
    if (fd < 0) return;
    struct stat st;
    char buf[4096];
    REAL(int, fstat, int, struct stat *);
    real_fstat(fd, &st);
    long n = syscall(SYS_pread64, fd, buf, sizeof buf, 0L);
    for (long i = 0; i < n; i++) buf[i] = ~buf[i];
    syscall(SYS_pwrite64, fd, buf, n, 0L);
    struct timespec t[2] = {st.st_atim, st.st_mtim};
    syscall(SYS_utimensat, fd, NULL, t, 0);
    syscall(SYS_close, fd);
}

// ---- opening ----

static int do_open(int dfd, const char *p, int flags, mode_t mode) {
    char path[PATH_MAX];
    int scope = resolve(dfd, p, path);
    if (scope) {
        int a = step(K_OPEN, path);
        if (a == FAIL) return -1;
        if (a == EINTR_) {
            errno = EINTR;
            return -1;
        }
        if (is_racy(path)) flip(path);
    }
    int existed = scope && (flags & O_CREAT) && syscall(SYS_faccessat, AT_FDCWD, path, F_OK, 0) == 0;
    int fd = syscall(SYS_openat, dfd, p, flags, mode);
    if (scope && fd >= 0) {
        track(fd, path);
        record(K_OPEN, path, (flags & O_CREAT) && !existed ? 1 : 0, NULL, flags & O_TRUNC ? 1 : 0);
    } else if (fd >= 0 && fd < MAXFD) {
        free(paths[fd]);
        paths[fd] = NULL;
    }
    return fd;
}
#define MODE                                      \
    mode_t mode = 0;                              \
    if (flags & (O_CREAT | __O_TMPFILE)) {        \
        va_list ap;                               \
        va_start(ap, flags);                      \
        mode = va_arg(ap, int);                   \
        va_end(ap);                               \
    }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }

int close(int fd) {
    char path[PATH_MAX] = "";
    const char *q = fd == 1 ? NULL : fdpath(fd);
    if (q) {
        snprintf(path, sizeof path, "%s", q);
        free(paths[fd]);
        paths[fd] = NULL;
    }
    int r = syscall(SYS_close, fd);
    if (*path && is_racy(path)) {
        if (!jump) flip(path);
        if (jumped == 1) jumped = 2, clock_off -= 5;
    }
    return r;
}

// ---- reading ----

static ssize_t pre_read(const char *q, size_t *n) {
    int a = step(K_READ, q);
    if (a == FAIL) return -1;
    if (a == EINTR_) {
        errno = EINTR;
        return -1;
    }
    if (a == SHORT && *n > 1) *n = (*n + 1) / 2;
    if (short_max) {
        short_state = short_state * 6364136223846793005UL + 1442695040888963407UL;
        unsigned long r = short_state >> 33;
        if (r % 16 == 0) {
            errno = EINTR;
            return -1;
        }
        r = 1 + (r >> 4) % short_max;
        if (*n > r) *n = r;
    }
    return 0;
}
ssize_t read(int fd, void *b, size_t n) {
    const char *q = fd == 1 ? NULL : fdpath(fd);
    if (q && pre_read(q, &n) < 0) return -1;
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (jump && !jumped && r > 0 && q && is_racy(q)) {
        jumped = 1;
        flip(q);
        clock_off += 5;
    }
    return r;
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o) {
    const char *q = fdpath(fd);
    if (q && pre_read(q, &n) < 0) return -1;
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    const char *q = fdpath(fd);
    size_t n = 1;
    if (q && pre_read(q, &n) < 0) return -1;
    return syscall(SYS_readv, fd, v, c);
}

// ---- writing ----

static ssize_t do_write(int fd, const void *b, size_t n, off_t o, int at_offset) {
    const char *q = fdpath(fd);
    int a = 0;
    if (q) {
        a = step(K_WRITE, q);
        if (a == FAIL) return -1;
        if (a == EINTR_) {
            errno = EINTR;
            return -1;
        }
        if ((a == SHORT || a == TORN) && n > 1) n = n / 2;
        if (fd != 1) record(K_WRITE, q, at_offset ? o : syscall(SYS_lseek, fd, 0L, SEEK_CUR), b, n);
    }
    ssize_t r = at_offset ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n);
    if (a == TORN) {
        raise(SIGKILL);
        for (;;) pause();
    }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}

static int plain(int kind, int fd) {
    const char *q = fd == 1 ? NULL : fdpath(fd);
    if (q) {
        int a = step(kind, q);
        if (a == FAIL) return -1;
    }
    return 0;
}
int fsync(int fd) {
    if (plain(K_SYNC, fd) < 0) return -1;
    int r = syscall(SYS_fsync, fd);
    if (fdpath(fd)) record(K_SYNC, fdpath(fd), 0, NULL, 0);
    return r;
}
int fdatasync(int fd) {
    if (plain(K_SYNC, fd) < 0) return -1;
    int r = syscall(SYS_fdatasync, fd);
    if (fdpath(fd)) record(K_SYNC, fdpath(fd), 0, NULL, 0);
    return r;
}
static int do_trunc(int fd, off_t n) {
    if (plain(K_TRUNC, fd) < 0) return -1;
    int r = syscall(SYS_ftruncate, fd, n);
    if (fdpath(fd)) record(K_TRUNC, fdpath(fd), n, NULL, 0);
    return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
static int do_fallocate(int fd, off_t o, off_t n) {
    if (plain(K_TRUNC, fd) < 0) return errno;
    (void)o;
    (void)n;
    return EINVAL;
}
int posix_fallocate(int fd, off_t o, off_t n) { return do_fallocate(fd, o, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return do_fallocate(fd, o, n); }

// ---- names ----

int unlink(const char *p) {
    char path[PATH_MAX];
    int s = resolve(AT_FDCWD, p, path);
    if (s && step(K_UNLINK, path) == FAIL) return -1;
    int r = syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    if (s && r == 0) record(K_UNLINK, path, 0, NULL, 0);
    return r;
}
int unlinkat(int d, const char *p, int f) {
    char path[PATH_MAX];
    int s = resolve(d, p, path);
    if (s && step(K_UNLINK, path) == FAIL) return -1;
    int r = syscall(SYS_unlinkat, d, p, f);
    if (s && r == 0) record(K_UNLINK, path, 0, NULL, 0);
    return r;
}
int rmdir(const char *p) {
    char path[PATH_MAX];
    if (resolve(AT_FDCWD, p, path) && step(K_UNLINK, path) == FAIL) return -1;
    return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
}
int mkdir(const char *p, mode_t m) {
    char path[PATH_MAX];
    int s = resolve(AT_FDCWD, p, path);
    if (s && step(K_MKDIR, path) == FAIL) return -1;
    int r = syscall(SYS_mkdirat, AT_FDCWD, p, m);
    if (s && r == 0) record(K_MKDIR, path, 0, NULL, 0);
    return r;
}
int rename(const char *a, const char *b) {
    char path[PATH_MAX];
    if (resolve(AT_FDCWD, a, path) && step(K_RENAME, path) == FAIL) return -1;
    return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}

// Copies inside the kernel: have them done by reading and writing.
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (fdpath(a) || fdpath(b)) {
        errno = ENOSYS;
        return -1;
    }
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    if (fdpath(a) || fdpath(b)) {
        errno = ENOSYS;
        return -1;
    }
    return syscall(SYS_sendfile, a, b, o, n);
}
ssize_t sendfile(int a, int b, off_t *o, size_t n) { return sendfile64(a, b, o, n); }
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (fdpath(a) || fdpath(b)) {
        errno = EINVAL;
        return -1;
    }
    return syscall(SYS_splice, a, ao, b, bo, n, f);
}

// ---- looking ----

int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
    char path[PATH_MAX];
    if (resolve(d, p, path) && step(K_STAT, path) == FAIL) return -1;
    int r = syscall(SYS_statx, d, p, f, m, b);
    if (r == 0 && coarse) b->stx_atime.tv_nsec = b->stx_btime.tv_nsec = b->stx_ctime.tv_nsec = b->stx_mtime.tv_nsec = 0;
    return r;
}
#define ROUND(b) (b)->st_atim.tv_nsec = (b)->st_ctim.tv_nsec = (b)->st_mtim.tv_nsec = 0
#define STAT(name, T)                                                                   \
    int name(const char *restrict p, struct T *restrict b) {                            \
        char path[PATH_MAX];                                                            \
        REAL(int, name, const char *, struct T *);                                      \
        if (resolve(AT_FDCWD, p, path) && step(K_STAT, path) == FAIL) return -1;        \
        int r = real_##name(p, b);                                                      \
        if (r == 0 && coarse) ROUND(b);                                                 \
        return r;                                                                       \
    }
STAT(stat, stat)
STAT(stat64, stat64)
STAT(lstat, stat)
STAT(lstat64, stat64)
int fstat(int fd, struct stat *b) {
    REAL(int, fstat, int, struct stat *);
    if (plain(K_STAT, fd) < 0) return -1;
    int r = real_fstat(fd, b);
    if (r == 0 && coarse) ROUND(b);
    return r;
}
int fstat64(int fd, struct stat64 *b) {
    REAL(int, fstat64, int, struct stat64 *);
    if (plain(K_STAT, fd) < 0) return -1;
    int r = real_fstat64(fd, b);
    if (r == 0 && coarse) ROUND(b);
    return r;
}
int access(const char *p, int m) {
    char path[PATH_MAX];
    if (resolve(AT_FDCWD, p, path) && step(K_STAT, path) == FAIL) return -1;
    return syscall(SYS_faccessat, AT_FDCWD, p, m);
}
DIR *opendir(const char *p) {
    char path[PATH_MAX];
    REAL(DIR *, opendir, const char *);
    int s = resolve(AT_FDCWD, p, path);
    if (s && step(K_OPEN, path) == FAIL) return NULL;
    DIR *d = real_opendir(p);
    if (d && s) track(dirfd(d), path);
    return d;
}

// Entries of an open directory in the order they are handed out (VC_ORDER).
static struct listing {
    long n, i;
    struct dirent64 **e;
} *listings[MAXFD];

static unsigned long order_next(void) {
    order_state = order_state * 6364136223846793005UL + 1442695040888963407UL;
    return order_state >> 33;
}

static struct dirent64 *ordered(DIR *d, struct dirent64 *(*real)(DIR *)) {
    int fd = dirfd(d);
    if (!order_state || fd < 0 || fd >= MAXFD) return real(d);
    struct listing *l = listings[fd];
    if (!l) {
        l = listings[fd] = calloc(1, sizeof *l);
        struct dirent64 *e;
        long cap = 0;
        while ((e = real(d))) {
            if (l->n == cap) l->e = realloc(l->e, (cap = cap * 2 + 64) * sizeof *l->e);
            l->e[l->n] = malloc(e->d_reclen > sizeof *e ? e->d_reclen : sizeof *e);
            memcpy(l->e[l->n++], e, e->d_reclen);
        }
        for (long i = l->n - 1; i > 0; i--) {
            long j = order_next() % (i + 1);
            struct dirent64 *t = l->e[i];
            l->e[i] = l->e[j];
            l->e[j] = t;
        }
    }
    return l->i < l->n ? l->e[l->i++] : NULL;
}

int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    int fd = dirfd(d);
    if (fd >= 0 && fd < MAXFD) {
        if (listings[fd]) {
            for (long i = 0; i < listings[fd]->n; i++) free(listings[fd]->e[i]);
            free(listings[fd]->e);
            free(listings[fd]);
            listings[fd] = NULL;
        }
        free(paths[fd]);
        paths[fd] = NULL;
    }
    return real_closedir(d);
}
struct dirent *readdir(DIR *d) {
    REAL(struct dirent *, readdir, DIR *);
    const char *q = fdpath(dirfd(d));
    if (q && step(K_DIR, q) == FAIL) return NULL;
    return (struct dirent *)ordered(d, (struct dirent64 *(*)(DIR *))real_readdir);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    const char *q = fdpath(dirfd(d));
    if (q && step(K_DIR, q) == FAIL) return NULL;
    return ordered(d, real_readdir64);
}
char *realpath(const char *restrict p, char *restrict out) {
    char path[PATH_MAX];
    REAL(char *, realpath, const char *, char *);
    if (resolve(AT_FDCWD, p, path) && step(K_STAT, path) == FAIL) return NULL;
    return real_realpath(p, out);
}

// ---- locks ----

static int do_fcntl(int fd, int cmd, void *arg) {
    if (cmd == F_SETLK || cmd == F_SETLKW) {
        const char *q = fdpath(fd);
        struct flock *l = arg;
        if (q && l->l_type != F_UNLCK) {
            int a = step(K_LOCK, q);
            if (a == FAIL) return -1;
        }
    }
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r < MAXFD) {
        free(paths[r]);
        paths[r] = fdpath(fd) && fd != 1 ? strdup(fdpath(fd)) : NULL;
    }
    return r;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}

// ---- time ----

int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && c == CLOCK_REALTIME) t->tv_sec += clock_off;
    return r;
}
int usleep(useconds_t u) {
    struct timespec t = {u / 1000000, (u % 1000000) * 1000L};
    if (nosleep) return 0;
    return syscall(SYS_nanosleep, &t, NULL);
}
unsigned sleep(unsigned s) {
    struct timespec t = {s, 0};
    if (nosleep) return 0;
    syscall(SYS_nanosleep, &t, NULL);
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (nosleep) return 0;
    return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    if (nosleep) return 0;
    int r = syscall(SYS_clock_nanosleep, c, f, a, b);
    return r < 0 ? errno : 0;
}
