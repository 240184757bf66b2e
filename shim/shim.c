// Preloaded into the command-line tool: records every change it makes beneath VSHIM_ROOT, in
// order, with content, and on request fails or ends the process at the k-th of them.
//   VSHIM_ROOT      directory to watch
//   VSHIM_LOG       file that receives the records
//   VSHIM_FAIL_AT   index of the change that fails (with VSHIM_ERRNO); VSHIM_FAIL_FROM: it and all later ones
//   VSHIM_KILL_AT   index of the change before which the process is killed
//   VSHIM_RFAIL_AT  index of the read that fails with EIO
//   VSHIM_SHORT     most bytes one read or write transfers
//   VSHIM_THREADS   index of the thread from which on none can be started
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXF 65536
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static pthread_once_t once = PTHREAD_ONCE_INIT;
static char root[PATH_MAX];
static size_t rootlen;
static int logfd = -1;
static long fail_at = -1, fail_from = -1, kill_at = -1, rfail_at = -1, tfail_from = -1, ops, reads, threads;
static int fail_errno = ENOSPC;
static size_t maxio;
static uint32_t fdid[MAXFD]; // 0: not watched
static struct { dev_t dev; ino_t ino; uint32_t id; } files[MAXF];
static uint32_t nfiles, nextid = 1;

static long num(const char *n, long d) { const char *v = getenv(n); return v && *v ? atol(v) : d; }

static void setup(void) {
    const char *r = getenv("VSHIM_ROOT"), *l = getenv("VSHIM_LOG");
    if (!r || !l) return;
    char real[PATH_MAX];
    if (!realpath(r, real)) return;
    if (strlen(real) > sizeof root - 2) return;
    strcpy(root, real);
    strcat(root, "/");
    rootlen = strlen(root);
    logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (logfd >= 0) { // out of the way of the descriptors the program gets
        int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 1000);
        if (hi >= 0) { syscall(SYS_close, logfd); logfd = hi; }
    }
    fail_at = num("VSHIM_FAIL_AT", -1);
    fail_from = num("VSHIM_FAIL_FROM", -1);
    kill_at = num("VSHIM_KILL_AT", -1);
    rfail_at = num("VSHIM_RFAIL_AT", -1);
    tfail_from = num("VSHIM_THREADS", -1);
    fail_errno = num("VSHIM_ERRNO", ENOSPC);
    maxio = num("VSHIM_SHORT", 0);
}
static int on(void) { pthread_once(&once, setup); return logfd >= 0; }

static void put(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        long k = syscall(SYS_write, logfd, c, n);
        if (k <= 0) _exit(98);
        c += k; n -= k;
    }
}
static void record(char t, uint64_t id, uint64_t off, const char *path, const void *data, uint32_t n) {
    uint32_t pl = path ? strlen(path) : 0;
    char h[25];
    h[0] = t;
    memcpy(h + 1, &id, 8); memcpy(h + 9, &off, 8); memcpy(h + 17, &pl, 4); memcpy(h + 21, &n, 4);
    put(h, 25);
    if (pl) put(path, pl);
    if (n) put(data, n);
}

// the next change: 0 to go ahead, -1 (errno set) when it is to fail
static int step(char t, uint64_t id, const char *path) {
    long k = ops++;
    if (k == kill_at) {
        record('K', id, k, path, &t, 1);
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    if (k == fail_at || (fail_from >= 0 && k >= fail_from)) {
        record('X', id, k, path, &t, 1);
        errno = fail_errno;
        return -1;
    }
    return 0;
}

// where a path leads, with the directories in it resolved but not its last part
static int where(int dirfd, const char *path, char *out) {
    char tmp[PATH_MAX * 2], dir[PATH_MAX];
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char ln[64];
            snprintf(ln, sizeof ln, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(ln, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    size_t n = strlen(tmp);
    while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
    char *s = strrchr(tmp, '/');
    if (!s) return 0;
    *s = 0;
    if (!realpath(tmp[0] ? tmp : "/", dir)) return 0;
    if (snprintf(out, PATH_MAX, "%s/%s", strcmp(dir, "/") ? dir : "", s + 1) >= PATH_MAX) return 0;
    return strncmp(out, root, rootlen) == 0;
}

static uint32_t file_id(const struct stat *st, int fresh) {
    for (uint32_t i = 0; i < nfiles; i++)
        if (files[i].dev == st->st_dev && files[i].ino == st->st_ino) {
            if (fresh) files[i].id = nextid++;
            return files[i].id;
        }
    if (nfiles == MAXF) _exit(97);
    files[nfiles].dev = st->st_dev; files[nfiles].ino = st->st_ino; files[nfiles].id = nextid++;
    return files[nfiles++].id;
}
static void forget(const struct stat *st) {
    for (uint32_t i = 0; i < nfiles; i++)
        if (files[i].dev == st->st_dev && files[i].ino == st->st_ino) { files[i] = files[--nfiles]; return; }
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!on() || !path) return syscall(SYS_openat, dirfd, path, flags, mode);
    pthread_mutex_lock(&mu);
    char p[PATH_MAX];
    int r;
    int in = !(flags & (O_PATH | O_DIRECTORY)) && where(dirfd, path, p);
    struct stat st, before;
    int existed = in && fstatat(dirfd, path, &before, 0) == 0;
    int changes = in && (!existed ? (flags & O_CREAT) != 0 : (flags & O_TRUNC) && before.st_size > 0 && (flags & O_ACCMODE) != O_RDONLY);
    if (existed && (flags & O_CREAT) && (flags & O_EXCL)) changes = 0;
    if (changes && step(existed ? 'T' : 'C', 0, p)) { pthread_mutex_unlock(&mu); return -1; }
    r = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    if (r >= 0 && in && r < MAXFD && fstat(r, &st) == 0 && S_ISREG(st.st_mode)) {
        uint32_t id = file_id(&st, 0);
        fdid[r] = id;
        char rp[PATH_MAX], ln[64];
        snprintf(ln, sizeof ln, "/proc/self/fd/%d", r);
        ssize_t n = readlink(ln, rp, sizeof rp - 1);
        if (n > 0) { rp[n] = 0; record(existed ? 'O' : 'C', id, flags, rp, 0, 0); }
        if (changes && existed) record('T', id, 0, rp, 0, 0);
    } else if (r >= 0 && r < MAXFD) fdid[r] = 0;
    errno = e;
    pthread_mutex_unlock(&mu);
    return r;
}
#define OPENAT(name) int name(int d, const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_open(d, p, f, m); }
#define OPEN(name) int name(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, f, m); }
OPENAT(openat) OPENAT(openat64) OPEN(open) OPEN(open64)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (fd >= 0 && fd < MAXFD && fdid[fd]) {
        pthread_mutex_lock(&mu);
        fdid[fd] = 0;
        int r = syscall(SYS_close, fd);
        pthread_mutex_unlock(&mu);
        return r;
    }
    return syscall(SYS_close, fd);
}
static uint32_t watched(int fd) { return fd >= 0 && fd < MAXFD && on() ? fdid[fd] : 0; }
static uint64_t here(int fd) {
    if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat st; fstat(fd, &st); return st.st_size; }
    return syscall(SYS_lseek, fd, 0, SEEK_CUR);
}

ssize_t write(int fd, const void *b, size_t n) {
    uint32_t id = watched(fd);
    if (!id) return syscall(SYS_write, fd, b, n);
    pthread_mutex_lock(&mu);
    ssize_t r = -1;
    if (n == 0 || step('W', id, 0) == 0) {
        if (maxio && n > maxio) n = maxio;
        uint64_t at = here(fd);
        r = syscall(SYS_write, fd, b, n);
        if (r > 0) record('W', id, at, 0, b, r);
    }
    pthread_mutex_unlock(&mu);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!watched(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t at) {
    uint32_t id = watched(fd);
    if (!id) return syscall(SYS_pwrite64, fd, b, n, at);
    pthread_mutex_lock(&mu);
    ssize_t r = -1;
    if (n == 0 || step('W', id, 0) == 0) {
        if (maxio && n > maxio) n = maxio;
        r = syscall(SYS_pwrite64, fd, b, n, at);
        if (r > 0) record('W', id, at, 0, b, r);
    }
    pthread_mutex_unlock(&mu);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return do_pwrite(fd, b, n, at); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t at) { return do_pwrite(fd, b, n, at); }

static int read_fails(int fd) {
    int f = 0;
    if (watched(fd)) {
        pthread_mutex_lock(&mu);
        f = reads++ == rfail_at;
        if (f) record('X', fdid[fd], 0, 0, "R", 1);
        pthread_mutex_unlock(&mu);
    }
    if (f) errno = EIO;
    return f;
}
ssize_t read(int fd, void *b, size_t n) {
    if (watched(fd)) {
        if (read_fails(fd)) return -1;
        if (maxio && n > maxio) n = maxio;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!watched(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t at) {
    if (watched(fd)) {
        if (read_fails(fd)) return -1;
        if (maxio && n > maxio) n = maxio;
    }
    return syscall(SYS_pread64, fd, b, n, at);
}
ssize_t pread(int fd, void *b, size_t n, off_t at) { return do_pread(fd, b, n, at); }
ssize_t pread64(int fd, void *b, size_t n, off_t at) { return do_pread(fd, b, n, at); }

static int do_ftruncate(int fd, off_t n) {
    uint32_t id = watched(fd);
    if (!id) return syscall(SYS_ftruncate, fd, n);
    pthread_mutex_lock(&mu);
    int r = -1;
    if (step('T', id, 0) == 0) {
        r = syscall(SYS_ftruncate, fd, n);
        if (r == 0) record('T', id, n, 0, 0, 0);
    }
    pthread_mutex_unlock(&mu);
    return r;
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }

static int do_sync(int fd, long nr) {
    uint32_t id = watched(fd);
    if (!id) return syscall(nr, fd);
    pthread_mutex_lock(&mu);
    int r = syscall(nr, fd);
    if (r == 0) record('F', id, 0, 0, 0, 0);
    pthread_mutex_unlock(&mu);
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_unlink(int d, const char *path, int flags) {
    if (!on()) return syscall(SYS_unlinkat, d, path, flags);
    pthread_mutex_lock(&mu);
    char p[PATH_MAX];
    struct stat st;
    int r = -1, in = where(d, path, p) && fstatat(d, path, &st, AT_SYMLINK_NOFOLLOW) == 0;
    if (!in || step(flags & AT_REMOVEDIR ? 'D' : 'U', 0, p) == 0) {
        r = syscall(SYS_unlinkat, d, path, flags);
        if (r == 0 && in) {
            uint32_t id = S_ISREG(st.st_mode) ? file_id(&st, 0) : 0;
            record(flags & AT_REMOVEDIR ? 'D' : 'U', id, st.st_size, p, 0, 0);
            if (id && st.st_nlink <= 1) forget(&st);
        }
    }
    pthread_mutex_unlock(&mu);
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }

static int do_rename(int d1, const char *a, int d2, const char *b) {
    if (!on()) return syscall(SYS_renameat2, d1, a, d2, b, 0);
    pthread_mutex_lock(&mu);
    char p[PATH_MAX], q[PATH_MAX];
    int r = -1, i = where(d1, a, p), j = where(d2, b, q);
    if (!(i || j) || step('N', 0, p) == 0) {
        r = syscall(SYS_renameat2, d1, a, d2, b, 0);
        if (r == 0 && (i || j)) record('N', 0, 0, p, q, strlen(q));
    }
    pthread_mutex_unlock(&mu);
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int c, const char *a, int d, const char *b) { return do_rename(c, a, d, b); }

static int do_mkdir(int d, const char *path, mode_t m) {
    if (!on()) return syscall(SYS_mkdirat, d, path, m);
    pthread_mutex_lock(&mu);
    char p[PATH_MAX];
    struct stat st;
    int r = -1, in = where(d, path, p) && fstatat(d, path, &st, 0) != 0;
    if (!in || step('M', 0, p) == 0) {
        r = syscall(SYS_mkdirat, d, path, m);
        if (r == 0 && in) record('M', 0, 0, p, 0, 0);
    }
    pthread_mutex_unlock(&mu);
    return r;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }

// make copies go through read and write
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (watched(a) || watched(b)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile(int o, int i, off_t *x, size_t n) {
    if (watched(o) || watched(i)) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, o, i, x, n);
}
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) { return sendfile(o, i, x, n); }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (watched(a) || watched(b)) { errno = EINVAL; return -1; }
    return syscall(SYS_splice, a, x, b, y, n, f);
}
static int same(int from, int to) { if (to >= 0 && to < MAXFD) fdid[to] = from >= 0 && from < MAXFD ? fdid[from] : 0; return to; }
int dup(int a) { return same(a, syscall(SYS_dup, a)); }
int dup3(int a, int b, int f) { return same(a, syscall(SYS_dup3, a, b, f)); }
static int do_fcntl(int fd, int cmd, long arg) {
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? same(fd, r) : r;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int dup2(int a, int b) { int r = syscall(SYS_dup2, a, b); if (r >= 0 && r < MAXFD && a >= 0 && a < MAXFD) fdid[r] = fdid[a]; return r; }

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    pthread_mutex_lock(&mu);
    if (!real) real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    long k = on() ? threads++ : 0;
    int fails = on() && tfail_from >= 0 && k >= tfail_from;
    if (fails) record('X', 0, k, 0, "P", 1);
    pthread_mutex_unlock(&mu);
    return fails ? EAGAIN : real(t, a, f, x);
}
