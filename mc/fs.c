/* Control of the file system steps of a process (loaded with LD_PRELOAD).
 *
 * When armed, every libc call which opens, reads, writes, renames... a file below a given directory is one step of the
 * process.  The explorer can count the steps, end the process at a step (also in the middle of a write), let a step
 * fail as on a full disk, or decide when a step is taken (the process asks on a pipe and waits for the answer). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define stat64 hide_stat64
#include <sys/stat.h>
#undef stat64
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, COUNT = 1, KILL = 2, FULL = 3, SCHED = 4 };
static int mode = OFF, target, rfd = -1, wfd = -1, steps, full;
static long tear;
static char prefix[4096];
static char *tracked[4096];          /* the path of every file which is watched */
static char log_[1 << 16];

static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*f)(__VA_ARGS__); if (!f) f = (ret (*)(__VA_ARGS__)) real(#name)

void vp_arm(const char *p, int m, int step, long bytes, int r, int w) {
    strncpy(prefix, p, sizeof prefix - 1);
    mode = m; target = step; tear = bytes; rfd = r; wfd = w; steps = 0; full = 0; log_[0] = 0;
    memset(tracked, 0, sizeof tracked);
}
int vp_disarm(void) { mode = OFF; return steps; }
const char *vp_log(void) { return log_; }

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

/* returns 0: go on, -1: the call fails (errno is set) */
static int step_(const char *what, const char *path, long size, int fd, const void *buf) {
    if (mode == OFF) return 0;
    int n = steps++;
    size_t l = strlen(log_);
    if (l < sizeof log_ - 64) snprintf(log_ + l, 64, "%s %ld\n", what, size);
    if (mode == SCHED) {
        char c, msg[4300];
        int k = snprintf(msg, sizeof msg, "%c%s\n", what[0], path ? path : "?");
        raw_write(wfd, msg, k);
        while (syscall(SYS_read, rfd, &c, 1) < 0 && errno == EINTR) ;
        return 0;
    }
    if (n == target && (mode == KILL || mode == FULL)) {
        if (buf && tear > 0) {
            const char *p = buf;
            long left = tear < size ? tear : size;
            while (left > 0) { ssize_t k = raw_write(fd, p, left); if (k <= 0) break; p += k; left -= k; }
        }
        if (mode == KILL) syscall(SYS_exit_group, 137);
        full = 1;
        errno = ENOSPC;
        return -1;
    }
    if (mode == FULL && full && size > 0 && buf) { errno = ENOSPC; return -1; }
    return 0;
}

static int inside(const char *p) {
    char abs[8192];
    if (!p) return 0;
    if (p[0] == '/') snprintf(abs, sizeof abs, "%s", p);
    else {
        char cwd[4096];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        while (p[0] == '.' && p[1] == '/') p += 2;
        snprintf(abs, sizeof abs, "%s/%s", cwd, p);
    }
    return strncmp(abs, prefix, strlen(prefix)) == 0;
}
#define IN(p) (mode != OFF && inside(p))
#define FD(fd) (mode != OFF && (fd) >= 0 && (fd) < 4096 && tracked[fd])

static int opened(const char *p, int flags, int fd) {
    if (fd >= 0 && fd < 4096) tracked[fd] = IN(p) ? strdup(p) : 0;
    return fd;
}
#define MODE int m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
#define OPEN(name) \
    int name(const char *p, int flags, ...) { MODE REAL(int, name, const char *, int, ...); \
        if (IN(p) && !(flags & O_DIRECTORY) && step_("open", p, 0, -1, 0)) return -1; return opened(p, flags, f(p, flags, m)); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
    int name(int d, const char *p, int flags, ...) { MODE REAL(int, name, int, const char *, int, ...); \
        if (IN(p) && !(flags & O_DIRECTORY) && step_("open", p, 0, -1, 0)) return -1; return opened(p, flags, f(d, p, flags, m)); }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (FD(fd) && step_("write", tracked[fd], (long) n, fd, b)) return -1;
    return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (FD(fd) && step_("writev", tracked[fd], 0, -1, 0)) return -1;
    return f(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (FD(fd) && step_("Read", tracked[fd], 0, -1, 0)) return -1;
    return f(fd, b, n);
}
int close(int fd) {
    REAL(int, close, int);
    if (FD(fd)) { step_("close", tracked[fd], 0, -1, 0); tracked[fd] = 0; }
    return f(fd);
}
int fsync(int fd) { REAL(int, fsync, int); if (FD(fd) && step_("fsync", tracked[fd], 0, -1, 0)) return -1; return f(fd); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if (FD(fd) && step_("truncate", tracked[fd], 0, -1, 0)) return -1; return f(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); if (FD(fd) && step_("truncate", tracked[fd], 0, -1, 0)) return -1; return f(fd, n); }
int truncate64(const char *p, off64_t n) { REAL(int, truncate64, const char *, off64_t); if (IN(p) && step_("truncate", p, 0, -1, 0)) return -1; return f(p, n); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if ((IN(a) || IN(b)) && step_("Rename", b, 0, -1, 0)) return -1; return f(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if ((IN(a) || IN(b)) && step_("Rename", b, 0, -1, 0)) return -1; return f(x, a, y, b); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); if ((IN(a) || IN(b)) && step_("link", b, 0, -1, 0)) return -1; return f(a, b); }
int unlink(const char *p) { REAL(int, unlink, const char *); if (IN(p) && step_("unlink", p, 0, -1, 0)) return -1; return f(p); }
int unlinkat(int d, const char *p, int g) { REAL(int, unlinkat, int, const char *, int); if (IN(p) && step_("unlink", p, 0, -1, 0)) return -1; return f(d, p, g); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (IN(p) && step_("mkdir", p, 0, -1, 0)) return -1; return f(p, m); }
#define STAT(name) int name(const char *p, void *b) { REAL(int, name, const char *, void *); if (mode == SCHED && IN(p)) step_("stat", p, 0, -1, 0); return f(p, b); }
STAT(stat64)
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if ((FD(o) || FD(i)) && step_("sendfile", 0, 0, -1, 0)) return -1; return f(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned g) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if ((FD(o) || FD(i)) && step_("copy", 0, 0, -1, 0)) return -1; return f(i, a, o, b, n, g); }
