// Preloaded into the process under test: counts its operations on files below one folder, and ends the process,
// tears a write, or makes an operation fail at a chosen one. Only the process that armed it is affected.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT, KILL_BEFORE, KILL_AFTER, TEAR, FAIL, INTERRUPT, TERMINATE };
static char folder[PATH_MAX];
static long armed_pid, point, done;
static int mode, fired;
static unsigned char tracked[65536];
static char kinds[1 << 16];

void cp_arm(const char *dir, long at, int how) {
    snprintf(folder, sizeof folder, "%s", dir);
    memset(tracked, 0, sizeof tracked);
    armed_pid = getpid();
    point = at;
    mode = how;
    done = 0;
    fired = 0;
}
long cp_count(void) { return done; }
int cp_fired(void) { return fired; }
// one letter per operation seen: o open, w write, c close, r rename, u unlink, t truncate, s sync, l link
const char *cp_kinds(void) { return kinds; }

static int active(void) { return armed_pid && getpid() == armed_pid; }
static int below(const char *path) {
    char full[PATH_MAX * 2];
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
    } else snprintf(full, sizeof full, "%s", path);
    size_t n = strlen(folder);
    return !strncmp(full, folder, n) && full[n] == '/';
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
// what happens at this operation: 0 nothing, 1 fail it
static int step(char kind) {
    if (done < (long)sizeof kinds - 1) { kinds[done] = kind; kinds[done + 1] = 0; }
    done++;
    if (mode == COUNT || done != point) return 0;
    fired = 1;
    if (mode == KILL_BEFORE) die();
    if (mode == INTERRUPT) kill(getpid(), SIGINT);
    if (mode == TERMINATE) kill(getpid(), SIGTERM);
    return mode == FAIL;
}
static void after(void) {
    if (done == point && (mode == KILL_AFTER || mode == TEAR)) die();
}
#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int opened(int fd) { if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1; return fd; }
#define OPEN_BODY(call)                                                                             \
    va_list ap; mode_t m = 0;                                                                       \
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int ours = active() && (flags & (O_WRONLY | O_RDWR)) && below(path);                            \
    if (!ours) { int fd = call; if (active() && fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0; return fd; } \
    if (step('o')) { errno = ENOSPC; return -1; }                                                   \
    int fd = opened(call);                                                                          \
    after();                                                                                        \
    return fd;
int open(const char *path, int flags, ...) { REAL(int, "open", const char *, int, ...); OPEN_BODY(real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(int, "open64", const char *, int, ...); OPEN_BODY(real(path, flags, m)) }
int openat(int dir, const char *path, int flags, ...) { REAL(int, "openat", int, const char *, int, ...); OPEN_BODY(real(dir, path, flags, m)) }
int openat64(int dir, const char *path, int flags, ...) { REAL(int, "openat64", int, const char *, int, ...); OPEN_BODY(real(dir, path, flags, m)) }

static int ours_fd(int fd) { return active() && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
ssize_t write(int fd, const void *data, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!ours_fd(fd)) return real(fd, data, n);
    int fail = step('w');
    if (fail || (done == point && mode == TEAR)) {
        ssize_t got = real(fd, data, n / 2);
        (void)got;
        if (!fail) die();
        errno = ENOSPC;
        return -1;
    }
    ssize_t r = real(fd, data, n);
    after();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (ours_fd(fd) && step('w')) { errno = ENOSPC; return -1; }
    ssize_t r = real(fd, v, k);
    if (ours_fd(fd)) after();
    return r;
}
ssize_t pwrite64(int fd, const void *data, size_t n, off64_t at) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (ours_fd(fd) && step('w')) { errno = ENOSPC; return -1; }
    ssize_t r = real(fd, data, n, at);
    if (ours_fd(fd)) after();
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *at, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (!ours_fd(out)) return real(out, in, at, n);
    if (step('w')) { errno = ENOSPC; return -1; }
    if (done == point && mode == TEAR) { ssize_t got = real(out, in, at, n > 64 ? 64 : n / 2); (void)got; die(); }
    ssize_t r = real(out, in, at, n);
    after();
    return r;
}
ssize_t sendfile(int out, int in, off_t *at, size_t n) { return sendfile64(out, in, (off64_t *)at, n); }
int close(int fd) {
    REAL(int, "close", int);
    if (!ours_fd(fd)) return real(fd);
    int fail = step('c');
    tracked[fd] = 0;
    int r = real(fd);
    after();
    if (fail) { errno = EIO; return -1; }
    return r;
}
#define TWO_PATHS(letter, call)                                   \
    if (!active() || !(below(from) || below(to))) return call;   \
    if (step(letter)) { errno = EIO; return -1; }                 \
    int r = call;                                                 \
    after();                                                      \
    return r;
int rename(const char *from, const char *to) { REAL(int, "rename", const char *, const char *); TWO_PATHS('r', real(from, to)) }
int renameat(int a, const char *from, int b, const char *to) { REAL(int, "renameat", int, const char *, int, const char *); TWO_PATHS('r', real(a, from, b, to)) }
int link(const char *from, const char *to) { REAL(int, "link", const char *, const char *); TWO_PATHS('l', real(from, to)) }
#define ONE_PATH(letter, call)                        \
    if (!active() || !below(path)) return call;       \
    if (step(letter)) { errno = EIO; return -1; }     \
    int r = call;                                     \
    after();                                          \
    return r;
int unlink(const char *path) { REAL(int, "unlink", const char *); ONE_PATH('u', real(path)) }
int unlinkat(int dir, const char *path, int flags) { REAL(int, "unlinkat", int, const char *, int); ONE_PATH('u', real(dir, path, flags)) }
int truncate64(const char *path, off64_t n) { REAL(int, "truncate64", const char *, off64_t); ONE_PATH('t', real(path, n)) }
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t);
    if (ours_fd(fd) && step('t')) { errno = EIO; return -1; }
    int r = real(fd, n);
    if (ours_fd(fd)) after();
    return r;
}
int fsync(int fd) {
    REAL(int, "fsync", int);
    if (ours_fd(fd) && step('s')) { errno = EIO; return -1; }
    int r = real(fd);
    if (ours_fd(fd)) after();
    return r;
}
