// LD_PRELOAD shim: turns the silverfox executable into a fork server and owns every
// source of nondeterminism of each forked run:
//   - wall clock (clock_gettime/gettimeofday/time)         - hash seeds (getrandom)
//   - terminal (isatty/ioctl TIOCGWINSZ on fd 1)            - arguments, environment, cwd
//   - every file operation on files under a scratch root: each one is a "point" at which the
//     driver may let it go on, fail it, cut it short or kill the process (stepping mode).
// Mutating operations outside the scratch root are refused and recorded (containment).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define REQ_FD 198
#define RES_FD 199
#define LOGSZ (1 << 16)

static int active = 0;      // inside a forked run
static int stepping = 0;    // points are sent to the driver
static int term_width = 0;  // 0: not a terminal
static int64_t vclock = 0;
static int64_t tick_by = 0;    // seconds the clock jumps ...
static uint32_t tick_at = 0;   // ... after this many readings of it (0: never)
static uint64_t vseed = 0, seed_ctr = 0;
static char root[PATH_MAX];
static size_t root_len = 0;
static char *oplog = NULL;  // shared: u32 length, then bytes
static char fdpath[256][256];
static char fdtrack[256];

#define SYS_WRITE(fd, b, n) syscall(SYS_write, fd, b, n)

static void die(const char *m) {
    SYS_WRITE(2, m, strlen(m));
    SYS_WRITE(2, "\n", 1);
    _exit(99);
}
static void put(const void *b, size_t n) {
    const char *p = b;
    while (n) {
        ssize_t k = SYS_WRITE(RES_FD, p, n);
        if (k < 0) { if (errno == EINTR) continue; _exit(98); }
        p += k; n -= k;
    }
}
static int get(void *b, size_t n) {
    char *p = b;
    while (n) {
        ssize_t k = syscall(SYS_read, REQ_FD, p, n);
        if (k < 0) { if (errno == EINTR) continue; return -1; }
        if (k == 0) return -1;
        p += k; n -= k;
    }
    return 0;
}
static void logop(char kind, const char *path, const char *note) {
    if (!oplog) return;
    uint32_t *len = (uint32_t *)oplog;
    size_t need = strlen(path) + strlen(note) + 4;
    if (*len + need + 8 > LOGSZ) return;
    char *p = oplog + 4 + *len;
    int k = sprintf(p, "%c %s %s\n", kind, note, path);
    *len += k;
}

// resolve (lexically) a path to absolute
static void absolutize(const char *path, char *out) {
    char tmp[PATH_MAX * 2];
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) strcpy(cwd, "/");
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
    }
    // normalise
    size_t n = 0;
    out[0] = 0;
    char *save = NULL;
    for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) {
            while (n > 0 && out[--n] != '/');
            out[n] = 0;
            continue;
        }
        size_t l = strlen(t);
        if (n + l + 2 > PATH_MAX) break;
        out[n++] = '/';
        memcpy(out + n, t, l + 1);
        n += l;
    }
    if (n == 0) strcpy(out, "/");
}
static int inroot(const char *abs) {
    return root_len && !strncmp(abs, root, root_len) && (abs[root_len] == '/' || abs[root_len] == 0);
}

// a point: returns action, *arg filled
enum { GO = 0, FAIL = 1, SHORT = 2, CRASH = 3, TORN = 4, CRASH_AFTER = 5 };
static int point(char kind, const char *path, uint64_t size, int64_t *arg) {
    *arg = 0;
    if (!active || !stepping) return GO;
    char msg[600];
    uint32_t l = (uint32_t)snprintf(msg, sizeof msg, "%c %llu %s", kind, (unsigned long long)size, path);
    if (l >= sizeof msg) l = sizeof msg - 1;
    char t = 'P';
    put(&t, 1); put(&l, 4); put(msg, l);
    uint8_t act; int64_t a;
    if (get(&act, 1) || get(&a, 8)) _exit(97);
    *arg = a;
    if (act == CRASH) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    return act;
}
static void crash(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

// ---------------------------------------------------------------- time, randomness, terminal
static int64_t wall(void) {
    static uint32_t reads = 0;
    if (tick_at && reads++ == tick_at) { vclock += tick_by; logop('T', "clock", ""); }
    return vclock;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (active && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = wall(); ts->tv_nsec = 0; return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (active) { tv->tv_sec = wall(); tv->tv_usec = 0; return 0; }
    return syscall(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *t) {
    time_t v;
    if (active) v = wall();
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t n, unsigned f) {
    if (!active) return syscall(SYS_getrandom, buf, n, f);
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i += 8) {
        uint64_t v = splitmix(&seed_ctr);
        memcpy(p + i, &v, n - i < 8 ? n - i : 8);
    }
    return n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
int isatty(int fd) {
    if (active && fd <= 2) { if (fd == 1 && term_width) return 1; errno = ENOTTY; return 0; }
    struct winsize w;
    return syscall(SYS_ioctl, fd, TCGETS, &w) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
    if (active && req == TIOCGWINSZ) {
        if (fd == 1 && term_width) {
            struct winsize *w = p; memset(w, 0, sizeof *w); w->ws_col = term_width; w->ws_row = 40; return 0;
        }
        errno = ENOTTY; return -1;
    }
    return syscall(SYS_ioctl, fd, req, p);
}

// ---------------------------------------------------------------- files
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
    if (!active) return syscall(SYS_openat, dfd, path, flags, mode);
    char abs[PATH_MAX];
    if (dfd != AT_FDCWD && path[0] != '/') {
        return syscall(SYS_openat, dfd, path, flags, mode);
    }
    absolutize(path, abs);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!inroot(abs)) {
        if (wr && strcmp(abs, "/dev/null")) { logop('X', abs, "open"); errno = EACCES; return -1; }
        return syscall(SYS_openat, dfd, path, flags, mode);
    }
    if (wr) logop('O', abs, (flags & O_TRUNC) ? "trunc" : (flags & O_APPEND) ? "append" : "write");
    else logop('R', abs, "open");
    int64_t arg;
    int act = point(wr ? 'O' : 'o', abs, flags, &arg);
    if (act == FAIL) { errno = (int)arg; return -1; }
    int fd = syscall(SYS_openat, dfd, path, flags, mode);
    int e = errno;
    if (act == CRASH_AFTER) crash();
    if (fd >= 0 && fd < 256) { fdtrack[fd] = 1; strncpy(fdpath[fd], abs, sizeof fdpath[fd] - 1); }
    errno = e;
    return fd;
}
#define OPENARGS mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

static int tracked(int fd) { return active && fd >= 0 && fd < 256 && fdtrack[fd]; }

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int p) {
    if (!tracked(fd)) return p ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
    int64_t arg;
    int act = point('w', fdpath[fd], n, &arg);
    if (act == FAIL) { errno = (int)arg; return -1; }
    size_t m = n;
    if (act == SHORT || act == TORN) m = (size_t)arg < n ? (size_t)arg : n;
    ssize_t k = 0;
    if (m > 0 || n == 0) k = p ? syscall(SYS_pwrite64, fd, b, m, off) : syscall(SYS_write, fd, b, m);
    int e = errno;
    if (act == TORN || act == CRASH_AFTER) crash();
    errno = e;
    return k;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *b = malloc(n ? n : 1);
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t k = do_write(fd, b, n, 0, 0);
    int e = errno; free(b); errno = e;
    return k;
}
ssize_t read(int fd, void *b, size_t n) {
    if (tracked(fd)) {
        int64_t arg;
        int act = point('r', fdpath[fd], n, &arg);
        if (act == FAIL) { errno = (int)arg; return -1; }
        if (act == SHORT && (size_t)arg < n) n = (size_t)arg;
        ssize_t k = syscall(SYS_read, fd, b, n);
        if (act == CRASH_AFTER) crash();
        return k;
    }
    return syscall(SYS_read, fd, b, n);
}
int close(int fd) {
    if (tracked(fd)) {
        int64_t arg;
        int act = point('c', fdpath[fd], 0, &arg);
        fdtrack[fd] = 0;
        int r = syscall(SYS_close, fd);
        if (act == CRASH_AFTER) crash();
        return r;
    }
    if (active && (fd == REQ_FD || fd == RES_FD)) { errno = EBADF; return -1; }
    return syscall(SYS_close, fd);
}
// path mutations: kind, call
static int pathop(char kind, const char *p1, const char *p2, int (*go)(const char *, const char *, long), long x) {
    if (active) {
        char a1[PATH_MAX], a2[PATH_MAX];
        absolutize(p1, a1);
        if (p2) absolutize(p2, a2);
        if (!inroot(a1) || (p2 && !inroot(a2))) { logop('X', inroot(a1) ? a2 : a1, "pathop"); errno = EACCES; return -1; }
        logop(kind, a1, "pathop");
        if (p2) logop(kind, a2, "pathop");
        int64_t arg;
        int act = point(kind, a1, 0, &arg);
        if (act == FAIL) { errno = (int)arg; return -1; }
        int r = go(p1, p2, x);
        if (act == CRASH_AFTER) crash();
        return r;
    }
    return go(p1, p2, x);
}
static int g_rename(const char *a, const char *b, long x) { (void)x; return syscall(SYS_rename, a, b); }
static int g_unlink(const char *a, const char *b, long x) { (void)b; (void)x; return syscall(SYS_unlink, a); }
static int g_rmdir(const char *a, const char *b, long x) { (void)b; (void)x; return syscall(SYS_rmdir, a); }
static int g_mkdir(const char *a, const char *b, long x) { (void)b; return syscall(SYS_mkdir, a, x); }
static int g_trunc(const char *a, const char *b, long x) { (void)b; return syscall(SYS_truncate, a, x); }
static int g_link(const char *a, const char *b, long x) { (void)x; return syscall(SYS_link, a, b); }
static int g_chmod(const char *a, const char *b, long x) { (void)b; return syscall(SYS_chmod, a, x); }
int rename(const char *a, const char *b) { return pathop('n', a, b, g_rename, 0); }
int renameat(int d, const char *a, int e, const char *b) { (void)d; (void)e; return pathop('n', a, b, g_rename, 0); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { (void)d; (void)e; (void)f; return pathop('n', a, b, g_rename, 0); }
int unlink(const char *a) { return pathop('u', a, NULL, g_unlink, 0); }
int unlinkat(int d, const char *a, int f) { (void)d; return pathop('u', a, NULL, (f & AT_REMOVEDIR) ? g_rmdir : g_unlink, 0); }
int remove(const char *a) { return pathop('u', a, NULL, g_unlink, 0); }
int rmdir(const char *a) { return pathop('u', a, NULL, g_rmdir, 0); }
int mkdir(const char *a, mode_t m) { return pathop('m', a, NULL, g_mkdir, m); }
int truncate(const char *a, off_t l) { return pathop('t', a, NULL, g_trunc, l); }
int truncate64(const char *a, off_t l) { return pathop('t', a, NULL, g_trunc, l); }
int link(const char *a, const char *b) { return pathop('l', a, b, g_link, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { (void)d; (void)e; (void)f; return pathop('l', a, b, g_link, 0); }
static int g_symlink_rev(const char *b, const char *a, long x) { (void)a; return syscall(SYS_symlink, (const char *)x, b); }
int symlink(const char *a, const char *b) { return pathop('l', b, NULL, g_symlink_rev, (long)a); }
int chmod(const char *a, mode_t m) { return pathop('h', a, NULL, g_chmod, m); }

int ftruncate(int fd, off_t l) {
    if (tracked(fd)) {
        logop('t', fdpath[fd], "ftruncate");
        int64_t arg;
        int act = point('t', fdpath[fd], l, &arg);
        if (act == FAIL) { errno = (int)arg; return -1; }
        int r = syscall(SYS_ftruncate, fd, l);
        if (act == CRASH_AFTER) crash();
        return r;
    }
    return syscall(SYS_ftruncate, fd, l);
}
int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
static int do_sync(int fd, long nr) {
    if (tracked(fd)) {
        int64_t arg;
        int act = point('s', fdpath[fd], 0, &arg);
        if (act == FAIL) { errno = (int)arg; return -1; }
        int r = syscall(nr, fd);
        if (act == CRASH_AFTER) crash();
        return r;
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
// in-kernel copies are made to look unsupported, so that std falls back to read/write (which are points)
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (active) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, b, c, d, n, f);
}
ssize_t sendfile(int a, int b, off_t *c, size_t n) {
    if (active) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, a, b, c, n);
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t n) {
    if (active) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, a, b, c, n);
}

// ---------------------------------------------------------------- cheap process start
// (glibc's version parses /proc/self/maps in every run; the answer is the same in every forked run)
#include <pthread.h>
static void *st_addr; static size_t st_size, st_guard;
static int (*orig_getattr)(pthread_t, pthread_attr_t *);
static void cache_stack(void) {
    pthread_attr_t a;
    orig_getattr = dlsym(RTLD_NEXT, "pthread_getattr_np");
    if (!orig_getattr || orig_getattr(pthread_self(), &a)) return;
    pthread_attr_getstack(&a, &st_addr, &st_size);
    pthread_attr_getguardsize(&a, &st_guard);
    pthread_attr_destroy(&a);
}
int pthread_getattr_np(pthread_t t, pthread_attr_t *a) {
    if (!orig_getattr) orig_getattr = dlsym(RTLD_NEXT, "pthread_getattr_np");
    if (!active || !st_addr || syscall(SYS_gettid) != getpid()) return orig_getattr(t, a);
    pthread_attr_init(a);
    pthread_attr_setguardsize(a, st_guard);
    return pthread_attr_setstack(a, st_addr, st_size);
}

// ---------------------------------------------------------------- fork server
static int (*real_main)(int, char **, char **);
extern char **environ;

static uint32_t rd32(char **p) { uint32_t v; memcpy(&v, *p, 4); *p += 4; return v; }
static char *rdstr(char **p) { // length + bytes + NUL
    uint32_t l = rd32(p); char *s = *p; *p += l + 1; return s;
}

static int server(int argc, char **argv, char **envp) {
    (void)argc; (void)argv; (void)envp;
    unsetenv("LD_PRELOAD");
    int fo = syscall(SYS_memfd_create, "so", 0), fe = syscall(SYS_memfd_create, "se", 0);
    if (fo < 0 || fe < 0) die("memfd");
    // move to high descriptors, so that the runs see the usual low ones
    int fo2 = fcntl(fo, F_DUPFD, 200), fe2 = fcntl(fe, F_DUPFD, 200);
    syscall(SYS_close, fo); syscall(SYS_close, fe);
    fo = fo2; fe = fe2;
    oplog = mmap(NULL, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (oplog == MAP_FAILED) die("mmap");
    cache_stack();
    char *buf = NULL; size_t cap = 0;
    char hello = 'H';
    put(&hello, 1);
    for (;;) {
        uint32_t len;
        if (get(&len, 4)) _exit(0);
        if (len + 1 > cap) { cap = len + 1; buf = realloc(buf, cap); }
        if (get(buf, len)) _exit(0);
        *(uint32_t *)oplog = 0;
        syscall(SYS_ftruncate, fo, 0); syscall(SYS_ftruncate, fe, 0);
        lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
        pid_t pid = fork();
        if (pid < 0) die("fork");
        if (pid == 0) {
            char *p = buf;
            memcpy(&vclock, p, 8); p += 8;
            memcpy(&vseed, p, 8); p += 8;
            memcpy(&tick_by, p, 8); p += 8;
            tick_at = rd32(&p);
            uint32_t flags = rd32(&p);
            term_width = rd32(&p);
            stepping = flags & 1;
            char *cwd = rdstr(&p), *rt = rdstr(&p);
            snprintf(root, sizeof root, "%s", rt);
            root_len = strlen(root);
            uint32_t ac = rd32(&p);
            char **av = calloc(ac + 2, sizeof *av);
            for (uint32_t i = 0; i < ac; i++) av[i] = rdstr(&p);
            uint32_t ec = rd32(&p);
            clearenv();
            for (uint32_t i = 0; i < ec; i++) putenv(rdstr(&p));
            if (chdir(cwd)) die("chdir");
            dup2(fo, 1); dup2(fe, 2);
            syscall(SYS_close, fo); syscall(SYS_close, fe);
            struct rlimit rl = {8, 8};
            setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = 2ul << 30;
            setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 64ul << 20;
            setrlimit(RLIMIT_FSIZE, &rl);
            if (!stepping) alarm(120);
            seed_ctr = vseed;
            active = 1;
            exit(real_main(ac, av, environ));
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
        char t = 'E';
        put(&t, 1);
        int32_t s32 = st;
        put(&s32, 4);
        int fds[2] = {fo, fe};
        for (int i = 0; i < 2; i++) {
            struct stat sb;
            fstat(fds[i], &sb);
            uint32_t n = sb.st_size > (8 << 20) ? (8 << 20) : sb.st_size;
            if (n + 1 > cap) { cap = n + 1; buf = realloc(buf, cap); }
            uint32_t got = 0;
            while (got < n) {
                ssize_t k = pread(fds[i], buf + got, n - got, got);
                if (k <= 0) break;
                got += k;
            }
            put(&got, 4);
            put(buf, got);
        }
        uint32_t n = *(uint32_t *)oplog;
        put(&n, 4);
        put(oplog + 4, n);
    }
}

int __libc_start_main(int (*main)(int, char **, char **), int argc, char **argv,
                      int (*init)(int, char **, char **), void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
    typeof(&__libc_start_main) orig = dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = main;
    return orig(getenv("SF_SERVER") ? server : main, argc, argv, init, fini, rtld_fini, stack_end);
}
