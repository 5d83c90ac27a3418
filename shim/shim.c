/* System-call seam for the wadec command line tool (LD_PRELOAD).
 * WSIM_IN: the input stream (a path, or - for fd 0)
 * WSIM_PLAN: space separated
 *   rc=SEED:MAX          read chunking (MAX 0: whole buffer)
 *   ri=OFF:N,OFF:N..     EINTR bursts on the input, by stream offset
 *   re=OFF:ERRNO:STICKY  input ends (ERRNO 0: end of file) or fails at OFF
 *   op=ERRNO:N           the first N opens of the input fail with ERRNO
 *   wc1= wc2=SEED:MAX    write chunking of fd 1 / 2
 *   wi1= wi2=N           EINTR before every Nth write
 *   wf1= wf2=OFF:ERRNO   writes fail from byte OFF on (ERRNO 0: write returns 0)
 *   ck=SEED              the clocks: how much time a call takes, and jumps of the wall clock
 * WSIM_LOG: file that receives 16 counters.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int active;
static struct stat in_st;
static uint64_t rc_seed, rc_max, wc_seed[3], wc_max[3], wi[3], wcount[3];
static struct { uint64_t off; long n; } ri[512];
static int nri, cri;
static int64_t re_off = -1, wf_off[3] = {-1, -1, -1};
static int re_err, re_sticky, re_fired, wf_err[3], op_err;
static long op_n;
static uint64_t rpos, wpos[3];
enum { K_READS, K_RSHORT, K_REINTR, K_RFAIL, K_REOF, K_OPENFAIL, K_WRITES, K_WSHORT, K_WEINTR, K_WFAIL, K_TRACE, K_AFTER, K_BYTES, K_CLOCK, K_N };
static uint64_t dummy[16], *log_ = dummy;

static uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void note(uint64_t a, uint64_t b) { log_[K_TRACE] = mix(log_[K_TRACE] ^ mix(a * 1000003 + b)); }

/* Simulated clocks, as in sim/src/world.rs. */
#define YEAR 31557600000000000ll
static uint64_t ck_seed, ck_mono = 1000000000000ull, ck_n;
static int64_t ck_wall = 56 * YEAR;
static int ck_mode(void) { return ck_seed ? mix(ck_seed ^ 0xC10C) % 8 : 0; }
static void ck_pass(uint64_t ns) {
    if (ck_mono < 1ull << 62) ck_mono += ns;
    if (ck_wall < 200 * YEAR) ck_wall += ns;
}
static void ck_tick(void) {
    if (!ck_seed) return;
    uint64_t h = mix(ck_seed ^ mix(++ck_n)), t = 1 + (h & 15) + (h >> 56 ? 0 : 5000);
    int m = ck_mode();
    ck_pass(t * (m <= 3 ? 1000 : m == 4 ? 10000000 : m == 5 ? 60000000000ull : m == 6 ? 1000000 : 0));
    if (m == 6 && (h >> 16) % 16 == 0) {
        ck_wall += (int64_t)((h >> 24) % 21) * YEAR - 10 * YEAR;
        if (ck_wall < -100 * YEAR) ck_wall = -100 * YEAR;
        if (ck_wall > 150 * YEAR) ck_wall = 150 * YEAR;
    }
}
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!active) return syscall(SYS_clock_gettime, id, t);
    log_[K_CLOCK]++;
    int64_t ns = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? ck_wall : (int64_t)ck_mono;
    int64_t s = ns / 1000000000, r = ns % 1000000000;
    if (r < 0) s--, r += 1000000000;
    t->tv_sec = s;
    t->tv_nsec = r;
    if (ck_mode() != 7) ck_pass(50);
    return 0;
}
static void ck_pause(const struct timespec *t, uint64_t from) {
    log_[K_CLOCK]++;
    uint64_t ns = (uint64_t)t->tv_sec > 1u << 30 ? 1ull << 60 : (uint64_t)t->tv_sec * 1000000000 + t->tv_nsec;
    if (ns > from) ck_pass(ns - from);
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (!active) return syscall(SYS_nanosleep, t, rem);
    ck_pause(t, 0);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    if (!active) return syscall(SYS_clock_nanosleep, id, flags, t, rem) ? errno : 0;
    ck_pause(t, flags & TIMER_ABSTIME ? ck_mono : 0);
    return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!active) return syscall(SYS_getrandom, buf, n, flags);
    log_[K_CLOCK]++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = mix(i ^ 0x5EED) >> 11;
    return n;
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("WSIM_PLAN");
    if (!p) return;
    struct rlimit lim = {2ull << 30, 2ull << 30};
    setrlimit(RLIMIT_AS, &lim);
    struct rlimit cpu = {20, 20};
    setrlimit(RLIMIT_CPU, &cpu);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    char *copy = strdup(p), *save = NULL;
    for (char *t = strtok_r(copy, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
        unsigned long long a = 0, b = 0, c = 0;
        if (sscanf(t, "rc=%llu:%llu", &a, &b) == 2) rc_seed = a, rc_max = b;
        else if (sscanf(t, "re=%llu:%llu:%llu", &a, &b, &c) == 3) re_off = a, re_err = b, re_sticky = c;
        else if (sscanf(t, "op=%llu:%llu", &a, &b) == 2) op_err = a, op_n = b;
        else if (sscanf(t, "ck=%llu", &a) == 1) ck_seed = a;
        else if (!strncmp(t, "wc", 2) && (t[2] == '1' || t[2] == '2')) {
            if (sscanf(t + 3, "=%llu:%llu", &a, &b) == 2) wc_seed[t[2] - '0'] = a, wc_max[t[2] - '0'] = b;
        } else if (!strncmp(t, "wi", 2) && (t[2] == '1' || t[2] == '2')) {
            if (sscanf(t + 3, "=%llu", &a) == 1) wi[t[2] - '0'] = a;
        } else if (!strncmp(t, "wf", 2) && (t[2] == '1' || t[2] == '2')) {
            if (sscanf(t + 3, "=%llu:%llu", &a, &b) == 2) wf_off[t[2] - '0'] = a, wf_err[t[2] - '0'] = b;
        } else if (!strncmp(t, "ri=", 3)) {
            char *s2 = NULL;
            for (char *u = strtok_r(t + 3, ",", &s2); u && nri < 512; u = strtok_r(NULL, ",", &s2))
                if (sscanf(u, "%llu:%llu", &a, &b) == 2) ri[nri].off = a, ri[nri].n = b, nri++;
        }
    }
    free(copy);
    ck_mono += mix(ck_seed) >> 20;
    if (ck_mode() == 7) ck_wall = -5 * YEAR;
    if (ck_mode() == 6) ck_wall = 68 * YEAR;
    const char *l = getenv("WSIM_LOG");
    if (l) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_RDWR | O_CREAT, 0600);
        if (fd >= 0) {
            if (ftruncate(fd, 4096) == 0) {
                void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) log_ = m;
            }
            syscall(SYS_close, fd);
        }
    }
    active = 1;
    const char *in = getenv("WSIM_IN");
    if (!in) in = "";
    if (!strcmp(in, "-")) fstat(0, &in_st);
    else stat(in, &in_st);
}

/* is this descriptor the input? */
static int mine(int fd) {
    struct stat st;
    int e = errno, r = fstat(fd, &st) == 0 && st.st_ino == in_st.st_ino && st.st_dev == in_st.st_dev;
    errno = e;
    return r;
}

static ssize_t sim_read(int fd, void *buf, size_t n) {
    if (n == 0) return 0;
    log_[K_READS]++;
    ck_tick();
    if (re_fired) log_[K_AFTER]++;
    if (cri < nri && ri[cri].off <= rpos) {
        if (ri[cri].n > 0) {
            ri[cri].n--;
            log_[K_REINTR]++;
            note(1, rpos);
            errno = EINTR;
            return -1;
        }
        cri++;
    }
    if (re_off >= 0 && rpos >= (uint64_t)re_off && (!re_fired || re_sticky)) {
        re_fired = 1;
        note(2, rpos);
        if (re_err == 0) {
            log_[K_REOF]++;
            return 0;
        }
        log_[K_RFAIL]++;
        errno = re_err;
        return -1;
    }
    size_t want = n;
    if (rc_max) {
        size_t k = 1 + mix(rc_seed ^ mix(rpos)) % rc_max;
        if (k < want) want = k;
    }
    if (re_off >= 0 && !re_fired && rpos + want > (uint64_t)re_off) want = re_off - rpos;
    ssize_t r = syscall(SYS_read, fd, buf, want);
    if (r > 0) {
        if ((size_t)r < n) log_[K_RSHORT]++;
        note(3, rpos * 65537 + r);
        rpos += r;
        log_[K_BYTES] += r;
    }
    return r;
}

static ssize_t sim_write(int fd, const void *buf, size_t n) {
    log_[K_WRITES]++;
    ck_tick();
    wcount[fd]++;
    if (n == 0) return 0;
    if (wi[fd] && wcount[fd] % wi[fd] == 0) {
        log_[K_WEINTR]++;
        note(4, wpos[fd]);
        errno = EINTR;
        return -1;
    }
    if (wf_off[fd] >= 0 && wpos[fd] >= (uint64_t)wf_off[fd]) {
        log_[K_WFAIL]++;
        note(5, wpos[fd]);
        if (wf_err[fd] == 0) return 0;
        errno = wf_err[fd];
        return -1;
    }
    size_t want = n;
    if (wc_max[fd]) {
        size_t k = 1 + mix(wc_seed[fd] ^ mix(wpos[fd])) % wc_max[fd];
        if (k < want) want = k;
    }
    if (wf_off[fd] >= 0 && wpos[fd] + want > (uint64_t)wf_off[fd]) want = wf_off[fd] - wpos[fd];
    ssize_t r = syscall(SYS_write, fd, buf, want);
    if (r > 0) {
        if ((size_t)r < n) log_[K_WSHORT]++;
        wpos[fd] += r;
    }
    return r;
}

ssize_t read(int fd, void *buf, size_t n) {
    if (active && mine(fd)) return sim_read(fd, buf, n);
    return syscall(SYS_read, fd, buf, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (active && mine(fd)) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_readv, fd, v, c);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    if (active && mine(fd)) {
        rpos = o;
        lseek(fd, o, SEEK_SET);
        return sim_read(fd, buf, n);
    }
    return syscall(SYS_pread64, fd, buf, n, o);
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (active && (fd == 1 || fd == 2)) return sim_write(fd, buf, n);
    return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (active && (fd == 1 || fd == 2)) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, c);
}
static int do_open(int dir, const char *path, int flags, mode_t mode) {
    /* by identity, whatever name is used for it */
    struct stat st;
    int in = active && path && !(flags & O_CREAT) && fstatat(dir, path, &st, 0) == 0 && st.st_ino == in_st.st_ino && st.st_dev == in_st.st_dev;
    if (in && op_n > 0) {
        op_n--;
        log_[K_OPENFAIL]++;
        note(6, op_err);
        errno = op_err;
        return -1;
    }
    return syscall(SYS_openat, dir, path, flags, mode);
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
