/* LD_PRELOAD: the program lives VF_WARP times as fast as the real clock. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <stdlib.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
static double W = 0; static long long r0, m0;
static long long raw(int c) { struct timespec t; syscall(SYS_clock_gettime, c, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
__attribute__((constructor)) static void init(void) { char *e = getenv("VF_WARP"); if(W) return; W = e ? atof(e) : 1; if(W <= 0) W = 1; r0 = raw(CLOCK_REALTIME); m0 = raw(CLOCK_MONOTONIC); }
static long long wall(int c) { long long d; if(!W) init(); d = raw(CLOCK_MONOTONIC) - m0; return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? r0 : m0) + (long long)(d * W); }
int gettimeofday(struct timeval *restrict tv, void *restrict z) { long long t = wall(CLOCK_REALTIME); tv->tv_sec = t / 1000000000; tv->tv_usec = t / 1000 % 1000000; return 0; }
time_t time(time_t *p) { time_t t = wall(CLOCK_REALTIME) / 1000000000; if(p) *p = t; return t; }
int clock_gettime(clockid_t c, struct timespec *ts)
{
    long long t;
    if(c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_BOOTTIME && c != CLOCK_MONOTONIC_RAW && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE) return syscall(SYS_clock_gettime, c, ts);
    t = wall(c); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
static int doze(long long ns, long long *left)      /* ns of the program's time */
{
    struct timespec a, b = {0, 0}; long long q; int r;
    if(!W) init();
    q = ns / W; if(ns > 0 && q < 1000) q = 1000;
    a.tv_sec = q / 1000000000; a.tv_nsec = q % 1000000000;
    r = syscall(SYS_nanosleep, &a, &b);
    if(left) *left = r ? (long long)((b.tv_sec * 1000000000LL + b.tv_nsec) * W) : 0;
    return r;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
    long long l; int r;
    if(a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999) { errno = EINVAL; return -1; }
    r = doze(a->tv_sec * 1000000000LL + a->tv_nsec, &l);
    if(r && b) { b->tv_sec = l / 1000000000; b->tv_nsec = l % 1000000000; }
    return r;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
    long long t = a->tv_sec * 1000000000LL + a->tv_nsec, l; int r, s = errno;
    if(fl & TIMER_ABSTIME) { t -= wall(c); if(t < 0) t = 0; b = NULL; }
    r = doze(t, &l); if(r) { r = errno; errno = s; if(b) { b->tv_sec = l / 1000000000; b->tv_nsec = l % 1000000000; } }
    return r;
}
int usleep(useconds_t u) { return doze(u * 1000LL, NULL); }
unsigned int sleep(unsigned int s) { long long l; doze(s * 1000000000LL, &l); return (l + 999999999) / 1000000000; }
int poll(struct pollfd *f, nfds_t n, int ms) { struct timespec t; if(!W) init(); if(ms >= 0) { long long q = ms * 1000000LL / W; t.tv_sec = q / 1000000000; t.tv_nsec = q % 1000000000; } return syscall(SYS_ppoll, f, n, ms >= 0 ? &t : NULL, NULL, 8); }
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *tv) { struct timespec t; if(!W) init(); if(tv) { long long q = (tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL) / W; t.tv_sec = q / 1000000000; t.tv_nsec = q % 1000000000; } return syscall(SYS_pselect6, n, a, b, c, tv ? &t : NULL, NULL); }
int sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *ts) { struct timespec t; if(!W) init(); if(ts) { long long q = (ts->tv_sec * 1000000000LL + ts->tv_nsec) / W; t.tv_sec = q / 1000000000; t.tv_nsec = q % 1000000000; } return syscall(SYS_rt_sigtimedwait, s, i, ts ? &t : NULL, 8); }
