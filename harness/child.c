/* A program for the master to supervise.  It reports what it was started with and ends as its
   control file says.  Nothing here depends on the code under test. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <grp.h>
#include <sys/syscall.h>
#include <sys/types.h>

static char dir[1024], base[256];
static int lfd = -1;
static long long now(void) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }
static void line(const char *what, const char *rest)
{
    static char b[65536];
    char word[256]; int i = -1;
    do { i++; word[i] = base[i] == ' ' ? 1 : base[i] == '\n' ? 2 : base[i]; } while(base[i]);     /* one word */
    int n = snprintf(b, sizeof b, "%s %lld %s %d %d %s\n", what, now(), word, (int)getpid(), (int)getppid(), rest);
    if(n >= (int)sizeof b) n = sizeof b - 1;
    if(write(lfd, b, n) != n) ;
}
static void nap(long long us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; syscall(SYS_nanosleep, &t, NULL); }
static volatile sig_atomic_t got;
static void onsig(int s) { got = s; }
static int ctl(const char *key, long *val, char *buf)
{
    char *p = buf; size_t l = strlen(key);
    while((p = strstr(p, key))) {
        if((p == buf || p[-1] == ' ') && (p[l] == ' ' || p[l] == 0 || p[l] == '\n')) { *val = atol(p + l); return 1; }
        p += l;
    }
    return 0;
}
int main(int argc, char **argv)
{
    static char rest[60000], buf[1024], path[2048];
    char *b; int n = 0, i, ng, fd; gid_t g[256]; long v; uid_t r, e, s; gid_t rg, eg, sg; long long t0 = now();
    struct sigaction sa; sigset_t m;

    b = getenv("VF_CHILD_DIR"); snprintf(dir, sizeof dir, "%s", b ? b : "/nonexistent");
    b = strrchr(argv[0], '/'); snprintf(base, sizeof base, "%s", b ? b + 1 : argv[0]);
    snprintf(path, sizeof path, "%s/log", dir);
    lfd = open(path, O_WRONLY | O_APPEND | O_CLOEXEC);
    if(lfd < 0) return 111;
    getresuid(&r, &e, &s); getresgid(&rg, &eg, &sg);
    n += snprintf(rest + n, sizeof rest - n, "%d,%d,%d %d,%d,%d ", (int)r, (int)e, (int)s, (int)rg, (int)eg, (int)sg);
    ng = getgroups(256, g);
    for(i = 0; i < ng; i++) n += snprintf(rest + n, sizeof rest - n, "%s%d", i ? "," : "", (int)g[i]);
    if(ng <= 0) n += snprintf(rest + n, sizeof rest - n, "-");
    b = getenv("VF_MARK");
    n += snprintf(rest + n, sizeof rest - n, " %s %d", b && *b ? b : "-", argc);
    for(i = 0; i < argc && n < (int)sizeof rest - 600; i++) {
        n += snprintf(rest + n, sizeof rest - n, " x");
        for(b = argv[i]; *b && n < (int)sizeof rest - 600; b++) n += snprintf(rest + n, sizeof rest - n, "%02x", (unsigned char)*b);
    }
    memset(&sa, 0, sizeof sa); sa.sa_handler = onsig;
    snprintf(path, sizeof path, "%s/ctl.%s", dir, base);
    fd = open(path, O_RDONLY); if(fd >= 0) { if(read(fd, buf, sizeof buf - 1) < 0) ; close(fd); }
    if(ctl("setsid", &v, buf)) setsid();
    if(ctl("setpgid", &v, buf)) setpgid(0, 0);
    sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, NULL);
    if(ctl("ignterm", &v, buf)) { signal(SIGTERM, SIG_IGN); signal(SIGINT, SIG_IGN); } else { sigaction(SIGTERM, &sa, NULL); sigaction(SIGINT, &sa, NULL); }
    if(ctl("ignquit", &v, buf)) signal(SIGQUIT, SIG_IGN); else sigaction(SIGQUIT, &sa, NULL);
    if(ctl("alloc", &v, buf)) { char *m = malloc(v * 1024); memset(m, 1, v * 1024); }
    line("S", rest);
    if(ctl("exit", &v, buf)) _exit(v);
    if(ctl("abort", &v, buf)) { signal(SIGABRT, SIG_DFL); kill(getpid(), SIGKILL); }
    v = -1; ctl("live", &v, buf);
    for(;;) {
        if(got) { char x[32]; snprintf(x, sizeof x, "%d", (int)got); line("T", x); if(ctl("slowterm", &v, buf)) nap(v * 1000); _exit(0); }
        if(v >= 0 && now() - t0 > v * 1000LL) _exit(0);
        { long x; if(ctl("spin", &x, buf)) while(!got) ; }
        nap(v >= 0 ? 2000 : 50000);
    }
}
