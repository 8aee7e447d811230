/* LD_PRELOAD: end the process (as kill -9 would) at the n-th file modifying call on a database file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/types.h>
static long at=-2, n;
static int interesting(int fd){ char p[64], b[512]; snprintf(p,64,"/proc/self/fd/%d",fd); ssize_t r=readlink(p,b,511); if(r<=0) return 0; b[r]=0; return strstr(b,".db")!=NULL; }
static void tick(void){ if(at==-2){ char *e=getenv("CRASH_AT"); at=e?atol(e):-1; } n++; if(at>=0 && n>at) kill(getpid(),SIGKILL); }
#define REAL(name) static __typeof__(&name) f; if(!f) f=(__typeof__(&name))dlsym(RTLD_NEXT,#name)
ssize_t pwrite64(int fd,const void *b,size_t c,off64_t o){ REAL(pwrite64); if(interesting(fd)) tick(); return f(fd,b,c,o); }
ssize_t pwrite(int fd,const void *b,size_t c,off_t o){ REAL(pwrite); if(interesting(fd)) tick(); return f(fd,b,c,o); }
ssize_t write(int fd,const void *b,size_t c){ REAL(write); if(interesting(fd)) tick(); return f(fd,b,c); }
int ftruncate64(int fd,off64_t l){ REAL(ftruncate64); if(interesting(fd)) tick(); return f(fd,l); }
int ftruncate(int fd,off_t l){ REAL(ftruncate); if(interesting(fd)) tick(); return f(fd,l); }
int unlink(const char *p){ REAL(unlink); if(strstr(p,".db")) tick(); return f(p); }
