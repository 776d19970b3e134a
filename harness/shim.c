/* A stand-in for a failing machine: loaded into the programs of LattE (and
   the tools they start) with LD_PRELOAD.
     SHIM_KEEP=1     files named relative to the working directory are not removed
     SHIM_STOP=n     the program is killed at its n-th file operation
     SHIM_TOOL=name  the program called name is killed at its SHIM_TOOLSTOP-th
   Nothing outside the working directory is ever touched by it.  */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>

static int limit, count, keep;
static void __attribute__((constructor)) init(void)
{
  const char *tool = getenv("SHIM_TOOL"), *s;
  keep = getenv("SHIM_KEEP") != NULL;
  const char *me = program_invocation_short_name;
  if (tool && strcmp(tool, me) == 0) { s = getenv("SHIM_TOOLSTOP"); limit = s ? atoi(s) : 0; }
  else if (getenv("SHIM_MAIN") && strcmp(getenv("SHIM_MAIN"), me) == 0) { s = getenv("SHIM_STOP"); limit = s ? atoi(s) : 0; }
}
static void op(void)
{
  count++;
  if (limit && count == limit) { kill(getpid(), SIGKILL); for (;;) pause(); }
}
#define NEXT(f) ((__typeof__(&f)) dlsym(RTLD_NEXT, #f))
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, flags); m = va_arg(l, int); va_end(l); }
int open(const char *p, int flags, ...) { MODE op(); return NEXT(open)(p, flags, m); }
int open64(const char *p, int flags, ...) { MODE op(); return NEXT(open64)(p, flags, m); }
FILE *fopen(const char *p, const char *w) { op(); return NEXT(fopen)(p, w); }
FILE *fopen64(const char *p, const char *w) { op(); return NEXT(fopen64)(p, w); }
int fclose(FILE *f) { op(); return NEXT(fclose)(f); }
int close(int fd) { return NEXT(close)(fd); }
int system(const char *c) { op(); return NEXT(system)(c); }
int rename(const char *a, const char *b) { op(); return NEXT(rename)(a, b); }
int unlink(const char *p) { op(); if (keep && p[0] != '/') return 0; return NEXT(unlink)(p); }
int remove(const char *p) { op(); if (keep && p[0] != '/') return 0; return NEXT(remove)(p); }
int unlinkat(int fd, const char *p, int flags)
{
  op();
  if (keep && fd == AT_FDCWD && p[0] != '/' && !(flags & AT_REMOVEDIR)) return 0;
  return NEXT(unlinkat)(fd, p, flags);
}
