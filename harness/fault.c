#define _GNU_SOURCE
#include "fault.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sys/types.h>

static int on, mask, first, count, mode, second, calls, hits;
static unsigned char kinds[F_NOP];

void fault_on(int m, int f, int n, int mo)
{
  mask = m, first = f, count = n, mode = mo, second = -1, calls = hits = 0;
  on = 1;
}

void fault_also(int s) { second = s; }

int fault_off(void)
{
  on = 0;
  return calls;
}

int fault_hits(void) { return hits; }
int fault_kind(int i) { return i < F_NOP ? kinds[i] : 0; }

static int hit(int kind)
{
  if (!on || !(kind & mask)) return 0;
  int i = calls++;
  if (i < F_NOP) kinds[i] = kind;
  if ((first >= 0 && i >= first && i - first < count) || i == second)
  {
    hits++;
    errno = kind == F_WRITE || kind == F_FLUSH ? ENOSPC : EIO;
    return 1;
  }
  return 0;
}

#define REAL(name) real_##name = dlsym(RTLD_NEXT, #name)
#define STD(f) ((f) == stdout || (f) == stderr || (f) == stdin)

size_t fread(void *p, size_t s, size_t n, FILE *f)
{
  static size_t (*real_fread)(void *, size_t, size_t, FILE *);
  if (!real_fread) REAL(fread);
  if (!STD(f) && hit(F_READ))
  {
    if (!mode) return 0;
    if (s == 1)
      return real_fread(p, s, n / 2, f);
    return real_fread(p, s, n - 1, f);
  }
  return real_fread(p, s, n, f);
}

size_t __fread_chk(void *p, size_t len, size_t s, size_t n, FILE *f);
size_t __fread_chk(void *p, size_t len, size_t s, size_t n, FILE *f)
{
  if (s * n > len) abort();
  return fread(p, s, n, f);
}

size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
  static size_t (*real_fwrite)(const void *, size_t, size_t, FILE *);
  if (!real_fwrite) REAL(fwrite);
  if (!STD(f) && hit(F_WRITE))
  {
    if (!mode) return 0;
    return real_fwrite(p, s, s == 1 ? n / 2 : n - 1, f);
  }
  return real_fwrite(p, s, n, f);
}

int fseek(FILE *f, long o, int w)
{
  static int (*real_fseek)(FILE *, long, int);
  if (!real_fseek) REAL(fseek);
  if (hit(F_SEEK)) return -1;
  return real_fseek(f, o, w);
}

int fseeko64(FILE *f, off64_t o, int w)
{
  static int (*real_fseeko64)(FILE *, off64_t, int);
  if (!real_fseeko64) REAL(fseeko64);
  if (hit(F_SEEK)) return -1;
  return real_fseeko64(f, o, w);
}

int fflush(FILE *f)
{
  static int (*real_fflush)(FILE *);
  if (!real_fflush) REAL(fflush);
  if (f && !STD(f) && hit(F_FLUSH)) return EOF;
  return real_fflush(f);
}

int fclose(FILE *f)
{
  static int (*real_fclose)(FILE *);
  if (!real_fclose) REAL(fclose);
  int h = !STD(f) && hit(F_CLOSE);
  int r = real_fclose(f);
  if (h) errno = EIO;
  return h ? EOF : r;
}

FILE *fopen64(const char *p, const char *m)
{
  static FILE *(*real_fopen64)(const char *, const char *);
  if (!real_fopen64) REAL(fopen64);
  if (hit(F_OPEN)) return NULL;
  return real_fopen64(p, m);
}

int ftruncate64(int fd, off64_t n)
{
  static int (*real_ftruncate64)(int, off64_t);
  if (!real_ftruncate64) REAL(ftruncate64);
  if (hit(F_TRUNC)) return -1;
  return real_ftruncate64(fd, n);
}

int remove(const char *p)
{
  static int (*real_remove)(const char *);
  if (!real_remove) REAL(remove);
  if (hit(F_REMOVE)) return -1;
  return real_remove(p);
}

int open_fds(void)
{
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
