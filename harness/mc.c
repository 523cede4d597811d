#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXV 20000
#define MAXW 64
#define OUTCAP (1 << 17)

typedef struct
{
  volatile long iter;       /* bodies started, skipped ones included */
  volatile long executed;   /* bodies run to the end */
  volatile long steps;      /* choice points resolved in executed bodies */
  volatile long evals;
  volatile int len, pos;
  volatile int done, capped, known;
  int nOut, outOverflow;
  char msg[8192];
  char key[256];
  char sample[6][600];
  int nsample;
  int maxlen;
  short vec[MAXV];
  short n[MAXV];
  unsigned char kind[MAXV];
  const char *label[MAXV];
  uint64_t out[OUTCAP];
} shared;

int mc_thorough = 0;
void (*mc_cleanup)(void) = NULL;
char mc_dir[512], mc_log[512], mc_bindir[512];
static char scratch[400];
static int nworkers = 8, me = 0, devBound = 0, devUsed = 0;
static shared *S; /* this worker's */
static shared *All;
static jmp_buf jb;
static int replaying = 0, mineDone = 0;
static double deadline = 0;
static const char *curProp = "?";
static char *knownKeys[256];
static int nKnown = 0;
static int knownHits[256];

static double now(void)
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
  const unsigned char *c = p;
  h ^= 0xcbf29ce484222325ULL;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 0x100000001b3ULL;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ULL;
  h ^= h >> 32;
  return h;
}

static int choice(int n, const char *label, int kind)
{
  int i = S->pos;
  if (n < 1 || i >= MAXV || n > 32767)
  {
    fprintf(stderr, "mc: bad choice '%s' n=%d at %d\n", label, n, i);
    _exit(70);
  }
  if (i < S->len)
  {
    if (!replaying && (S->n[i] != n || S->kind[i] != kind))
    {
      fprintf(stderr, "mc: DIVERGENCE at %d (%s): n %d was %d\n", i, label, n,
              S->n[i]);
      _exit(70);
    }
    if (S->vec[i] >= n)
    {
      fprintf(stderr, "mc: replayed choice out of range at %d (%s)\n", i,
              label);
      _exit(70);
    }
    S->n[i] = n;
    S->kind[i] = kind;
  }
  else
  {
    S->vec[i] = 0;
    S->n[i] = n;
    S->kind[i] = kind;
    S->len = i + 1;
  }
  S->label[i] = label;
  S->pos = i + 1;
  if (kind == 1 && S->vec[i]) devUsed++;
  return S->vec[i];
}

int mc_pick(int n, const char *label)
{
  if (n == 1) return 0;
  return choice(n, label, 0);
}

int mc_devs_left(void)
{
  return devBound - devUsed;
}

int mc_dev(int n, const char *label)
{
  if (n == 1) return 0;
  if (!replaying && devUsed >= devBound) return 0;
  if (replaying && S->pos >= S->len) return 0;
  if (replaying && devUsed >= devBound) return 0;
  return choice(n, label, 1);
}

void mc_mine(void)
{
  if (mineDone) return;
  mineDone = 1;
  if (replaying) return;
  if (deadline > 0 && (S->iter & 15) == 0 && now() > deadline)
  {
    S->capped = 1;
    longjmp(jb, 3);
  }
  if (nworkers > 1)
  {
    uint64_t h =
        mc_hash((const void *)S->vec, sizeof(short) * (size_t)S->pos, 77);
    if ((int)((h >> 20) % nworkers) != me) longjmp(jb, 1);
  }
}

void mc_skip(void)
{
  if (replaying)
  {
    fprintf(stderr, "mc: replay reached an infeasible combination\n");
    _exit(70);
  }
  longjmp(jb, 2);
}

static void vfail(const char *key, const char *fmt, va_list ap)
{
  vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
  snprintf(S->key, sizeof(S->key), "%s", key);
  if (*key)
    for (int i = 0; i < nKnown; i++)
      if (strcmp(knownKeys[i], key) == 0)
      {
        S->known |= 1 << (i & 31);
        knownHits[i]++;
        longjmp(jb, 4);
      }
  fflush(NULL);
  _exit(77);
}

void mc_fail(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vfail("", fmt, ap);
  va_end(ap);
  abort();
}

void mc_fail_key(const char *key, const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vfail(key, fmt, ap);
  va_end(ap);
  abort();
}

void mc_outcome(uint64_t h)
{
  if (h == 0) h = 1;
  if (S->nOut > OUTCAP * 3 / 4)
  {
    S->outOverflow = 1;
    return;
  }
  uint64_t i = h & (OUTCAP - 1);
  while (S->out[i] && S->out[i] != h)
    i = (i + 1) & (OUTCAP - 1);
  if (!S->out[i])
  {
    S->out[i] = h;
    S->nOut++;
  }
}

void mc_evals(long n)
{
  S->evals += n;
}

int mc_replaying(void)
{
  return replaying;
}

/* ---- capture of stdout/stderr (both go to mc_log, opened O_APPEND) ---- */
static long capMark;
static void logTrim(void)
{
  struct stat st;
  if (stat(mc_log, &st) == 0 && st.st_size > (1 << 20))
  {
    if (truncate(mc_log, 0)) {}
  }
}
void mc_cap_begin(void)
{
  struct stat st;
  fflush(stdout);
  fflush(stderr);
  logTrim();
  capMark = (stat(mc_log, &st) == 0) ? (long)st.st_size : 0;
}
char *mc_cap_end(void)
{
  struct stat st;
  fflush(stdout);
  fflush(stderr);
  int fd = open(mc_log, O_RDONLY);
  if (fd < 0 || fstat(fd, &st)) { _exit(71); }
  long n = (long)st.st_size - capMark;
  if (n < 0) n = 0;
  char *b = malloc(n + 1);
  if (pread(fd, b, n, capMark) != n) _exit(71);
  b[n] = 0;
  close(fd);
  return b;
}

static void describe(shared *w, char *buf, size_t cap)
{
  size_t k = 0;
  buf[0] = 0;
  int skipped = 0;
  for (int i = 0; i < w->len && k + 80 < cap; i++)
  {
    if (w->kind[i] == 1 && w->vec[i] == 0)
    {
      skipped++;
      continue;
    }
    k += snprintf(buf + k, cap - k, "%s%s=%d/%d", k ? " " : "",
                  w->label[i] ? w->label[i] : "?", w->vec[i], w->n[i]);
  }
  if (skipped)
    snprintf(buf + k, cap - k, "%s(+%d choices at default)", k ? " " : "",
             skipped);
}

static void explore(const mc_scope *sc)
{
  S->len = 0;
  do
  {
    S->pos = 0;
    devUsed = 0;
    mineDone = 0;
    S->iter++;
    int r = setjmp(jb);
    if (r == 0)
    {
      sc->run();
      if (S->pos < S->len)
      {
        fprintf(stderr, "mc: DIVERGENCE: run ended after %d of %d choices\n",
                S->pos, S->len);
        _exit(70);
      }
      S->executed++;
      S->steps += S->pos;
      if (S->len > S->maxlen) S->maxlen = S->len;
      long e = S->executed;
      if (S->nsample < 6 && (e == 1 || e == 7 || e == 50 || e == 333 ||
                             e == 2500 || e == 20000))
        describe(S, S->sample[S->nsample++], sizeof(S->sample[0]));
      if ((e & 1023) == 0)
      {
        fflush(NULL);
        logTrim();
      }
    }
    else if (r == 3)
      return;
    if (mc_cleanup) mc_cleanup();
    /* next vector */
    S->len = S->pos;
    int used = 0, i;
    static int costBefore[MAXV];
    for (i = 0; i < S->len; i++)
    {
      costBefore[i] = used;
      if (S->kind[i] == 1 && S->vec[i]) used++;
    }
    while (S->len > 0)
    {
      i = S->len - 1;
      if (S->vec[i] + 1 < S->n[i] &&
          (S->kind[i] == 0 || costBefore[i] < devBound))
      {
        S->vec[i]++;
        break;
      }
      S->len--;
    }
  } while (S->len > 0);
  S->done = 1;
}

static void child_setup(int w)
{
  me = w;
  snprintf(mc_dir, sizeof(mc_dir), "%s/w%d", scratch, w);
  snprintf(mc_log, sizeof(mc_log), "%s/w%d.log", scratch, w);
  mkdir(mc_dir, 0700);
  if (chdir(mc_dir)) _exit(71);
  int fd = open(mc_log, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  int nul = open("/dev/null", O_RDONLY);
  dup2(nul, 0);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
  close(nul);
}

static char *logTail(int w)
{
  char p[512];
  static char buf[200000];
  snprintf(p, sizeof(p), "%s/w%d.log", scratch, w);
  FILE *f = fopen(p, "r");
  buf[0] = 0;
  if (!f) return buf;
  fseek(f, 0, SEEK_END);
  long n = ftell(f), off = n > 190000 ? n - 190000 : 0;
  fseek(f, off, SEEK_SET);
  size_t k = fread(buf, 1, sizeof(buf) - 1, f);
  buf[k] = 0;
  fclose(f);
  return buf;
}

/* one-line explanation of a crash from the log */
static void crashLine(int w, int st, char *out, size_t cap)
{
  char *t = logTail(w);
  char *e = NULL, *x;
  static const char *pat[] = {"ERROR: AddressSanitizer", "runtime error:",
                              "Assertion", "assertion failed",
                              "FATAL", "ERROR:", "mc:", NULL};
  for (int i = 0; pat[i] && !e; i++)
    for (x = t; (x = strstr(x, pat[i])); x++)
      e = x;
  char line[1500] = "";
  if (e)
  {
    while (e > t && e[-1] != '\n')
      e--;
    size_t n = strcspn(e, "\n");
    if (n > 1000) n = 1000;
    memcpy(line, e, n);
    line[n] = 0;
    /* first stack frame inside the library */
    if ((x = strstr(e, "src/oifitslib/")) || (x = strstr(e, "src/util/")))
    {
      n = strcspn(x, "\n )");
      size_t k = strlen(line);
      if (n < 200) snprintf(line + k, sizeof(line) - k, " at %.*s", (int)n, x);
    }
  }
  if (WIFSIGNALED(st))
    snprintf(out, cap, "crash: signal %d; %s", WTERMSIG(st), line);
  else
    snprintf(out, cap, "crash: exit status %d; %s", WEXITSTATUS(st), line);
}

static int runReplay(const mc_scope *sc, shared *src, double limit,
                     char *msg, size_t cap)
{ /* returns 0 ok, 1 failed (msg set), 2 engine error */
  shared *keep = S;
  int w = MAXW - 1;
  shared *R = &All[w];
  memset((void *)R, 0, offsetof(shared, vec));
  R->len = src->len;
  memcpy(R->vec, src->vec, sizeof(short) * src->len);
  fflush(NULL);
  pid_t p = fork();
  if (p == 0)
  {
    S = R;
    child_setup(w);
    replaying = 1;
    mineDone = 0;
    int r = setjmp(jb);
    if (r == 0)
    {
      S->pos = 0;
      devUsed = 0;
      sc->run();
    }
    fflush(NULL);
    _exit(r == 0 || r == 4 ? 0 : 70);
  }
  S = keep;
  double t0 = now();
  int st;
  for (;;)
  {
    if (waitpid(p, &st, WNOHANG) == p) break;
    if (now() - t0 > limit)
    {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      snprintf(msg, cap, "hang: no result after %.0f s", limit);
      return 1;
    }
    usleep(5000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
  {
    snprintf(msg, cap, "%s", R->msg);
    return 1;
  }
  crashLine(w, st, msg, cap);
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71))
    return 2;
  return 1;
}

static void jstr(FILE *f, const char *s)
{
  fputc('"', f);
  for (; *s; s++)
  {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static int cmpu(const void *a, const void *b)
{
  uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b;
  return x < y ? -1 : x > y;
}

static const mc_scope *find(const char *prop, const char *name)
{
  for (int i = 0; mc_scope_tables[i]; i++)
    for (const mc_scope *s = mc_scope_tables[i]; s->prop; s++)
      if (!strcmp(s->prop, prop) && !strcmp(s->name, name)) return s;
  return NULL;
}

/* explore one scope; returns 0 clean, 1 violation, 2 engine error */
static int doScope(const mc_scope *sc, FILE *out, const char *replayPath)
{
  pid_t pid[MAXW];
  int alive = 0, rc = 0;
  long lastIter[MAXW];
  double lastT[MAXW];
  double t0 = now();
  devBound = mc_thorough ? sc->devThorough : sc->devQuick;
  fflush(NULL);
  for (int w = 0; w < nworkers; w++)
  {
    memset((void *)&All[w], 0, offsetof(shared, vec));
    memset((void *)All[w].out, 0, sizeof(All[w].out));
    pid[w] = fork();
    if (pid[w] == 0)
    {
      S = &All[w];
      child_setup(w);
      explore(sc);
      fflush(NULL);
      _exit(0);
    }
    alive++;
    lastIter[w] = -1;
    lastT[w] = now();
  }
  int bad = -1, badSt = 0, hang = 0;
  while (alive > 0 && bad < 0)
  {
    usleep(3000);
    for (int w = 0; w < nworkers; w++)
    {
      int st;
      if (pid[w] <= 0) continue;
      if (waitpid(pid[w], &st, WNOHANG) == pid[w])
      {
        pid[w] = 0;
        alive--;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
          bad = w;
          badSt = st;
          break;
        }
        continue;
      }
      if (All[w].iter != lastIter[w])
      {
        lastIter[w] = All[w].iter;
        lastT[w] = now();
      }
      else if (now() - lastT[w] > 30)
      {
        kill(pid[w], SIGKILL);
        waitpid(pid[w], &st, 0);
        pid[w] = 0;
        alive--;
        bad = w;
        badSt = st;
        hang = 1;
        break;
      }
    }
  }
  for (int w = 0; w < nworkers; w++)
    if (pid[w] > 0)
    {
      kill(pid[w], SIGKILL);
      waitpid(pid[w], NULL, 0);
    }
  char msg[8192] = "", msg2[8192] = "", desc[2000] = "";
  if (bad >= 0)
  {
    shared *b = &All[bad];
    describe(b, desc, sizeof(desc));
    if (hang)
      snprintf(msg, sizeof(msg), "hang: no progress for 30 s");
    else if (WIFEXITED(badSt) && WEXITSTATUS(badSt) == 77)
      snprintf(msg, sizeof(msg), "%s", b->msg);
    else
      crashLine(bad, badSt, msg, sizeof(msg));
    int engine = !hang && WIFEXITED(badSt) &&
                 (WEXITSTATUS(badSt) == 70 || WEXITSTATUS(badSt) == 71);
    const char *mode = "vector";
    if (engine)
    {
      fprintf(stderr, "engine error in %s/%s: %s [%s]\n", sc->prop, sc->name,
              msg, desc);
      rc = 2;
    }
    else
    {
      int r = runReplay(sc, b, hang ? 60 : 60, msg2, sizeof(msg2));
      if (r == 1)
        rc = 1;
      else
      {
        /* maybe it needs the executions before it: run that worker again */
        mode = "history";
        long it = b->iter;
        fflush(NULL);
        pid_t p = fork();
        if (p == 0)
        {
          memset((void *)&All[bad], 0, offsetof(shared, vec));
          S = &All[bad];
          child_setup(bad);
          explore(sc);
          fflush(NULL);
          _exit(0);
        }
        int st;
        double h0 = now();
        for (;;)
        {
          if (waitpid(p, &st, WNOHANG) == p) break;
          if (now() - h0 > 60 + 2 * (h0 - t0))
          {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            break;
          }
          usleep(5000);
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && All[bad].iter == it)
          rc = 1;
        else
        {
          fprintf(stderr,
                  "engine error in %s/%s: failure not reproducible: %s [%s]\n",
                  sc->prop, sc->name, msg, desc);
          rc = 2;
        }
      }
    }
    if (rc == 1)
    {
      FILE *f = fopen(replayPath, "w");
      if (f)
      {
        fprintf(f, "property %s\nscope %s\ntier %s\nmode %s %d/%d\nlen %d\nvec",
                sc->prop, sc->name, mc_thorough ? "thorough" : "quick", mode,
                bad, nworkers, b->len);
        for (int i = 0; i < b->len; i++)
          fprintf(f, " %d", b->vec[i]);
        fprintf(f, "\nchoices %s\nmessage %s\n", desc, msg);
        fclose(f);
      }
      printf("counterexample in scope %s: %s\n  choices: %s\n", sc->name, msg,
             desc);
      printf("VIOLATION property=%s replay=%s\n", sc->prop, replayPath);
      fflush(stdout);
    }
  }
  long ex = 0, st = 0, it = 0, ev = 0;
  int capped = 0, nout = 0, ovf = 0, maxlen = 0;
  unsigned known = 0;
  size_t tot = 0;
  for (int w = 0; w < nworkers; w++)
  {
    ex += All[w].executed;
    st += All[w].steps;
    ev += All[w].evals;
    it = All[w].iter > it ? All[w].iter : it;
    capped |= All[w].capped || !All[w].done;
    ovf |= All[w].outOverflow;
    known |= All[w].known;
    /* not nOut: a worker may have been stopped before it counted */
    for (int i = 0; i < OUTCAP; i++)
      tot += All[w].out[i] != 0;
    if (All[w].maxlen > maxlen) maxlen = All[w].maxlen;
  }
  uint64_t *u = malloc((tot + 1) * sizeof(*u));
  size_t k = 0;
  for (int w = 0; w < nworkers; w++)
    for (int i = 0; i < OUTCAP; i++)
      if (All[w].out[i]) u[k++] = All[w].out[i];
  qsort(u, k, sizeof(*u), cmpu);
  for (size_t i = 0; i < k; i++)
    if (i == 0 || u[i] != u[i - 1]) nout++;
  free(u);
  fprintf(out, "{\"scope\":");
  jstr(out, sc->name);
  fprintf(out, ",\"what\":");
  jstr(out, sc->what ? sc->what : "");
  fprintf(out,
          ",\"deviation_bound\":%d,\"executions\":%ld,\"choice_steps\":%ld,"
          "\"vectors_generated\":%ld,\"evaluations\":%ld,"
          "\"distinct_outcomes\":%d,\"outcome_set_overflow\":%s,"
          "\"max_choices\":%d,"
          "\"exhaustive\":%s,\"wall_s\":%.2f,\"violation\":%s,\"known\":[",
          devBound, ex, st, it, ev, nout, ovf ? "true" : "false", maxlen,
          capped || rc ? "false" : "true", now() - t0, rc ? "true" : "false");
  int first = 1;
  for (int i = 0; i < nKnown && i < 32; i++)
    if (known & (1u << i))
    {
      if (!first) fputc(',', out);
      first = 0;
      jstr(out, knownKeys[i]);
      printf("KNOWN-FINDING: property=%s %s\n", sc->prop, knownKeys[i]);
    }
  fprintf(out, "],\"samples\":[");
  int ns = 0;
  for (int w = 0; w < nworkers && ns < 8; w++)
    for (int i = 0; i < All[w].nsample && ns < 8 && i < 3; i++)
    {
      if (ns++) fputc(',', out);
      jstr(out, All[w].sample[i]);
    }
  fprintf(out, "]}");
  fflush(out);
  return rc;
}

static int replayFile(const char *path)
{
  static char line[400000];
  char prop[64] = "", scope[128] = "", tier[32] = "quick", mode[32] = "vector";
  FILE *f = fopen(path, "r");
  if (!f)
  {
    perror(path);
    return 2;
  }
  shared *b = &All[0];
  b->len = 0;
  while (fgets(line, sizeof(line), f))
  {
    if (sscanf(line, "property %63s", prop) == 1) continue;
    if (sscanf(line, "scope %127s", scope) == 1) continue;
    if (sscanf(line, "tier %31s", tier) == 1) continue;
    if (sscanf(line, "mode %31s %d/%d", mode, &me, &nworkers) >= 1 &&
        !strncmp(line, "mode", 4))
      continue;
    if (!strncmp(line, "vec", 3))
    {
      char *p = line + 3, *e;
      for (;;)
      {
        long v = strtol(p, &e, 10);
        if (e == p) break;
        b->vec[b->len++] = v;
        p = e;
      }
    }
  }
  fclose(f);
  mc_thorough = !strcmp(tier, "thorough");
  const mc_scope *sc = find(prop, scope);
  if (!sc)
  {
    fprintf(stderr, "no scope %s/%s\n", prop, scope);
    return 2;
  }
  devBound = mc_thorough ? sc->devThorough : sc->devQuick;
  char msg[8192];
  int r;
  if (!strcmp(mode, "history"))
  {
    FILE *o = fopen("/dev/null", "w");
    return doScope(sc, o, "/dev/null");
  }
  r = runReplay(sc, b, 120, msg, sizeof(msg));
  printf("%s\n", logTail(MAXW - 1));
  if (r == 1)
  {
    printf("replay fails: %s\nVIOLATION property=%s replay=%s\n", msg, prop,
           path);
    return 1;
  }
  printf(r == 0 ? "replay passes\n" : "replay: engine error: %s\n", msg);
  return r;
}

int main(int argc, char **argv)
{
  const char *prop = NULL, *out = "/dev/stdout", *replay = NULL,
             *only = NULL, *rdir = ".";
  double cap = 0;
  for (int i = 1; i < argc; i++)
  {
    if (!strcmp(argv[i], "--prop")) prop = argv[++i];
    else if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
    else if (!strcmp(argv[i], "--workers")) nworkers = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--scratch")) snprintf(scratch, sizeof(scratch), "%s", argv[++i]);
    else if (!strcmp(argv[i], "--bindir")) snprintf(mc_bindir, sizeof(mc_bindir), "%s", argv[++i]);
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--replays")) rdir = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--scope")) only = argv[++i];
    else if (!strcmp(argv[i], "--cap")) cap = atof(argv[++i]);
    else if (!strcmp(argv[i], "--known") && nKnown < 256) knownKeys[nKnown++] = argv[++i];
    else if (!strcmp(argv[i], "--list"))
    {
      for (int t = 0; mc_scope_tables[t]; t++)
        for (const mc_scope *s = mc_scope_tables[t]; s->prop; s++)
          printf("%s %s %d %d%s\n", s->prop, s->name, s->devQuick,
                 s->devThorough, s->thoroughOnly ? " thorough" : "");
      return 0;
    }
    else
    {
      fprintf(stderr, "bad argument %s\n", argv[i]);
      return 2;
    }
  }
  if (nworkers > MAXW - 2) nworkers = MAXW - 2;
  All = mmap(NULL, sizeof(shared) * MAXW, PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (All == MAP_FAILED || !*scratch)
  {
    fprintf(stderr, "mc: setup failed\n");
    return 2;
  }
  S = &All[MAXW - 2];
  if (replay) return replayFile(replay);
  curProp = prop;
  FILE *o = fopen(out, "w");
  if (!o)
  {
    perror(out);
    return 2;
  }
  fprintf(o, "[");
  int rc = 0, n = 0;
  double t0 = now();
  for (int t = 0; mc_scope_tables[t]; t++)
    for (const mc_scope *s = mc_scope_tables[t]; s->prop; s++)
    {
      if (strcmp(s->prop, prop)) continue;
      if (only && strcmp(only, s->name)) continue;
      if (s->thoroughOnly && !mc_thorough) continue;
      if (cap > 0) deadline = t0 + cap;
      char rp[700];
      snprintf(rp, sizeof(rp), "%s/%s-%s.replay", rdir, s->prop, s->name);
      if (n++) fprintf(o, ",\n");
      int r = doScope(s, o, rp);
      fprintf(stderr, "  %s/%s done rc=%d %.1fs\n", s->prop, s->name, r,
              now() - t0);
      if (r == 1) rc = 1;
      if (r == 2 && rc == 0) rc = 2;
    }
  fprintf(o, "]\n");
  fclose(o);
  if (n == 0)
  {
    fprintf(stderr, "no scope for %s\n", prop);
    return 2;
  }
  return rc;
}

const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
  return "detect_leaks=0:quarantine_size_mb=16:malloc_fill_byte=203:"
         "max_malloc_fill_size=1048576:abort_on_error=0:exitcode=99:"
         "allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:"
         "print_summary=0:handle_abort=0:detect_odr_violation=0";
}
