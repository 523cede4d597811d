/* C25: reports of errors, and their suppression */
#include "data.h"
#include "fault.h"
#include <fcntl.h>
#include <fitsio.h>
#include <unistd.h>

bool damage_edited(const char *fn);
void damage_cut(const char *fn);
void damage_none(int w, const char *fn);
int wr_one(const oi_fits *oi, int t, fitsfile *fp, int *st);
oi_fits *wr_set(int w);

/* ---- standard error on its own ---- */
static int keep2 = -1, errfd = -1;
static void err_begin(void)
{
  /* no stdio here: its calls are the ones that may be made to fail */
  keep2 = dup(2);
  errfd = open(mc_path("err.txt"), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
  if (keep2 < 0 || errfd < 0) mc_fail("cannot redirect");
  dup2(errfd, 2);
}
static char *err_end(void)
{
  dup2(keep2, 2);
  close(keep2);
  off_t n = lseek(errfd, 0, SEEK_END);
  if (n < 0) n = 0;
  char *b = malloc(n + 1);
  if (pread(errfd, b, (size_t)n, 0) != n) mc_fail("cannot read back");
  close(errfd);
  b[n] = 0;
  unlink(mc_path("err.txt"));
  /* GLib's messages bear the time */
  for (char *p = b; (p = strstr(p, " **: ")); p += 5)
  {
    size_t l = strspn(p + 5, "0123456789:.");
    if (l) memset(p + 5, '0', l);
  }
  return b;
}

static bool names_status(const char *text, int st)
{
  char want[60];
  snprintf(want, sizeof(want), "FITSIO status = %d:", st);
  return strstr(text, want) != NULL;
}
static bool any_report(const char *text)
{
  return strstr(text, "FITSIO status") || strstr(text, "CFITSIO error");
}

/* every line of a is a line of b, in the same order */
static bool lines_within(const char *a, const char *b)
{
  while (*a)
  {
    size_t la = strcspn(a, "\n");
    for (;;)
    {
      if (!*b) return false;
      size_t lb = strcspn(b, "\n");
      bool same = la == lb && !memcmp(a, b, la);
      b += lb + (b[lb] != 0);
      if (same) break;
    }
    a += la + (a[la] != 0);
  }
  return true;
}

/* ---- one call ---- */
#define MAXCALL 200
typedef struct
{
  int n;
  int st[MAXCALL];
  uint64_t h[MAXCALL];
  const char *what[MAXCALL];
  char *out, *err[MAXCALL];
  bool left[MAXCALL]; /* messages on CFITSIO's stack afterwards */
} trace;

static void before(void)
{
  fits_clear_errmsg();
  err_begin();
}
static void after(trace *t, const char *what, int r, int st, uint64_t h)
{
  char msg[FLEN_ERRMSG];
  if (t->n >= MAXCALL) mc_fail("too many calls");
  t->err[t->n] = err_end();
  MC_CHECK(r == st, "%s returned %d with status %d", what, r, st);
  t->left[t->n] = fits_read_errmsg(msg) != 0;
  t->st[t->n] = st, t->h[t->n] = h, t->what[t->n++] = what;
}

static void done(trace *t)
{
  for (int i = 0; i < t->n; i++) free(t->err[i]);
  free(t->out);
}

static bool sound; /* the storage works and the file is whole */

/* loud[] against hushed */
static void compare(trace *a, trace *b)
{
  uint64_t o = 0;
  MC_CHECK(a->n == b->n, "%d calls, %d when hushed", a->n, b->n);
  for (int i = 0; i < a->n; i++)
  {
    const char *w = a->what[i];
    int st = a->st[i];
    MC_CHECK(st == b->st[i], "%s: status %d, %d when hushed", w, st, b->st[i]);
    MC_CHECK(a->h[i] == b->h[i], "%s: another result when hushed", w);
    MC_CHECK(!any_report(b->err[i]), "%s: hushed, but reports '%s'", w, b->err[i]);
    if (st == 0 && sound)
      MC_CHECK(!a->left[i] && !b->left[i], "%s succeeded but left a message on CFITSIO's stack", w);
    bool eof = st == END_OF_FILE && strncmp(w, "read_next", 9) == 0;
    if (st > 0 && !eof)
    {
      MC_CHECK(names_status(a->err[i], st), "%s: status %d is not reported: '%s'", w, st, a->err[i]);
    }
    else if (strcmp(w, "read_oi_fits")) /* tables left out may be reported */
      MC_CHECK(!any_report(a->err[i]), "%s: status %d, but reports '%s'", w, st, a->err[i]);
    MC_CHECK(lines_within(b->err[i], a->err[i]), "%s: hushed, prints '%s' instead of '%s'", w, b->err[i], a->err[i]);
    o = mc_hash(&st, sizeof(st), o);
  }
  MC_CHECK(!strcmp(a->out, b->out), "standard output '%s', '%s' when hushed", a->out, b->out);
  MC_CHECK(!any_report(a->out), "error reported on standard output: '%s'", a->out);
  mc_evals(a->n);
  mc_outcome(o);
  done(a), done(b);
}

/* ---- what is called ---- */
static void whole(const char *fn, trace *t)
{
  oi_fits got;
  int st = 0;
  uint64_t h = 0;
  before();
  int r = read_oi_fits(fn, &got, &st);
  if (st == 0) h = ds_hash(&got, 0);
  after(t, "read_oi_fits", r, st, h);
  if (st == 0) free_oi_fits(&got);
}

#define NEXT(type, fn, fre, sr)                                                \
  {                                                                            \
    st = 0;                                                                    \
    fits_movabs_hdu(fp, 1, NULL, &st);                                         \
    for (int i = 0; i < 6; i++)                                                \
    {                                                                          \
      type q;                                                                  \
      memset(&q, 0, sizeof(q));                                                \
      st = 0;                                                                  \
      before();                                                                \
      r = fn(fp, &q, &st);                                                     \
      uint64_t h = 0;                                                          \
      if (!st)                                                                 \
      {                                                                        \
        ser s;                                                                 \
        ser_init(&s, 0);                                                       \
        sr(&s, &q, 0, 0);                                                      \
        h = mc_hash(s.w, s.n * sizeof(*s.w), 1);                               \
        ser_done(&s);                                                          \
        fre(&q);                                                               \
      }                                                                        \
      after(t, #fn, r, st, h);                                                 \
      if (st == END_OF_FILE) break;                                            \
    }                                                                          \
  }
#define NAMED(type, fn, fre, nm)                                               \
  {                                                                            \
    type q;                                                                    \
    char name[80];                                                             \
    snprintf(name, sizeof(name), "%s", nm);                                    \
    st = 0;                                                                    \
    before();                                                                  \
    r = fn(fp, name, &q, &st);                                                 \
    if (!st) fre(&q);                                                          \
    after(t, #fn, r, st, 0);                                                   \
  }

static void tables(const char *fn, trace *t)
{
  fitsfile *fp = NULL;
  int st = 0, r;
  fits_open_file(&fp, fn, READONLY, &st);
  if (st) return;
  oi_header hd;
  oi_target tg;
  before();
  r = read_oi_header(fp, &hd, &st);
  after(t, "read_oi_header", r, st, 0);
  st = 0;
  before();
  r = read_oi_target(fp, &tg, &st);
  if (!st) free_oi_target(&tg);
  after(t, "read_oi_target", r, st, 0);
  NAMED(oi_array, read_oi_array, free_oi_array, "ARR0")
  NAMED(oi_array, read_oi_array, free_oi_array, "NONE")
  NAMED(oi_wavelength, read_oi_wavelength, free_oi_wavelength, "INS0")
  NAMED(oi_wavelength, read_oi_wavelength, free_oi_wavelength, "NONE")
  NAMED(oi_corr, read_oi_corr, free_oi_corr, "COR0")
  NAMED(oi_corr, read_oi_corr, free_oi_corr, "NONE")
  NEXT(oi_array, read_next_oi_array, free_oi_array, ser_array)
  NEXT(oi_wavelength, read_next_oi_wavelength, free_oi_wavelength, ser_wave)
  NEXT(oi_corr, read_next_oi_corr, free_oi_corr, ser_corr)
  NEXT(oi_inspol, read_next_oi_inspol, free_oi_inspol, ser_inspol)
  NEXT(oi_vis, read_next_oi_vis, free_oi_vis, ser_vis)
  NEXT(oi_vis2, read_next_oi_vis2, free_oi_vis2, ser_vis2)
  NEXT(oi_t3, read_next_oi_t3, free_oi_t3, ser_t3)
  NEXT(oi_flux, read_next_oi_flux, free_oi_flux, ser_flux)
  st = 0;
  fits_close_file(fp, &st);
}

static void twice(const char *fn, void (*f)(const char *, trace *))
{
  static trace t[2];
  for (int hush = 0; hush < 2; hush++)
  {
    memset(&t[hush], 0, sizeof(t[hush]));
    oi_hush_errors = hush;
    mc_cap_begin();
    f(fn, &t[hush]);
    t[hush].out = mc_cap_end();
    oi_hush_errors = 0;
  }
  compare(&t[0], &t[1]);
}

static void c25_edits(void)
{
  int how = mc_pick(2, "level");
  char fn[600];
  snprintf(fn, sizeof(fn), "%s", mc_path("d.fits"));
  if (!damage_edited(fn)) return;
  sound = true;
  twice(fn, how ? tables : whole);
  unlink(fn);
}

static void c25_truncated(void)
{
  int how = mc_pick(2, "level");
  char fn[600];
  snprintf(fn, sizeof(fn), "%s", mc_path("d.fits"));
  sound = false;
  damage_cut(fn);
  twice(fn, how ? tables : whole);
  unlink(fn);
}

/* files that are not there, not FITS, or sound */
static void c25_files(void)
{
  int k = mc_pick(8, "file");
  int how = k >= 3 ? mc_pick(2, "level") : 0;
  mc_mine();
  char fn[600];
  snprintf(fn, sizeof(fn), "%s", mc_path("d.fits"));
  unlink(fn);
  if (k == 1) spew(fn, "garbage", 7);
  if (k == 2) spew(fn, "", 0);
  if (k >= 3) damage_none(k - 3, fn);
  sound = true;
  twice(fn, how ? tables : whole);
  unlink(fn);
}

/* ---- writing ---- */
static int wmask = F_OPEN | F_WRITE | F_FLUSH | F_TRUNC | F_CLOSE, wat, wlen,
           wmode, wset, wtab;
static int wcount;
static void writes(const char *fn, trace *t)
{
  oi_fits *oi = wr_set(wset);
  int st = 0, r;
  uint64_t h = 0;
  unlink(fn);
  fault_on(wmask, wat, wlen, wmode);
  if (wtab < 0)
  {
    before();
    r = write_oi_fits(fn, *oi, &st);
    after(t, "write_oi_fits", r, st, h);
  }
  else
  {
    fitsfile *fp = NULL;
    fits_create_file(&fp, fn, &st);
    if (wtab) fits_write_imghdr(fp, 8, 0, NULL, &st);
    if (!st)
    {
      before();
      r = wr_one(oi, wtab, fp, &st);
      after(t, "write_oi_*", r, st, h);
    }
    st = 0;
    if (fp) fits_close_file(fp, &st);
  }
  wcount = fault_off();
  unlink(fn);
}

static void c25_writes(void)
{
  static int n[11][5];
  wtab = mc_pick(11, "table") - 1;
  wset = wtab < 0 ? mc_pick(5, "dataset") : 1;
  char fn[600];
  snprintf(fn, sizeof(fn), "%s", mc_path("w.fits"));
  if (!n[wtab + 1][wset])
  {
    static trace t;
    memset(&t, 0, sizeof(t));
    wat = -1, wlen = 0, wmode = 0;
    mc_cap_begin();
    writes(fn, &t);
    t.out = mc_cap_end();
    MC_CHECK(t.n == 1 && t.st[0] == 0, "undisturbed write failed");
    n[wtab + 1][wset] = wcount;
    done(&t);
  }
  int kind = mc_pick(3, "kind");
  int at = mc_pick(n[wtab + 1][wset] + 1, "call");
  mc_mine();
  sound = false;
  wat = at - 1, wlen = kind == 2 ? 1 << 20 : 1, wmode = kind == 1;
  twice(fn, writes);
}

/* the file has content already */
static void c25_existing(void)
{
  wset = mc_pick(5, "dataset");
  int kind = mc_pick(3, "file");
  mc_mine();
  sound = true;
  char fn[600];
  snprintf(fn, sizeof(fn), "%s", kind == 2 ? mc_path("none/w.fits") : mc_path("x.fits"));
  static trace t[2];
  for (int hush = 0; hush < 2; hush++)
  {
    if (kind < 2) spew(fn, kind ? "" : "text", kind ? 0 : 4);
    memset(&t[hush], 0, sizeof(t[hush]));
    oi_hush_errors = hush;
    mc_cap_begin();
    int st = 0;
    before();
    int r = write_oi_fits(fn, *wr_set(wset), &st);
    after(&t[hush], "write_oi_fits", r, st, 0);
    t[hush].out = mc_cap_end();
    oi_hush_errors = 0;
    unlink(fn);
  }
  compare(&t[0], &t[1]);
}

/* a table is added to a file that is cut off or has a damaged header */
static char *acopy;
static size_t alen;
static void append(const char *fn, trace *t)
{
  fitsfile *fp = NULL;
  int st = 0;
  spew(fn, acopy, alen);
  fits_open_file(&fp, fn, READWRITE, &st);
  if (st) return;
  before();
  int r = wr_one(wr_set(wset), wtab, fp, &st);
  after(t, "write_oi_*", r, st, 0);
  st = 0;
  fits_close_file(fp, &st);
  unlink(fn);
}
static void c25_append(void)
{
  static char *whole;
  static size_t len;
  char fn[600];
  snprintf(fn, sizeof(fn), "%s", mc_path("w.fits"));
  wset = 1;
  if (!whole)
  {
    int st = 0;
    unlink(fn);
    mc_cap_begin();
    write_oi_fits(fn, *wr_set(wset), &st);
    free(mc_cap_end());
    if (st || !g_file_get_contents(fn, &whole, &len, NULL)) mc_fail("harness: cannot prepare");
    unlink(fn);
  }
  wtab = 1 + mc_pick(9, "table");
  bool cut = mc_pick(2, "damage");
  int at = mc_pick(len / 1440 + 1, "at");
  mc_mine();
  sound = false;
  alen = cut ? (size_t)at * 1440 + 100 : len;
  if (alen > len) alen = len;
  acopy = g_malloc(len);
  memcpy(acopy, whole, len);
  if (!cut) memset(acopy + at * 1440, 0xc3, len - at * 1440 < 1440 ? len - at * 1440 : 1440);
  twice(fn, append);
  g_free(acopy);
}

/* ---- reading from storage that fails ---- */
static int rlevel;
static void reads(const char *fn, trace *t)
{
  fault_on(F_OPEN | F_READ | F_CLOSE, wat, wlen, wmode);
  (rlevel ? tables : whole)(fn, t);
  wcount = fault_off();
}
static void c25_reads(void)
{
  static int n[2][5];
  rlevel = mc_pick(2, "level");
  int w = mc_pick(5, "file");
  char fn[600];
  snprintf(fn, sizeof(fn), "%s", mc_path("f.fits"));
  damage_none(w, fn);
  if (!n[rlevel][w])
  {
    static trace t;
    memset(&t, 0, sizeof(t));
    wat = -1, wlen = 0, wmode = 0;
    mc_cap_begin();
    reads(fn, &t);
    t.out = mc_cap_end();
    n[rlevel][w] = wcount;
    done(&t);
  }
  int kind = mc_pick(3, "kind");
  int at = mc_pick(n[rlevel][w], "call");
  mc_mine();
  sound = false;
  wat = at, wlen = kind == 2 ? 1 << 20 : 1, wmode = kind == 1;
  twice(fn, reads);
  unlink(fn);
}

const mc_scope scopes_report[] = {
    {"C25", "edits", c25_edits, 0, 0, 0,
     "three files with every keyword and column removed, renamed or mistyped, every HDU removed, renamed or turned into an image; read as a whole and table by table, hushed or not"},
    {"C25", "truncated", c25_truncated, 0, 0, 0,
     "three files cut at every card boundary; read as a whole and table by table, hushed or not"},
    {"C25", "files", c25_files, 0, 0, 0,
     "missing, empty, non-FITS and sound files; hushed or not"},
    {"C25", "reads", c25_reads, 0, 0, 0,
     "five files, every open, read, seek or close call failing once, partially or from there on; hushed or not"},
    {"C25", "writes", c25_writes, 0, 0, 0,
     "datasets and single tables, every I/O call of the write failing once, partially or from there on; hushed or not"},
    {"C25", "append", c25_append, 0, 0, 0,
     "each kind of table added to a file that is cut off or overwritten at every half block; hushed or not"},
    {"C25", "existing", c25_existing, 0, 0, 0,
     "writing over existing files and to directories that do not exist; hushed or not"},
    {0}};
