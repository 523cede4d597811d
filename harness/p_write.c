/* C16: writing to storage that fails */
#include "data.h"
#include "fault.h"
#include "oif.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#define KINDS (F_OPEN | F_WRITE | F_FLUSH | F_TRUNC | F_CLOSE)

/* ---- datasets ---- */
#define NSETS 5
static oi_fits *big(int nrec, int nwave)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, false);
  ds_array(oi, "ARR0", 3, 0);
  ds_wave(oi, "INS0", nwave, 0);
  ds_vis(oi, "ARR0", "INS0", "", nrec, nwave, 1);
  ds_vis2(oi, "ARR0", "INS0", "", nrec, nwave, 2);
  ds_t3(oi, "ARR0", "INS0", "", nrec, nwave, 3);
  return oi;
}
static oi_fits *set(int w)
{
  static oi_fits *s[NSETS];
  if (!s[w])
  {
    switch (w)
    {
    case 0: s[w] = ds_small(); break;
    case 1: s[w] = ds_rich(); break;
    case 2: s[w] = big(300, 5); break; /* tables of many blocks */
    case 3: s[w] = big(2, 3000); break; /* large rows */
    default: /* nothing but a target */
      s[w] = ds_new();
      ds_targets(s[w], 1, true);
    }
    ds_keep(s[w]);
  }
  return s[w];
}

/* table written on its own */
static int write_one(const oi_fits *oi, int t, fitsfile *fp, int *st)
{
  switch (t)
  {
  case 0: return write_oi_header(fp, oi->header, st);
  case 1: return write_oi_target(fp, oi->targets, st);
  case 2:
    return write_oi_array(fp, *(oi_array *)oi->arrayList->data, 1, st);
  case 3:
    return write_oi_wavelength(fp, *(oi_wavelength *)oi->wavelengthList->data,
                               1, st);
  case 4: return write_oi_corr(fp, *(oi_corr *)oi->corrList->data, 1, st);
  case 5: return write_oi_inspol(fp, *(oi_inspol *)oi->inspolList->data, 1, st);
  case 6: return write_oi_vis(fp, *(oi_vis *)oi->visList->data, 1, st);
  case 7: return write_oi_vis2(fp, *(oi_vis2 *)oi->vis2List->data, 1, st);
  case 8: return write_oi_t3(fp, *(oi_t3 *)oi->t3List->data, 1, st);
  default: return write_oi_flux(fp, *(oi_flux *)oi->fluxList->data, 1, st);
  }
}

int wr_one(const oi_fits *oi, int t, fitsfile *fp, int *st)
{
  return write_one(oi, t, fp, st);
}
oi_fits *wr_set(int w) { return set(w); }

/* outcome of a write that may have failed */
static void judge(const char *fn, oi_fits *oi, uint64_t before, int r, int st,
                  int fds, const char *out)
{
  MC_CHECK(r == st, "returned %d but status is %d\n%s", r, st, out);
  MC_CHECK(ds_hash(oi, 0) == before, "the write changed the dataset");
  MC_CHECK(open_fds() == fds, "%d descriptors open after the write, %d before",
           open_fds(), fds);
  mc_outcome((uint64_t)r);
  if (r == 0)
  {
    MC_CHECK(file_exists(fn), "success reported but there is no file");
    oif_verify(fn, oi);
    oi_fits got;
    int s2 = 0;
    int r2 = read_oi_fits(fn, &got, &s2);
    MC_CHECK(r2 == 0, "success reported but the file cannot be read (%d)", r2);
    oi_fits *want = ds_clone(oi);
    ds_as_written(want);
    ds_expect(want, &got, SER_NODATE | SER_KW15,
              "success reported but the file differs");
    free_oi_fits(&got);
    ds_free(want);
  }
  else
    MC_CHECK(strstr(out, "CFITSIO error in") || strstr(out, "FITSIO status"),
             "failure with status %d is not reported: '%s'", r, out);
}

/* number of I/O calls of an undisturbed write of a dataset */
static int calls(oi_fits *oi, int w, int mask)
{
  static int n[NSETS];
  if (!n[w])
  {
    const char *fn = mc_path("w.fits");
    unlink(fn);
    int st = 0;
    fault_on(mask, -1, 0, 0);
    int r = write_oi_fits(fn, *oi, &st);
    n[w] = fault_off();
    MC_CHECK(r == 0, "undisturbed write failed (%d)", r);
    unlink(fn);
  }
  return n[w];
}

static void c16_faults(void)
{
  int w = mc_pick(NSETS, "dataset");
  oi_fits *oi = set(w);
  int n = calls(oi, w, KINDS);
  int kind = mc_pick(3, "kind"); /* one error, one partial, from here on */
  int at = mc_pick(n, "call");
  mc_mine();
  const char *fn = mc_path("w.fits");
  unlink(fn);
  uint64_t before = ds_hash(oi, 0);
  int fds = open_fds();
  int st = 0;
  fault_on(KINDS, at, kind == 2 ? 1 << 20 : 1, kind == 1);
  mc_cap_begin();
  int r = write_oi_fits(fn, *oi, &st);
  fault_off();
  char *out = mc_cap_end();
  judge(fn, oi, before, r, st, fds, out);
  free(out);
  unlink(fn);
}

/* two failing calls */
static void c16_pairs(void)
{
  int w = mc_pick(mc_thorough ? 5 : 2, "dataset");
  if (w == 0) w = 4;
  else if (w == 4) w = 0;
  if (w == 1 && !mc_thorough) w = 0;
  oi_fits *oi = set(w);
  int n = calls(oi, w, KINDS);
  int kind = mc_pick(2, "kind");
  int at = mc_pick(n, "call");
  int also = at + 1 + mc_pick(n - at + 4, "second");
  mc_mine();
  const char *fn = mc_path("w.fits");
  unlink(fn);
  uint64_t before = ds_hash(oi, 0);
  int fds = open_fds();
  int st = 0;
  fault_on(KINDS, at, 1, kind == 1);
  fault_also(also);
  mc_cap_begin();
  int r = write_oi_fits(fn, *oi, &st);
  fault_off();
  char *out = mc_cap_end();
  judge(fn, oi, before, r, st, fds, out);
  free(out);
  unlink(fn);
}

/* storage that is full after a number of bytes: the kernel refuses */
static void c16_full(void)
{
  int w = mc_pick(NSETS, "dataset");
  oi_fits *oi = set(w);
  static size_t len[NSETS];
  const char *fn = mc_path("w.fits");
  if (!len[w])
  {
    int st = 0;
    unlink(fn);
    MC_CHECK(write_oi_fits(fn, *oi, &st) == 0, "undisturbed write failed");
    free(slurp(fn, &len[w]));
    unlink(fn);
  }
  size_t step = mc_thorough ? (w == 2 || w == 3 ? 120 : 8)
                            : (w == 2 || w == 3 ? 1440 : 120);
  int k = mc_pick((int)(len[w] / step) + 2, "size");
  mc_mine();
  unlink(fn);
  uint64_t before = ds_hash(oi, 0);
  int fds = open_fds();
  int st = 0;
  mc_cap_begin();
  fflush(stdout), fflush(stderr);
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit old, lim;
  getrlimit(RLIMIT_FSIZE, &old);
  lim = old;
  lim.rlim_cur = k * step;
  setrlimit(RLIMIT_FSIZE, &lim);
  int r = write_oi_fits(fn, *oi, &st);
  setrlimit(RLIMIT_FSIZE, &old);
  char *out = mc_cap_end();
  if (k * step < len[w])
    MC_CHECK(r != 0, "success reported with room for %zu of %zu bytes",
             k * step, len[w]);
  else
    MC_CHECK(r == 0, "write failed (%d) with room for %zu of %zu bytes", r,
             k * step, len[w]);
  MC_CHECK(r == st, "returned %d but status is %d", r, st);
  MC_CHECK(ds_hash(oi, 0) == before, "the write changed the dataset");
  MC_CHECK(open_fds() == fds, "descriptors left open");
  mc_outcome((uint64_t)r);
  free(out);
  unlink(fn);
}

/* every table on its own, with a fault */
static void c16_tables(void)
{
  oi_fits *oi = set(1);
  int t = mc_pick(10, "table");
  static int n[10];
  const char *fn = mc_path("w.fits");
  fitsfile *fp;
  int st;
  if (!n[t])
  {
    unlink(fn);
    st = 0, fp = NULL;
    fault_on(KINDS, -1, 0, 0);
    fits_create_file(&fp, fn, &st);
    if (t) write_oi_header(fp, oi->header, &st);
    write_one(oi, t, fp, &st);
    fits_close_file(fp, &st);
    n[t] = fault_off();
    MC_CHECK(st == 0, "undisturbed write failed");
    unlink(fn);
  }
  int kind = mc_pick(3, "kind");
  int at = mc_pick(n[t], "call");
  mc_mine();
  unlink(fn);
  st = 0, fp = NULL;
  int fds = open_fds();
  fault_on(KINDS, at, kind == 2 ? 1 << 20 : 1, kind == 1);
  mc_cap_begin();
  fits_create_file(&fp, fn, &st);
  if (t) write_oi_header(fp, oi->header, &st);
  int s0 = st;
  int r = write_one(oi, t, fp, &st);
  MC_CHECK(r == st, "returned %d but status is %d", r, st);
  MC_CHECK(!s0 || r == s0, "status %d became %d", s0, r);
  /* the same position once more: a failed call must not turn into success */
  int s1 = st;
  if (s1)
  {
    r = write_one(oi, t, fp, &st);
    MC_CHECK(r == s1 && st == s1, "status %d became %d/%d", s1, r, st);
  }
  if (fp) fits_close_file(fp, &st);
  fault_off();
  free(mc_cap_end());
  MC_CHECK(!s1 || st, "status lost by closing");
  MC_CHECK(open_fds() == fds, "descriptors left open");
  mc_outcome((uint64_t)st);
  if (st == 0)
  {
    rf_file *f = rf_read(fn);
    MC_CHECK(f->nhdu == (t ? 2 : 1), "success reported but %d HDUs", f->nhdu);
    for (int i = 0; i < f->nhdu; i++)
    {
      const char *what = "";
      if (i == 1)
        MC_CHECK(rf_sums_ok(&f->h[i], &what),
                 "success reported but the checksum is wrong: %s", what);
    }
    rf_free(f);
  }
  unlink(fn);
}

/* ---- names that are taken, or cannot be used ---- */
static void touch_back(const char *p)
{
  struct timespec t[2] = {{1000000000, 0}, {1000000000, 0}};
  utimensat(AT_FDCWD, p, t, 0);
}

static void c16_existing(void)
{
  int w = mc_pick(3, "dataset");
  if (w == 2) w = 4;
  oi_fits *oi = set(w);
  int kind = mc_pick(10, "file");
  int again = mc_pick(2, "repeat");
  mc_mine();
  char fn[600], target[600];
  strcpy(fn, mc_path("w.fits"));
  strcpy(target, mc_path("t.fits"));
  unlink(fn);
  unlink(target);
  rmdir(fn);
  int st = 0;
  char name[1400];
  strcpy(name, fn);
  const char *keep = fn;
  switch (kind)
  {
  case 0: spew(fn, "", 0); break;
  case 1: spew(fn, "precious", 8); break;
  case 2:
  case 3:
    /* a dataset: the same one, or another */
    MC_CHECK(write_oi_fits(fn, kind == 2 ? *oi : *set(w == 0 ? 1 : 0), &st) == 0,
             "undisturbed write failed");
    break;
  case 4: /* via a link */
    spew(target, "precious", 8);
    symlink(target, fn);
    keep = target;
    break;
  case 5: /* second name of a file */
    spew(target, "precious", 8);
    link(target, fn);
    break;
  case 6: mkdir(fn, 0700); break;
  case 7: /* no such directory */
    strcat(name, ".d/w.fits");
    keep = NULL;
    break;
  case 8: /* not a directory */
    spew(fn, "precious", 8);
    strcat(name, "/w.fits");
    break;
  default: /* read-only */
    spew(fn, "precious", 8);
    chmod(fn, 0400);
  }
  size_t n0 = 0, n1 = 0;
  char *b0 = NULL;
  struct stat s0, s1;
  if (keep && kind != 6)
  {
    touch_back(keep);
    b0 = slurp(keep, &n0);
    stat(keep, &s0);
  }
  int fds = open_fds();
  for (int i = 0; i <= again; i++)
  {
    st = 0;
    mc_cap_begin();
    int r = write_oi_fits(name, *oi, &st);
    char *out = mc_cap_end();
    MC_CHECK(r != 0 && st == r, "write to an unusable name: returned %d, status %d",
             r, st);
    MC_CHECK(strstr(out, "CFITSIO error in"), "failure not reported: '%s'", out);
    free(out);
    mc_outcome((uint64_t)r * 16 + (uint64_t)kind);
    MC_CHECK(open_fds() == fds, "descriptors left open");
    if (b0)
    {
      char *b1 = slurp(keep, &n1);
      stat(keep, &s1);
      MC_CHECK(n0 == n1 && !memcmp(b0, b1, n0), "existing file altered");
      MC_CHECK(s1.st_mtim.tv_sec == 1000000000 && s0.st_mode == s1.st_mode &&
                   s0.st_ino == s1.st_ino,
               "existing file touched or replaced");
      free(b1);
    }
    if (kind == 6)
      MC_CHECK(stat(fn, &s1) == 0 && S_ISDIR(s1.st_mode), "directory replaced");
    if (kind == 7) MC_CHECK(!file_exists(name), "file created");
  }
  free(b0);
  chmod(fn, 0600);
  unlink(fn);
  rmdir(fn);
  unlink(target);
  /* and the name is usable as soon as it is free */
  st = 0;
  MC_CHECK(write_oi_fits(fn, *oi, &st) == 0, "write fails after the file is gone");
  oif_verify(fn, oi);
  unlink(fn);
}

/* data that cannot be represented: refused, or else complete */
static void c16_long(void)
{
  /* text longer than a FITS column or keyword can hold */
  oi_fits *oi = ds_clone(set(1));
  int f = mc_pick(14, "field");
  static const int lens[] = {1, 16, 17, 32, 33, 67, 68};
  int l = lens[mc_pick(7, "length")];
  mc_mine();
  char s[FLEN_VALUE];
  memset(s, 'x', sizeof(s));
  s[l] = 0;
  oi_array *a = NTH(oi->arrayList, 0);
  oi_vis *v = NTH(oi->visList, 0);
#define LONG(field)                                                            \
  if (l >= (int)sizeof(field)) return;                                         \
  SETS(field, s);                                                              \
  break
  switch (f)
  {
  case 0: LONG(oi->header.origin);
  case 1: LONG(oi->header.observer);
  case 2: LONG(oi->header.referenc);
  case 3: LONG(oi->header.prog_id);
  case 4: LONG(oi->header.procsoft);
  case 5: LONG(oi->header.obstech);
  case 6: LONG(a->frame);
  case 7: LONG(a->elem[0].tel_name);
  case 8: LONG(a->elem[0].sta_name);
  case 9: LONG(oi->targets.targ[0].target);
  case 10: LONG(oi->targets.targ[0].spectyp);
  case 11: LONG(v->date_obs);
  case 12: LONG(v->phityp);
  default: LONG(v->amptyp);
  }
  const char *fn = mc_path("w.fits");
  unlink(fn);
  int st = 0, fds = open_fds();
  uint64_t before = ds_hash(oi, 0);
  mc_cap_begin();
  int r = write_oi_fits(fn, *oi, &st);
  char *out = mc_cap_end();
  judge(fn, oi, before, r, st, fds, out);
  free(out);
  unlink(fn);
}

const mc_scope scopes_write[] = {
    {"C16", "faults", c16_faults, 0, 0, 0,
     "every single failing, partial or persistently failing open, write, flush, truncate or close of each write"},
    {"C16", "pairs", c16_pairs, 0, 0, 0,
     "every pair of failing calls of a write"},
    {"C16", "full", c16_full, 0, 0, 0,
     "storage that is full at every size (step 120 or 1440 bytes; thorough 8 or 120), refused by the kernel"},
    {"C16", "tables", c16_tables, 0, 0, 0,
     "every single fault while one table of each type is written on its own"},
    {"C16", "existing", c16_existing, 0, 0, 0,
     "every kind of name that exists already or cannot be used"},
    {"C16", "long", c16_long, 0, 0, 0,
     "text fields at and around the width of their column or keyword"},
    {0}};
