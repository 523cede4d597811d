/* C13 dates, C14 lookups, C15 copies and upgrades, C21 counts and summaries */
#include "filt.h"
#include "mrg.h"
#include "datemjd.h"
#include <unistd.h>

/* ------------------------------------------------------------------ C13 */
static bool leap(int y)
{
  return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
static int mlen(int y, int m)
{
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : d[m - 1];
}
/* days from 1858-11-17 (MJD 0), by counting */
static long true_mjd(int y, int m, int d)
{
  long n = 0;
  for (int k = 1858; k < y; k++)
    n += leap(k) ? 366 : 365;
  for (int k = 1; k < m; k++)
    n += mlen(y, k);
  n += d - 1;
  return n - (31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 16);
}

static void c13_days(void)
{
  int y = 1901 + mc_pick(199, "year-1901");
  int m = 1 + mc_pick(12, "month-1");
  mc_mine();
  long prev = -1;
  for (int d = 1; d <= mlen(y, m); d++)
  {
    long want = true_mjd(y, m, d);
    long got = date2mjd(y, m, d);
    MC_CHECK(got == want, "date2mjd(%d,%d,%d) = %ld, true %ld", y, m, d, got,
             want);
    MC_CHECK(prev < 0 || got == prev + 1, "not monotonic");
    prev = got;
    long Y = -1, M = -1, D = -1;
    mjd2date(want, &Y, &M, &D);
    MC_CHECK(Y == y && M == m && D == d,
             "mjd2date(%ld) = %ld-%ld-%ld, true %d-%d-%d", want, Y, M, D, y, m,
             d);
    mc_evals(2);
    mc_outcome(want);
  }
}

/* DATE-OBS derived from the data, for every day */
static void c13_derived(void)
{
  int y = 1901 + mc_pick(199, "year-1901");
  int t = mc_pick(4, "table");
  mc_mine();
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  ds_wave(oi, "I", 1, 0);
  double *mjd = NULL;
  if (t == 0) mjd = &ds_vis(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
  if (t == 1) mjd = &ds_vis2(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
  if (t == 2) mjd = &ds_t3(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
  if (t == 3) mjd = &ds_flux(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
  static const double frac[] = {0, 0.5, 0.99999, 1 - 1.0 / 1073741824, -1, -2};
  for (int m = 1; m <= 12; m++)
    for (int d = 1; d <= mlen(y, m); d++)
      for (int f = 0; f < 6; f++)
      {
        char want[40];
        snprintf(want, sizeof(want), "%04d-%02d-%02d", y, m, d);
        *mjd = true_mjd(y, m, d) + frac[f];
        if (frac[f] == -1) *mjd = nextafter(true_mjd(y, m, d), INFINITY);
        if (frac[f] == -2) *mjd = nextafter(true_mjd(y, m, d) + 1, -INFINITY);
        memset(oi->header.date_obs, 'x', sizeof(oi->header.date_obs) - 1);
        set_oi_header(oi);
        MC_CHECK(strcmp(oi->header.date_obs, want) == 0,
                 "DATE-OBS for MJD %.14g is '%s', should be '%s'", *mjd,
                 oi->header.date_obs, want);
        mc_evals(1);
      }
  mc_outcome(y * 4 + t);
}

/* DATE-OBS is that of the earliest of several records */
static void c13_earliest(void)
{
  static const double v[] = {51000.25, 51001.0, 50999.999, 60000.0};
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  ds_wave(oi, "I", 1, 0);
  double min = 1e9;
  for (int t = 0; t < 4; t++)
    for (int r = 0; r < (mc_thorough || t < 3 ? 2 : 1); r++)
    {
      int c = mc_pick(5, "mjd"); /* 4: no such table */
      if (c == 4) continue;
      double *mjd = NULL;
      if (t == 0) mjd = &ds_vis(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
      if (t == 1) mjd = &ds_vis2(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
      if (t == 2) mjd = &ds_t3(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
      if (t == 3) mjd = &ds_flux(oi, "", "I", "", 1, 1, 0)->record[0].mjd;
      *mjd = v[c];
      if (v[c] < min) min = v[c];
    }
  mc_mine();
  if (min == 1e9) return;
  set_oi_header(oi);
  const char *want = min < 51000   ? "1998-07-05"
                     : min < 51001 ? "1998-07-06"
                     : min < 52000 ? "1998-07-07"
                                   : "2023-02-25";
  MC_CHECK(strcmp(oi->header.date_obs, want) == 0,
           "DATE-OBS '%s', earliest MJD %.3f is '%s'", oi->header.date_obs, min,
           want);
  mc_outcome(mc_hash(oi->header.date_obs, 10, 0));
}

/* ------------------------------------------------------------------ C14 */
static const char *const near[] = {"", "ARR", "ARR00", "ARR0 ", "arr0", "INS",
                                   "INS00", "ins0", "COR00", "COR", "TGT_",
                                   "TGT_11", "tgt_1", "zz", "*", "?"};
typedef struct
{
  const char *k[12000];
  int n;
} keys;
static void key(keys *K, const char *s)
{
  if (K->n < 12000) K->k[K->n++] = s;
}
static void collect(keys *K, const oi_fits *oi)
{
  GList *l;
  for (l = oi->arrayList; l; l = l->next)
    key(K, ((oi_array *)l->data)->arrname);
  for (l = oi->wavelengthList; l; l = l->next)
    key(K, ((oi_wavelength *)l->data)->insname);
  for (l = oi->corrList; l; l = l->next)
    key(K, ((oi_corr *)l->data)->corrname);
  for (int i = 0; i < oi->targets.ntarget; i++)
    key(K, oi->targets.targ[i].target);
}

void lookup_check(const oi_fits *oi, const oi_fits *other, const char *ctx)
{
  static keys K;
  K.n = 0;
  for (size_t i = 0; i < sizeof(near) / sizeof(*near); i++)
    key(&K, near[i]);
  collect(&K, oi);
  if (other) collect(&K, other);
  long ev = 0;
  for (int i = 0; i < K.n; i++)
  {
    /* a private copy: the lookup may not depend on the identity of the key */
    char s[FLEN_VALUE + 1];
    snprintf(s, sizeof(s), "%s", K.k[i]);
    oi_array *a = NULL;
    for (GList *l = oi->arrayList; l && !a; l = l->next)
      if (strcmp(((oi_array *)l->data)->arrname, s) == 0) a = l->data;
    MC_CHECK(oi_fits_lookup_array(oi, s) == a,
             "%s: lookup of array '%s' %s", ctx, s,
             a ? "does not return the table" : "returns something");
    oi_wavelength *w = NULL;
    for (GList *l = oi->wavelengthList; l && !w; l = l->next)
      if (strcmp(((oi_wavelength *)l->data)->insname, s) == 0) w = l->data;
    MC_CHECK(oi_fits_lookup_wavelength(oi, s) == w,
             "%s: lookup of wavelength table '%s' %s", ctx, s,
             w ? "does not return the table" : "returns something");
    oi_corr *c = NULL;
    for (GList *l = oi->corrList; l && !c; l = l->next)
      if (strcmp(((oi_corr *)l->data)->corrname, s) == 0) c = l->data;
    MC_CHECK(oi_fits_lookup_corr(oi, s) == c,
             "%s: lookup of correlation table '%s' %s", ctx, s,
             c ? "does not return the table" : "returns something");
    target *t = NULL;
    for (int k = 0; k < oi->targets.ntarget && !t; k++)
      if (strcmp(oi->targets.targ[k].target, s) == 0) t = &oi->targets.targ[k];
    MC_CHECK(oi_fits_lookup_target_by_name(oi, s) == t,
             "%s: lookup of target '%s' is wrong", ctx, s);
    int top = 14;
    for (int k = 0; a && k < a->nelement; k++) /* each of the first 40, then some */
      if (k + 1 > top && (k < 40 || k % 37 == 0 || k == a->nelement - 1)) top = k + 1;
    for (int j = -2; j <= top; j++)
    {
      element *e = NULL;
      if (j > 40 && j % 37 != 1 && j != top) continue;
      if (a)
        for (int k = 0; k < a->nelement && !e; k++)
          if (a->elem[k].sta_index == j) e = &a->elem[k];
      MC_CHECK(oi_fits_lookup_element(oi, s, j) == e,
               "%s: lookup of station %d of array '%s' is wrong", ctx, j, s);
    }
    static const int far[] = {-32768, -32767, 32767, 65535, 65536 + 1, -1 - 65536, 100000};
    for (size_t f = 0; f < sizeof(far) / sizeof(*far); f++)
    {
      element *e = NULL;
      if (a)
        for (int k = 0; k < a->nelement && !e; k++)
          if (a->elem[k].sta_index == far[f]) e = &a->elem[k];
      MC_CHECK(oi_fits_lookup_element(oi, s, far[f]) == e,
               "%s: lookup of station %d of array '%s' is wrong", ctx, far[f], s);
      target *t = NULL;
      for (int k = 0; i == 0 && k < oi->targets.ntarget && !t; k++)
        if (oi->targets.targ[k].target_id == far[f]) t = &oi->targets.targ[k];
      if (i == 0)
        MC_CHECK(oi_fits_lookup_target(oi, far[f]) == t,
                 "%s: lookup of target number %d is wrong", ctx, far[f]);
    }
    ev += 4 + 17;
  }
  for (int j = -2; j < 16 + oi->targets.ntarget; j++)
    for (int f = 0; f < 2; f++)
    {
      int id = f ? 32767 - 3 * j : j;
      if (f && j >= 16) continue;
      target *t = NULL;
      for (int k = 0; k < oi->targets.ntarget && !t; k++)
        if (oi->targets.targ[k].target_id == id) t = &oi->targets.targ[k];
      MC_CHECK(oi_fits_lookup_target(oi, id) == t,
               "%s: lookup of target number %d is wrong", ctx, id);
      ev++;
    }
  mc_evals(ev);
}

static void hist_filter(oi_filter_spec *f, int k)
{
  init_oi_filter(f);
  switch (k)
  {
  case 0: break;
  case 1: f->target_id = 1; break;
  case 2: SETS(f->arrname, "ARR0"); break;
  case 3: SETS(f->insname, "INS1*"); break;
  case 4: SETS(f->corrname, "COR0"); break;
  case 5: f->mjd_range[1] = 51000.5; break;
  case 6: f->wave_range[0] = 1.2e-6f; break;
  case 7: f->accept_vis2 = 0, f->accept_t3amp = 0, f->accept_t3phi = 0; break;
  case 8: f->mjd_range[0] = 90000; break; /* nothing left */
  case 9: f->accept_vis = 0, f->accept_flux = 0; break;
  }
}

/* every sequence of operations, looking up everything after each */
static void c14_hist(void)
{
  oi_fits *oi = ds_gen(true);
  int depth = mc_thorough ? 3 : 2;
  int op[3];
  for (int i = 0; i < depth; i++)
    op[i] = mc_pick(13, "op");
  mc_mine();
  fd_scale(oi);
  oi_fits *other = ds_small();
  fd_scale(other);
  for (int i = 0; i < other->targets.ntarget; i++)
    other->targets.targ[i].target[4] += 1;
  oi_fits got[3];
  oi_fits *cur = oi;
  char ctx[100];
  int n = 0;
  for (int i = 0; i < depth; i++)
  {
    if (op[i] == 12) break;
    int st = 0;
    memset(&got[i], 0x5a, sizeof(got[i]));
    if (op[i] == 0)
    {
      const char *fn = mc_path("l.fits");
      unlink(fn);
      write_oi_fits(fn, *cur, &st);
      read_oi_fits(fn, &got[i], &st);
      MC_CHECK(st == 0, "write and read failed");
      unlink(fn);
    }
    else if (op[i] == 1)
    {
      oi_fits *l[2] = {cur, other};
      mg_run(l, 2, &got[i]);
    }
    else
    {
      oi_filter_spec f;
      hist_filter(&f, op[i] - 2);
      apply_oi_filter(cur, &f, &got[i]);
    }
    n = i + 1;
    snprintf(ctx, sizeof(ctx), "after operation %d (%s)", n,
             op[i] == 0 ? "write+read" : op[i] == 1 ? "merge" : "filter");
    lookup_check(&got[i], oi, ctx);
    cur = &got[i];
  }
  mc_outcome(ds_hash(cur, SER_NODATE));
  /* results stay valid when earlier ones are released */
  for (int i = 0; i < n; i++)
  {
    if (i == n - 1) lookup_check(cur, other, "after release of the inputs");
    free_oi_fits(&got[i]);
  }
}

/* duplicates and unordered numbers: the first match is returned */
static void c14_dups(void)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 3, false);
  /* the numbers need not be positive */
  static const int num[3][3] = {{1, 2, 3}, {-1, 0, 32767}, {-2, 2, -32768}};
  const int *no = num[mc_pick(3, "numbers")];
  for (int i = 0; i < 3; i++)
  {
    oi->targets.targ[i].target_id = no[mc_pick(3, "id")];
    char b[10] = {'T', (char)('a' + mc_pick(3, "name")), 0};
    SETS(oi->targets.targ[i].target, b);
  }
  oi_array *a = ds_array(oi, "ARR0", 3, 0);
  for (int i = 0; i < 3; i++)
    a->elem[i].sta_index = no == num[0] ? mc_pick(3, "station") : no[mc_pick(3, "station")];
  mc_mine();
  int st = 0;
  const char *fn = mc_path("l.fits");
  lookup_check(oi, oi, "built in memory");
  unlink(fn);
  oi_fits got;
  write_oi_fits(fn, *oi, &st);
  read_oi_fits(fn, &got, &st);
  MC_CHECK(st == 0, "write and read failed");
  unlink(fn);
  lookup_check(&got, oi, "read from file");
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);
}

/* names in a file: all assignments of 3 names to the tables of each kind, and
 * of references to the data */
static void c14_names(void)
{
  static const char *const nm[] = {"AB", "ABC", "B"};
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  int na = mc_pick(mc_thorough ? 4 : 3, "n-array");
  for (int i = 0; i < na; i++)
    ds_array(oi, nm[mc_pick(3, "arrname")], 2, i);
  int nw = mc_pick(3, "n-wave");
  for (int i = 0; i < nw; i++)
    ds_wave(oi, nm[mc_pick(3, "insname")], 2, i);
  int nc = mc_pick(3, "n-corr");
  for (int i = 0; i < nc; i++)
    ds_corr(oi, nm[mc_pick(3, "corrname")], 9, 2, i);
  int d = mc_pick(5, "data");
  const char *A = "", *W = "AB", *C = "";
  if (d < 4)
  {
    int x = mc_pick(3, "ref");
    A = C = W = nm[x];
  }
  if (d == 0) ds_vis(oi, A, W, C, 1, 2, 1);
  if (d == 1) ds_vis2(oi, A, W, C, 1, 2, 1);
  if (d == 2) ds_t3(oi, A, W, C, 1, 2, 1);
  if (d == 3) ds_flux(oi, A, W, C, 1, 2, 1);
  mc_mine();
  int st = 0;
  const char *fn = mc_path("l.fits");
  unlink(fn);
  oi_fits got;
  write_oi_fits(fn, *oi, &st);
  read_oi_fits(fn, &got, &st);
  MC_CHECK(st == 0, "write and read failed");
  unlink(fn);
  lookup_check(&got, oi, "read from file");
  for (int i = 0; i < 3; i++)
  {
    oi_array *a = oi_fits_lookup_array(&got, nm[i]);
    if (a) MC_CHECK(strcmp(a->arrname, nm[i]) == 0, "wrong array");
  }
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);
}

/* ------------------------------------------------------------------ C15 */
/* a container of copies made by the library */
oi_fits *dup_all(const oi_fits *oi)
{
  oi_fits *d = ds_new();
  d->header = oi->header;
  oi_target *t = dup_oi_target(&oi->targets);
  MC_CHECK(t != &oi->targets, "target copy is the original");
  MC_CHECK(t->ntarget == 0 || t->targ != oi->targets.targ, "shared targets");
  d->targets = *t;
  free(t);
  for (GList *l = oi->arrayList; l; l = l->next)
    add_array(d, dup_oi_array(l->data));
  for (GList *l = oi->wavelengthList; l; l = l->next)
    add_wave(d, dup_oi_wavelength(l->data));
  for (GList *l = oi->corrList; l; l = l->next)
    add_corr(d, dup_oi_corr(l->data));
  for (GList *l = oi->inspolList; l; l = l->next)
    add_inspol(d, dup_oi_inspol(l->data));
  for (GList *l = oi->visList; l; l = l->next)
    add_vis(d, dup_oi_vis(l->data));
  for (GList *l = oi->vis2List; l; l = l->next)
    add_vis2(d, dup_oi_vis2(l->data));
  for (GList *l = oi->t3List; l; l = l->next)
    add_t3(d, dup_oi_t3(l->data));
  for (GList *l = oi->fluxList; l; l = l->next)
    add_flux(d, dup_oi_flux(l->data));
  return d;
}

static void lib_free_tables(oi_fits *oi)
{
  ds_keep(oi);
  free_oi_fits(oi);
  free(oi);
}

static void c15_shape(void)
{
  oi_fits *oi = ds_gen(true);
  int rev = mc_dev(2, "v1");
  int order = mc_pick(2, "free-order");
  mc_mine();
  if (rev) ds_downgrade(oi);
  oi_fits *keep = ds_clone(oi);
  oi_fits *d = dup_all(oi);
  ds_expect(keep, oi, SER_RAW, "dup_oi_* modified the original");
  ds_expect(keep, d, SER_RAW, "copy");
  /* a copy of a copy */
  oi_fits *dd = dup_all(d);
  ds_expect(keep, dd, SER_RAW, "copy of the copy");
  lib_free_tables(order ? oi : d);
  ds_expect(keep, order ? d : oi, SER_RAW, "after freeing the other one");
  lib_free_tables(order ? d : oi);
  ds_expect(keep, dd, SER_RAW, "copy of the copy after freeing the others");
  mc_outcome(ds_hash(dd, SER_RAW));
  lib_free_tables(dd);
}

static void c15_cells(void)
{
  static oi_fits *base;
  static cell *cells;
  static int n;
  if (!base)
  {
    base = ds_rich();
    ds_keep(base);
    n = ds_cells(base, &cells);
  }
  int i = mc_pick(n, "cell");
  if (!strchr(cells[i].name, '.')) mc_skip(); /* primary header */
  int side = mc_pick(2, "side");
  int order = mc_pick(2, "free-order");
  mc_mine();
  oi_fits *oi = ds_clone(base), *d = dup_all(oi);
  cell *c;
  int m = ds_cells(side ? d : oi, &c);
  MC_CHECK(m == n, "copy has %d cells, original %d", m, n);
  cell_flip(&c[i]);
  char ctx[200];
  snprintf(ctx, sizeof(ctx), "after a change of %s (table %d rec %ld ch %d) in the %s",
           c[i].name, c[i].tab, c[i].rec, c[i].ch, side ? "copy" : "original");
  free(c);
  ds_expect(base, side ? oi : d, SER_RAW, ctx);
  /* the changed one, copied again, carries the change */
  oi_fits *e = dup_all(side ? d : oi);
  oi_fits *f = ds_clone(side ? d : oi);
  ds_expect(f, e, SER_RAW, "copy of the changed table");
  MC_CHECK(!ds_equal(base, e, SER_RAW, NULL, 0), "%s: change lost", ctx);
  lib_free_tables(order ? oi : d);
  ds_expect(f, e, SER_RAW, "copy after freeing others");
  if (order != side) ds_expect(base, order ? d : oi, 0, ctx);
  mc_outcome(ds_hash(e, SER_RAW));
}

/* special values in copies */
static void c15_values(void)
{
  static oi_fits *base;
  static cell *cells;
  static int n;
  if (!base)
  {
    base = ds_rich();
    ds_keep(base);
    n = ds_cells(base, &cells);
  }
  int i = mc_pick(n, "cell");
  int v = mc_pick(cell_nvalues(&cells[i]), "value");
  mc_mine();
  oi_fits *oi = ds_clone(base);
  cell *c;
  ds_cells(oi, &c);
  bool ok = cell_set(&c[i], v);
  free(c);
  if (!ok) return;
  oi_fits *d = dup_all(oi);
  ds_expect(oi, d, SER_RAW, "copy with a special value");
  mc_outcome(ds_hash(d, SER_RAW));
}

static void c15_upgrade(void)
{
  oi_fits *oi = ds_gen(true);
  int m = mc_pick(64, "which-v1");
  /* which of the records (in turn) have a TIME, and its size */
  static const double tm[] = {1, 86399.5, -3};
  int which = mc_pick(8, "time-records");
  double t = which ? tm[mc_pick(3, "time")] : 0;
#define TM(i) ((which >> ((i) % 3) & 1) ? t * ((i) + 1) : 0)
  mc_mine();
  GList *l;
  oi->targets.revision = m & 1 ? 1 : 2;
  for (l = oi->arrayList; l; l = l->next)
    ((oi_array *)l->data)->revision = m & 2 ? 1 : 2;
  for (l = oi->wavelengthList; l; l = l->next)
    ((oi_wavelength *)l->data)->revision = m & 4 ? 1 : 2;
  for (l = oi->visList; l; l = l->next)
  {
    oi_vis *v = l->data;
    v->revision = m & 8 ? 1 : 2;
    for (long i = 0; i < v->numrec; i++)
      v->record[i].time = TM(i);
  }
  for (l = oi->vis2List; l; l = l->next)
  {
    oi_vis2 *v = l->data;
    v->revision = m & 16 ? 1 : 2;
    for (long i = 0; i < v->numrec; i++)
      v->record[i].time = TM(i);
  }
  for (l = oi->t3List; l; l = l->next)
  {
    oi_t3 *v = l->data;
    v->revision = m & 32 ? 1 : 2;
    for (long i = 0; i < v->numrec; i++)
      v->record[i].time = TM(i);
  }
  oi_fits *w = ds_clone(oi);
  w->targets.revision = 2;
  for (l = w->arrayList; l; l = l->next)
    ((oi_array *)l->data)->revision = 2;
  for (l = w->wavelengthList; l; l = l->next)
    ((oi_wavelength *)l->data)->revision = 2;
#define ZT(list, T)                                                            \
  for (l = w->list; l; l = l->next)                                            \
  {                                                                            \
    T *v = l->data;                                                            \
    if (v->revision == 1)                                                      \
      for (long i = 0; i < v->numrec; i++)                                     \
        v->record[i].time = 0;                                                 \
    v->revision = 2;                                                           \
  }
  ZT(visList, oi_vis)
  ZT(vis2List, oi_vis2)
  ZT(t3List, oi_t3)
  for (int again = 0; again < 2; again++)
  {
    upgrade_oi_target(&oi->targets);
    for (l = oi->arrayList; l; l = l->next)
      upgrade_oi_array(l->data);
    for (l = oi->wavelengthList; l; l = l->next)
      upgrade_oi_wavelength(l->data);
    for (l = oi->visList; l; l = l->next)
      upgrade_oi_vis(l->data);
    for (l = oi->vis2List; l; l = l->next)
      upgrade_oi_vis2(l->data);
    for (l = oi->t3List; l; l = l->next)
      upgrade_oi_t3(l->data);
    ds_expect(w, oi, SER_RAW, again ? "second upgrade" : "upgrade");
  }
  mc_outcome(ds_hash(oi, SER_RAW));
}

/* ------------------------------------------------------------------ C21 */
void count_check(const oi_fits *oi)
{
  long w[3] = {0, 0, 0};
  for (GList *l = oi->visList; l; l = l->next)
  {
    oi_vis *v = l->data;
    for (long i = 0; i < v->numrec; i++)
      for (int k = 0; k < v->nwave; k++)
        w[0] += v->record[i].flag[k] ? 0 : 1;
  }
  for (GList *l = oi->vis2List; l; l = l->next)
  {
    oi_vis2 *v = l->data;
    for (long i = 0; i < v->numrec; i++)
      for (int k = 0; k < v->nwave; k++)
        w[1] += v->record[i].flag[k] ? 0 : 1;
  }
  for (GList *l = oi->t3List; l; l = l->next)
  {
    oi_t3 *v = l->data;
    for (long i = 0; i < v->numrec; i++)
      for (int k = 0; k < v->nwave; k++)
        w[2] += v->record[i].flag[k] ? 0 : 1;
  }
  for (int mask = 0; mask < 8; mask++)
  {
    long g[3] = {-7, -7, -7};
    count_oi_fits_data(oi, mask & 1 ? NULL : &g[0], mask & 2 ? NULL : &g[1],
                       mask & 4 ? NULL : &g[2]);
    for (int k = 0; k < 3; k++)
      MC_CHECK(g[k] == (mask & (1 << k) ? -7 : w[k]),
               "count of unflagged %s is %ld, true number %ld",
               k == 0 ? "OI_VIS" : k == 1 ? "OI_VIS2" : "OI_T3", g[k], w[k]);
  }
  mc_evals(8);
  mc_outcome(w[0] * 1000003 + w[1] * 1009 + w[2]);
}

static void c21_flags(void)
{
  int t = mc_pick(3, "type");
  int pat = mc_pick(64, "flags");
  int other = mc_pick(4, "flags-of-second-table");
  static const int truth[] = {1, 2, 'T'};
  int set = truth[mc_pick(3, "true-is")];
  mc_mine();
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  ds_wave(oi, "I", 3, 0);
  BOOL *fl[4] = {0};
  int n = 0;
  for (int tab = 0; tab < 2; tab++)
    for (int k = 0; k < 3; k++)
    {
      BOOL *f0, *f1;
      if (k == 0)
      {
        oi_vis *v = ds_vis(oi, "", "I", "", 2, 3, tab);
        f0 = v->record[0].flag, f1 = v->record[1].flag;
      }
      else if (k == 1)
      {
        oi_vis2 *v = ds_vis2(oi, "", "I", "", 2, 3, tab);
        f0 = v->record[0].flag, f1 = v->record[1].flag;
      }
      else
      {
        oi_t3 *v = ds_t3(oi, "", "I", "", 2, 3, tab);
        f0 = v->record[0].flag, f1 = v->record[1].flag;
      }
      if (k == t) fl[n++] = f0, fl[n++] = f1;
    }
  for (int i = 0; i < 6; i++)
    fl[i / 3][i % 3] = (pat >> i) & 1 ? set : 0;
  for (int i = 0; i < 6; i++)
    fl[2 + i / 3][i % 3] = (other >> (i % 2)) & 1 ? set : 0;
  count_check(oi);
}

/* large sizes */
static void c21_sizes(void)
{
  int dim = mc_pick(3, "dimension");
  int k = mc_pick(mc_thorough ? 300 : 80, "size");
  mc_mine();
  int n = k;
  if (k >= 40) n = k * 13;
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  if (dim == 2 && n > 300) return;
  int nr = dim == 0 ? n : 2, nw = dim == 1 ? n : 3, nt = dim == 2 ? n : 1;
  if (nw < 1) nw = 1;
  ds_wave(oi, "I", nw, 0);
  for (int i = 0; i < nt; i++)
  {
    ds_vis(oi, "", "I", "", nr, nw, i);
    ds_vis2(oi, "", "I", "", nr, nw, i);
    ds_t3(oi, "", "I", "", nr, nw, i);
  }
  count_check(oi);
}

static void c21_atomic(void)
{
  /* 0.5 and 1.5 are exact: differences at, inside and outside the span */
  static const double v[] = {51000.0, 51000.5, 51000.5 + 1.0 / 1024, 51002.0};
  static const double tiny = 1.0 / 1099511627776.0; /* 2^-40 days */
  static const double span[] = {0.5, 0, 0.5 - 1.0 / 4096, 2.0, 1.5, 0.5 - tiny, 0.5 + tiny,
                                2.0 - tiny, 1.5 - tiny, 1.0 / 1024, 1.0 / 1024 - tiny, tiny};
  int na = mc_pick(3, "n-array"), nw = mc_pick(3, "n-wave"),
      nt = mc_pick(3, "n-target");
  int full = na == 1 && nw == 1 && nt == 1;
  double lo = 1e9, hi = -1e9;
  oi_fits *oi = ds_new();
  ds_targets(oi, nt, false);
  char b[20];
  for (int i = 0; i < na; i++)
    snprintf(b, sizeof(b), "A%d", i), ds_array(oi, b, 2, i);
  for (int i = 0; i < nw; i++)
    snprintf(b, sizeof(b), "I%d", i), ds_wave(oi, b, 2, i);
  for (int t = 0; t < 4; t++)
  {
    int c = full ? mc_pick(21, "times") : mc_pick(2, "times");
    if (c == 0) continue;
    int nr = c <= 4 ? 1 : 2;
    double x[2] = {nr == 1 ? v[c - 1] : v[(c - 5) / 4],
                   nr == 1 ? 0 : v[(c - 5) % 4]};
    for (int i = 0; i < nr; i++)
    {
      if (x[i] < lo) lo = x[i];
      if (x[i] > hi) hi = x[i];
    }
#define AT(fn)                                                                 \
  {                                                                            \
    __auto_type z = fn(oi, "", "I0", "", nr, 2, 0);                            \
    for (int i = 0; i < nr; i++)                                               \
      z->record[i].mjd = x[i];                                                 \
  }
    if (t == 0) AT(ds_vis);
    if (t == 1) AT(ds_vis2);
    if (t == 2) AT(ds_t3);
    if (t == 3) AT(ds_flux);
  }
  mc_mine();
  for (int s = 0; s < (int)(sizeof(span) / sizeof(*span)); s++)
  {
    bool want = na <= 1 && nw == 1 && nt == 1 && hi >= lo && hi - lo <= span[s];
    int got = is_atomic(oi, span[s]);
    MC_CHECK(!!got == want,
             "is_atomic is %d: %d arrays, %d wavelength tables, %d targets, "
             "MJD %.6f to %.6f, limit %.14g",
             got, na, nw, nt, lo, hi, span[s]);
    mc_evals(1);
  }
  mc_outcome(ds_hash(oi, 0));
}

/* the times of all data tables of any dataset */
#undef AT
void atomic_check(const oi_fits *oi)
{
  static const double span[] = {0, 0.25, 0.5, 1, 2, 10, 1000};
  double lo = INFINITY, hi = -INFINITY;
#define AT(list, T)                                                            \
  for (GList *l = oi->list; l; l = l->next)                                    \
    for (long i = 0; i < ((T *)l->data)->numrec; i++)                          \
    {                                                                          \
      double x = ((T *)l->data)->record[i].mjd;                                \
      if (x < lo) lo = x;                                                      \
      if (x > hi) hi = x;                                                      \
    }
  AT(visList, oi_vis)
  AT(vis2List, oi_vis2)
  AT(t3List, oi_t3)
  AT(fluxList, oi_flux)
#undef AT
  for (int s = 0; s < 7 && hi >= lo; s++)
  {
    bool want = g_list_length(oi->arrayList) <= 1 &&
                g_list_length(oi->wavelengthList) == 1 &&
                oi->targets.ntarget == 1 && hi - lo <= span[s];
    MC_CHECK(!!is_atomic(oi, span[s]) == want, "is_atomic is not %d for limit %g", want, span[s]);
  }
}

static char *summary_text(const oi_fits *oi)
{
  char *out;
  size_t n;
  FILE *f = open_memstream(&out, &n);
  const oi_header *h = &oi->header;
  fprintf(f, "OIFITS version %d data:\n", strcmp(h->content, "OIFITS2") ? 1 : 2);
  fprintf(f, "  ORIGIN  = '%s'\n  DATE    = '%s'\n  DATE-OBS= '%s'\n", h->origin,
          h->date, h->date_obs);
  fprintf(f, "  TELESCOP= '%s'\n  INSTRUME= '%s'\n  OBSERVER= '%s'\n",
          h->telescop, h->instrume, h->observer);
  fprintf(f, "  OBJECT  = '%s'\n  INSMODE = '%s'\n  OBSTECH = '%s'\n\n",
          h->object, h->insmode, h->obstech);
  int k;
  GList *l;
  fprintf(f, "  %d OI_ARRAY tables:\n", (int)g_list_length(oi->arrayList));
  for (l = oi->arrayList, k = 1; l; l = l->next, k++)
  {
    oi_array *t = l->data;
    fprintf(f, "    #%-2d ARRNAME='%s'  %d elements\n", k, t->arrname,
            t->nelement);
  }
  fprintf(f, "  %d OI_WAVELENGTH tables:\n",
          (int)g_list_length(oi->wavelengthList));
  for (l = oi->wavelengthList, k = 1; l; l = l->next, k++)
  {
    oi_wavelength *t = l->data;
    float lo = INFINITY, hi = 0;
    for (int i = 0; i < t->nwave; i++)
    {
      if (t->eff_wave[i] < lo) lo = t->eff_wave[i];
      if (t->eff_wave[i] > hi) hi = t->eff_wave[i];
    }
    fprintf(f, "    #%-2d INSNAME='%s'  %d channels  %7.1f-%7.1fnm\n", k,
            t->insname, t->nwave, 1e9 * lo, 1e9 * hi);
  }
  fprintf(f, "  %d OI_CORR tables:\n", (int)g_list_length(oi->corrList));
  for (l = oi->corrList, k = 1; l; l = l->next, k++)
  {
    oi_corr *t = l->data;
    fprintf(f, "    #%-2d CORRNAME='%s'  %d/%d non-zero correlations\n", k,
            t->corrname, t->ncorr, t->ndata);
  }
  fprintf(f, "  %d OI_INSPOL tables:\n", (int)g_list_length(oi->inspolList));
  for (l = oi->inspolList, k = 1; l; l = l->next, k++)
    fprintf(f, "    #%-2d ARRNAME='%s'\n", k, ((oi_inspol *)l->data)->arrname);
#define SUM(T, NAME, list)                                                     \
  fprintf(f, "  %d " NAME " tables:\n", (int)g_list_length(oi->list));          \
  for (l = oi->list, k = 1; l; l = l->next, k++)                               \
  {                                                                            \
    T *t = l->data;                                                            \
    fprintf(f,                                                                 \
            "    #%-2d DATE-OBS=%s\n    INSNAME='%s'  ARRNAME='%s'  "          \
            "CORRNAME='%s'\n     %5ld records x %3d wavebands\n",              \
            k, t->date_obs, t->insname, t->arrname, t->corrname, t->numrec,    \
            t->nwave);                                                         \
  }
  SUM(oi_vis, "OI_VIS", visList)
  SUM(oi_vis2, "OI_VIS2", vis2List)
  SUM(oi_t3, "OI_T3", t3List)
  SUM(oi_flux, "OI_FLUX", fluxList)
  fclose(f);
  return out;
}

/* the text, blanks squeezed: layout is not part of the property */
static void squeeze(char *s)
{
  char *d = s;
  int sp = 1;
  for (; *s; s++)
  {
    if (*s == ' ' || *s == '\n' || *s == '\t')
    {
      if (!sp) *d++ = ' ';
      sp = 1;
    }
    else
      *d++ = *s, sp = 0;
  }
  *d = 0;
}
void summary_expect(const oi_fits *oi)
{
  char *want = summary_text(oi);
  for (int again = 0; again < 2; again++)
  {
    char *got = strdup(format_oi_fits_summary(oi));
    char *w = strdup(want);
    squeeze(w), squeeze(got);
    if (strcmp(w, got) != 0)
    {
      size_t i = 0;
      while (w[i] && w[i] == got[i])
        i++;
      size_t s = i > 30 ? i - 30 : 0;
      mc_fail("summary differs%s: expected '...%.80s', got '...%.80s'",
              again ? " the second time" : "", w + s, got + s);
    }
    free(got), free(w);
    if (again) break;
    mc_cap_begin();
    print_oi_fits_summary(oi);
    fflush(stdout);
    char *cap = mc_cap_end();
    w = strdup(want);
    squeeze(w), squeeze(cap);
    MC_CHECK(strstr(cap, w), "printed summary differs from the true one");
    free(w), free(cap);
  }
  free(want);
}

static void c21_summary(void)
{
  oi_fits *oi = ds_gen(true);
  int c = mc_dev(4, "content");
  SETS(oi->header.content, c == 0 ? "OIFITS2" : c == 1 ? "" : c == 2 ? "OIFITS" : "OIFITS2 ");
  mc_mine();
  summary_expect(oi);
  count_check(oi);
  mc_outcome(ds_hash(oi, 0));
}

static void c21_sumcells(void)
{
  static oi_fits *base;
  static cell *cells;
  static int n;
  if (!base)
  {
    base = ds_rich();
    ds_keep(base);
    n = ds_cells(base, &cells);
  }
  int i = mc_pick(n, "cell");
  if (cells[i].rec >= 0) mc_skip();
  int v = mc_pick(cell_nvalues(&cells[i]), "value");
  mc_mine();
  oi_fits *oi = ds_clone(base);
  cell *c;
  ds_cells(oi, &c);
  cell_set(&c[i], v);
  free(c);
  summary_expect(oi);
  mc_outcome(ds_hash(oi, 0));
}

/* wavelengths of every magnitude and order, dates near the ends of the range */
static void c21_sumwaves(void)
{
  static const float mag[] = {0, 1e-12f, 3.3e-7f, 2.2e-6f, 9e-4f, 0.21f, 1.0f, 30.0f, 1e5f, 1e9f};
  int n = 1 + mc_pick(mc_thorough ? 4 : 3, "channels-1"), m[4];
  for (int i = 0; i < n; i++)
    m[i] = mc_pick(10, "wavelength");
  mc_mine();
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  for (int t = 0; t < 2; t++)
  {
    oi_wavelength *w = ds_wave(oi, t ? "I1" : "I0", n, 0);
    for (int i = 0; i < n; i++)
      w->eff_wave[t ? n - 1 - i : i] = mag[m[i]] * (t ? 2 : 1);
  }
  ds_vis2(oi, "", "I0", "", 2, n, 0);
  summary_expect(oi);
  mc_outcome(ds_hash(oi, 0));
}

static void c21_sumsizes(void)
{
  int dim = mc_pick(12, "dimension");
  static const int more[] = {255, 256, 257, 300, 1000};
  int lim = mc_thorough ? 1200 : 130, n = mc_pick(lim + 5, "size");
  mc_mine();
  if (n >= lim) n = more[n - lim];
  char b[20];
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  if (dim < 8)
    for (int i = 0; i < n; i++)
    {
      snprintf(b, sizeof(b), "NAME%d", i);
      if (dim == 0) ds_array(oi, b, i % 5, i);
      if (dim == 1) ds_wave(oi, b, 1 + i % 5, i);
      if (dim == 2) ds_corr(oi, b, i, i % 4, i);
      if (dim == 3) ds_inspol(oi, b, "I", 1, 1, i);
      if (dim == 4) ds_vis(oi, "", b, "", 1 + i % 2, 1 + i % 3, 0);
      if (dim == 5) ds_vis2(oi, b, "I", "", 1 + i % 2, 1 + i % 3, 0);
      if (dim == 6) ds_t3(oi, "", "I", b, 1 + i % 2, 1 + i % 3, 0);
      if (dim == 7) ds_flux(oi, "", b, "", 1 + i % 2, 1 + i % 3, 0);
    }
  else if (dim == 8)
    ds_array(oi, "A", n, 0);
  else if (dim == 9)
    ds_wave(oi, "I", n + 1, 0);
  else if (dim == 10)
    ds_corr(oi, "C", n * 7, n, 0);
  else
  {
    ds_vis(oi, "", "I", "", n, 2, 0);
    ds_flux(oi, "", "I", "", n, 2, 0);
  }
  summary_expect(oi);
  mc_outcome(dim * 10000 + n);
}

/* one dimension at a time over a long range */
static void c14_sweep(void)
{
  static const int dims[] = {SZ_TARGETS, SZ_STATIONS, SZ_NARRAY, SZ_NWAVE, SZ_NCORR};
  int dim = dims[mc_pick(5, "dimension")];
  int n = sz_pick(dim, mc_thorough ? 120 : 40, mc_thorough ? 4096 : 1025);
  int how = mc_pick(5, "origin");
  mc_mine();
  oi_fits *oi = ds_sized(dim, n, 0, false), *src = oi;
  fd_scale(oi);
  if (how == 4) /* numbers in falling order */
  {
    for (int i = 0; i < oi->targets.ntarget; i++) oi->targets.targ[i].target_id = oi->targets.ntarget - i;
    for (GList *l = oi->arrayList; l; l = l->next)
      for (int i = 0; i < ((oi_array *)l->data)->nelement; i++)
        ((oi_array *)l->data)->elem[i].sta_index = ((oi_array *)l->data)->nelement - i;
  }
  oi_fits got;
  memset(&got, 0x5a, sizeof(got));
  int st = 0;
  if (how == 1 || how == 4)
  {
    const char *fn = mc_path("l.fits");
    unlink(fn);
    write_oi_fits(fn, *oi, &st);
    read_oi_fits(fn, &got, &st);
    MC_CHECK(st == 0, "write and read failed");
    unlink(fn);
  }
  else if (how == 2)
  {
    oi_filter_spec f;
    init_oi_filter(&f);
    mc_cap_begin();
    apply_oi_filter(oi, &f, &got);
    free(mc_cap_end());
  }
  else if (how == 3)
  {
    oi_fits *l[2] = {oi, ds_sized(dim, n > 300 ? 2 : n, 3, false)};
    mg_run(l, 2, &got);
    src = NULL;
  }
  lookup_check(how ? &got : oi, src, "large dataset");
  mc_outcome(ds_hash(how ? &got : oi, SER_NODATE));
  if (how) free_oi_fits(&got);
}
void copy_judge(oi_fits *oi, int side)
{
  oi_fits *keep = ds_clone(oi), *d = dup_all(oi);
  ds_expect(keep, oi, SER_RAW, "dup_oi_* modified the original");
  ds_expect(keep, d, SER_RAW, "copy");
  lib_free_tables(side ? oi : d);
  ds_expect(keep, side ? d : oi, SER_RAW, "after freeing the other one");
  mc_outcome(ds_hash(keep, SER_RAW));
  lib_free_tables(side ? d : oi);
}
static void c15_sweep(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 120 : 40, mc_thorough ? 10001 : 2000);
  int side = mc_pick(2, "side");
  mc_mine();
  copy_judge(ds_sized(dim, n, 0, false), side);
}

const mc_scope scopes_mem[] = {
    {"C13", "days", c13_days, 0, 0, 0,
     "every day from 1901-01-01 to 2099-12-31, both conversions (complete)"},
    {"C13", "derived", c13_derived, 0, 0, 0,
     "DATE-OBS derived from the MJD of one record of each data table, every day, six times of day from one unit in the last place before midnight"},
    {"C13", "earliest", c13_earliest, 0, 0, 0,
     "all assignments of 4 MJD values to up to 8 tables of one record"},
    {"C14", "histories", c14_hist, 1, 2, 0,
     "all sequences of up to 2 (thorough 3) operations out of write+read, merge and 10 filters, on all datasets within the deviation bound; all keys looked up after each"},
    {"C14", "duplicates", c14_dups, 0, 0, 0,
     "all assignments of 3 numbers and 3 names to 3 targets and of 3 station numbers to 3 stations"},
    {"C14", "names", c14_names, 0, 0, 0,
     "all assignments of 3 similar names to up to 2 (thorough 3) array, 2 wavelength and 2 correlation tables, with every reference from one data table"},
    {"C15", "shapes", c15_shape, 2, 3, 0,
     "copies of every table of all datasets within the deviation bound, both release orders"},
    {"C15", "cells", c15_cells, 0, 0, 0,
     "every scalar cell changed in original or copy, both release orders"},
    {"C15", "values", c15_values, 0, 0, 0,
     "every scalar cell set to every special value before copying"},
    {"C15", "upgrade", c15_upgrade, 0, 1, 0,
     "all 64 assignments of revisions 1/2 to table types, every pattern of zero and non-zero TIME over three records, 3 TIME values, upgraded twice"},
    {"C21", "flags", c21_flags, 0, 0, 0,
     "all flag patterns of 2 records x 3 channels per data type, second table in 4 states, three values that mean true, any subset of counts requested"},
    {"C21", "sizes", c21_sizes, 0, 0, 0,
     "numbers of records, channels and tables swept"},
    {"C21", "atomic", c21_atomic, 0, 0, 0,
     "all combinations of 0-2 arrays, wavelength tables, targets, and of up to 2 records in each of 4 data types with MJDs around 5 limits"},
    {"C21", "summary", c21_summary, 2, 3, 0,
     "text summary and counts of all datasets within the deviation bound"},
    {"C21", "summary-values", c21_sumcells, 0, 0, 0,
     "text summary with every keyword set to every special value"},
    {"C21", "summary-waves", c21_sumwaves, 0, 0, 0,
     "text summary with all sequences of 1..3 (4) wavelengths of ten magnitudes"},
    {"C21", "summary-sizes", c21_sumsizes, 0, 0, 0,
     "text summary with every number of tables, elements, channels and records up to the bound"},
    {"C14", "sweep", c14_sweep, 0, 0, 0,
     "numbers of targets, stations and tables over a contiguous range and boundary sizes, five origins of the dataset"},
    {"C15", "sweep", c15_sweep, 0, 0, 0,
     "each of 18 dimensions over a contiguous range and boundary sizes"},
    {0}};
