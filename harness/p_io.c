/* C01: write/read round trip */
#include "data.h"
#include <unistd.h>

static void roundtrip(oi_fits *oi, const char *what)
{
  const char *fn = mc_path("rt.fits");
  unlink(fn);
  oi_fits *before = ds_clone(oi);
  int st = 0, r;
  r = write_oi_fits(fn, *oi, &st);
  MC_CHECK(st == 0 && r == 0, "%s: write failed, status %d/%d", what, r, st);
  ds_expect(before, oi, 0, "write modified the dataset");
  oi_fits got;
  memset(&got, 0x5a, sizeof(got));
  st = 0;
  r = read_oi_fits(fn, &got, &st);
  MC_CHECK(st == 0 && r == 0, "%s: read failed, status %d/%d", what, r, st);
  ds_as_written(before);
  ds_expect(before, &got, SER_NODATE | SER_KW15, what);
  MC_CHECK(strlen(got.header.date) >= 10, "DATE not set by the writer");
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);
  ds_free(before);
  ds_free(oi);
  unlink(fn);
}

void io_roundtrip(oi_fits *oi, const char *what) { roundtrip(oi, what); }

static void c01_shape(void)
{
  oi_fits *oi = ds_gen(true);
  mc_mine();
  roundtrip(oi, "round trip");
}

static void c01_cells(void)
{
  static oi_fits *base;
  static cell *cells;
  static int n;
  if (!base)
  {
    base = ds_rich();
    ds_keep(base);
    n = ds_cells(base, &cells);
  }
  int i = mc_pick(n, "cell");
  int v = mc_pick(cell_nvalues(&cells[i]), "value");
  mc_mine();
  oi_fits *oi = ds_clone(base);
  cell *c;
  int m = ds_cells(oi, &c);
  if (m != n) abort();
  bool ok = cell_set(&c[i], v);
  char what[200];
  snprintf(what, sizeof(what), "round trip with %s (table %d rec %ld ch %d) set to value #%d",
           c[i].name, c[i].tab, c[i].rec, c[i].ch, v);
  free(c);
  if (!ok)
  {
    ds_free(oi);
    return;
  }
  roundtrip(oi, what);
}

/* one dimension at a time over a long range */
static const int big[] = {48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200,
                          255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001,
                          1023, 1024, 1025, 2000, 4096, 9999, 10000, 10001};
static void c01_sweep(void)
{
  int dim = mc_pick(14, "dimension");
  int isArr = 0;
  int lim = mc_thorough ? 120 : 40;
  int k = mc_pick(lim + (int)(sizeof(big) / sizeof(*big)), "size");
  mc_mine();
  int n = k < lim ? k + 1 : big[k - lim];
  if (k >= lim && n <= lim) return;
  if (dim >= 8 && n > (dim == 13 ? 70 : 300)) return; /* numbers of tables; VISREFMAP */
  oi_fits *oi = ds_new();
  int nt = 2, ne = 3, nw = 2, nc = 2, np = 1, rv = 1, r2 = 1, r3 = 1, rf = 1;
  (void)isArr;
  switch (dim)
  {
  case 0: nt = n; break;
  case 1: ne = n; break;
  case 2: nw = n; break;
  case 3: nc = n; break;
  case 4: np = n; break;
  case 5: rv = n; break;
  case 6: r2 = n; break;
  case 7: r3 = n, rf = n; break;
  default: break;
  }
  if (dim == 13) nw = n;
  ds_targets(oi, nt, n % 2);
  ds_array(oi, "ARR0", ne, 0);
  ds_wave(oi, "INS0", nw, 0);
  ds_corr(oi, "COR0", 40, nc, 0);
  ds_inspol(oi, "ARR0", "INS0", np, nw, 0);
  int many = dim >= 8 && dim < 13 ? n : 1;
  oi_vis *v = NULL;
  for (int i = 0; i < (dim == 8 ? many : 1); i++)
    v = ds_vis(oi, "ARR0", "INS0", "COR0", rv, nw, 10 + i);
  if (dim == 2 || dim == 13) vis_complex(v, "Jy", 3);
  if (dim == 13) vis_refmap(v, 3);
  for (int i = 0; i < (dim == 9 ? many : 1); i++)
    ds_vis2(oi, "ARR0", "INS0", "COR0", r2, nw, 10 + i);
  for (int i = 0; i < (dim == 10 ? many : 1); i++)
    ds_t3(oi, "ARR0", "INS0", "COR0", r3, nw, 10 + i);
  for (int i = 0; i < (dim == 11 ? many : 1); i++)
    ds_flux(oi, "ARR0", "INS0", "COR0", rf, nw, 10 + i);
  if (dim == 12)
    for (int i = 1; i < many; i++)
    {
      char b[20];
      snprintf(b, sizeof(b), "ARR%d", i);
      ds_array(oi, b, 2, i);
      snprintf(b, sizeof(b), "INS%d", i);
      ds_wave(oi, b, 2, i);
      snprintf(b, sizeof(b), "COR%d", i);
      ds_corr(oi, b, 9, 1, i);
    }
  roundtrip(oi, "round trip (dimension sweep)");
}

/* all combinations of the optional features of one table */
oi_fits *ds_options(void)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, mc_pick(2, "category"));
  ds_array(oi, "ARR0", 2, 0);
  int nw = 1 + mc_pick(2, "channels-1");
  ds_wave(oi, "INS0", nw, 0);
  ds_corr(oi, "COR0", 40, 2, 0);
  int t = mc_pick(4, "table");
  const char *arr = mc_pick(2, "arrname") ? "ARR0" : "";
  const char *corr = mc_pick(2, "corrname") ? "COR0" : "";
  int nrec = mc_pick(3, "numrec");
  if (t == 0)
  {
    oi_vis *v = ds_vis(oi, arr, "INS0", corr, nrec, nw, 1);
    static const char *const at[] = {"", "absolute", "differential",
                                     "correlated flux"};
    SETS(v->amptyp, at[mc_pick(4, "amptyp")]);
    if (mc_pick(2, "phityp")) SETS(v->phityp, "absolute");
    if (mc_pick(2, "ampunit")) SETS(v->ampunit, "Jy");
    v->amporder = mc_pick(2, "amporder") - 1;
    v->phiorder = 2 * mc_pick(2, "phiorder") - 1;
    if (mc_pick(2, "visrefmap")) vis_refmap(v, 1);
    int c = mc_pick(3, "complex");
    if (c) vis_complex(v, c == 1 ? "Jy" : "", 1);
  }
  else if (t == 1)
    ds_vis2(oi, arr, "INS0", corr, nrec, nw, 1);
  else if (t == 2)
    ds_t3(oi, arr, "INS0", corr, nrec, nw, 1);
  else
  {
    oi_flux *v = ds_flux(oi, arr, "INS0", corr, nrec, nw, 1);
    SETS(v->fovtype, mc_pick(2, "fovtype") ? "RADIUS" : "");
    v->calstat = mc_pick(2, "calstat") ? 'C' : 'U';
    SETS(v->fluxunit, mc_pick(2, "fluxunit") ? "Jy" : "");
  }
  mc_mine();
  return oi;
}

static void c01_options(void)
{
  roundtrip(ds_options(), "round trip (optional features)");
}

const mc_scope scopes_io[] = {
    {"C01", "options", c01_options, 0, 0, 0,
     "all combinations of the optional keywords and columns of one data table"},
    {"C01", "shape", c01_shape, 2, 3, 0,
     "all datasets within the deviation bound of a dataset with one table of each type"},
    {"C01", "cells", c01_cells, 0, 0, 0,
     "every scalar cell of a dataset using all features, set to every special value"},
    {"C01", "sweep", c01_sweep, 0, 0, 0,
     "each dimension (rows, channels, tables) swept over a contiguous range and boundary sizes"},
    {0}};
