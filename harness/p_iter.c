/* C10: iterators */
#include "filt.h"

typedef struct
{
  int type;
  oi_vis_iter it;
} iter;
static void it_init(iter *x, int type, const oi_fits *d, const oi_filter_spec *f)
{
  memset(x, 0x5a, sizeof(*x));
  x->type = type;
  if (type == 0) oi_vis_iter_init(&x->it, d, f);
  else if (type == 1) oi_vis2_iter_init(&x->it, d, f);
  else oi_t3_iter_init(&x->it, d, f);
}
typedef struct
{
  bool ret;
  int extver;
  void *tab;
  long irec;
  void *rec;
  int iwave;
} step;
/* nulls: bit i set = pass NULL for output i */
static step it_next(iter *x, int nulls)
{
  step s = {false, -99, NULL, -99, NULL, -99};
  int *e = nulls & 1 ? NULL : &s.extver;
  void *t = nulls & 2 ? NULL : &s.tab;
  long *r = nulls & 4 ? NULL : &s.irec;
  void *q = nulls & 8 ? NULL : &s.rec;
  int *w = nulls & 16 ? NULL : &s.iwave;
  if (x->type == 0) s.ret = oi_vis_iter_next(&x->it, e, t, r, q, w);
  else if (x->type == 1) s.ret = oi_vis2_iter_next(&x->it, e, t, r, q, w);
  else s.ret = oi_t3_iter_next(&x->it, e, t, r, q, w);
  return s;
}
static void it_uv(iter *x, double o[5], int nulls)
{
  double *p[5];
  for (int i = 0; i < 5; i++)
  {
    o[i] = 0;
    p[i] = nulls >> i & 1 ? NULL : &o[i];
  }
  if (x->type == 0) oi_vis_iter_get_uv(&x->it, p[0], p[1], p[2]);
  else if (x->type == 1) oi_vis2_iter_get_uv(&x->it, p[0], p[1], p[2]);
  else oi_t3_iter_get_uv(&x->it, p[0], p[1], p[2], p[3], p[4]);
}
static bool close_to(double a, double b)
{
  return a == b || (isnan(a) && isnan(b)) || fabs(a - b) <= 1e-12 * fabs(b);
}
/* the step must be point k of n */
static void expect_step(const oi_fits *d, iter *x, step s, const pt *p, int n,
                        int k, int nulls, const char *ctx)
{
  MC_CHECK(s.ret == (k < n), "%s: step %d returned %d, %d points expected", ctx, k, s.ret, n);
  if (!s.ret) return;
  GList *l = x->type == 0 ? d->visList : x->type == 1 ? d->vis2List : d->t3List;
  void *tab = NTH(l, p[k].extver - 1);
  void *rec = x->type == 0   ? (void *)&((oi_vis *)tab)->record[p[k].irec]
              : x->type == 1 ? (void *)&((oi_vis2 *)tab)->record[p[k].irec]
                             : (void *)&((oi_t3 *)tab)->record[p[k].irec];
  MC_CHECK((nulls & 1 || s.extver == p[k].extver) && (nulls & 2 || s.tab == tab) &&
               (nulls & 4 || s.irec == p[k].irec) && (nulls & 8 || s.rec == rec) &&
               (nulls & 16 || s.iwave == p[k].iwave),
           "%s: step %d gave table %d record %ld channel %d, expected %d %ld %d (table/record pointers %s)", ctx, k,
           s.extver, s.irec, s.iwave, p[k].extver, p[k].irec, p[k].iwave, s.tab == tab && s.rec == rec ? "right" : "wrong");
  double uv[5];
  it_uv(x, uv, 0);
  MC_CHECK(close_to(uv[0], p[k].eff) && close_to(uv[1], p[k].u1) && close_to(uv[2], p[k].v1) &&
               (x->type < 2 || (close_to(uv[3], p[k].u2) && close_to(uv[4], p[k].v2))),
           "%s: step %d: UV %g %g %g %g %g, expected %g %g %g %g %g", ctx, k, uv[0], uv[1], uv[2], uv[3], uv[4],
           p[k].eff, p[k].u1, p[k].v1, p[k].u2, p[k].v2);
}
static void full(const oi_fits *d, const oi_filter_spec *f, int type, bool null)
{
  char fs[600];
  fs_show(f, fs, sizeof(fs));
  pt *p;
  int n = oracle_points(d, f, type, &p);
  iter x;
  oi_filter_spec g = *f;
  it_init(&x, type, d, null ? NULL : &g);
  if (!null)
  { /* the iterator has its own copy of the filter */
    MC_CHECK(!memcmp(&g, f, sizeof(g)), "filter changed by iterator");
    memset(&g, 0xff, sizeof(g));
  }
  for (int k = 0; k < n + 3; k++)
  {
    step s = it_next(&x, 0);
    expect_step(d, &x, s, p, n, k, 0, fs);
  }
  mc_evals(n);
  mc_outcome(mc_hash(p, n * sizeof(pt), type + 77));
  free(p);
}
void iter_full(const oi_fits *d, const oi_filter_spec *f, int type, bool null)
{
  full(d, f, type, null);
}
static oi_fits *base(void)
{
  static oi_fits *b;
  if (!b)
  {
    b = fd_base();
    ds_keep(b);
  }
  return b;
}
static void c10_criteria(void)
{
  oi_filter_spec f;
  fs_gen(&f, FS_ALL);
  mc_mine();
  static uint64_t h;
  if (!h) h = ds_hash(base(), SER_RAW);
  for (int t = 0; t < 3; t++)
    full(base(), &f, t, false);
  MC_CHECK(ds_hash(base(), SER_RAW) == h, "dataset changed by iterating");
}
static void c10_numbers(void)
{
  oi_filter_spec f;
  oi_fits *oi = fd_numbers(&f);
  for (int t = 0; t < 3; t++)
    full(oi, &f, t, false);
  mc_outcome(ds_hash(oi, 0));
}
static void c10_everyday(void)
{
  oi_fits *oi = fd_everyday();
  for (int t = 0; t < 3; t++)
    for (int nul = 0; nul < 2; nul++)
    {
      oi_filter_spec f;
      init_oi_filter(&f);
      iter x;
      it_init(&x, t, oi, nul ? NULL : &f);
      for (int k = 0; k < 4; k++)
      {
        step s = it_next(&x, 0);
        MC_CHECK(s.ret == (k < 2), "iterator %s filter: step %d returned %d", nul ? "without" : "with initial", k, s.ret);
        if (s.ret) MC_CHECK(s.iwave == k && s.irec == 0 && s.extver == 1, "step %d: channel %d", k, s.iwave);
      }
    }
  mc_outcome(ds_hash(oi, 0));
}
static void c10_edges(void)
{
  oi_filter_spec f;
  fd_edge(&f);
  for (int t = 0; t < 3; t++)
    full(base(), &f, t, false);
}
static void c10_fine(void)
{
  oi_filter_spec f;
  oi_fits *oi = fd_fine(&f);
  for (int t = 0; t < 3; t++)
    full(oi, &f, t, false);
}
static void c10_points(void)
{
  oi_filter_spec f;
  int type;
  oi_fits *oi = fd_points(&f, 3, &type);
  full(oi, &f, type, false);
  ds_free(oi);
}
static void c10_shape(void)
{
  oi_filter_spec f;
  oi_fits *oi = ds_gen(true);
  fs_gen(&f, FS_ALL);
  int miss = mc_dev(4, "missing-wavelength");
  mc_mine();
  fd_scale(oi);
  if (miss)
  { /* data that refer to no existing OI_WAVELENGTH are skipped */
    GList *l = miss == 1 ? oi->visList : miss == 2 ? oi->vis2List : oi->t3List;
    if (l)
    {
      if (miss == 1) SETS(((oi_vis *)l->data)->insname, "LOST");
      else if (miss == 2) SETS(((oi_vis2 *)l->data)->insname, "LOST");
      else SETS(((oi_t3 *)l->data)->insname, "LOST");
    }
  }
  uint64_t h = ds_hash(oi, SER_RAW);
  for (int t = 0; t < 3; t++)
    full(oi, &f, t, false);
  oi_filter_spec def;
  init_oi_filter(&def);
  for (int t = 0; t < 3; t++)
    full(oi, &def, t, true);
  MC_CHECK(ds_hash(oi, SER_RAW) == h, "dataset changed by iterating");
  ds_free(oi);
}
/* two or three iterators, all interleavings of their steps */
static void c10_interleave(void)
{
  static oi_fits *d;
  if (!d)
  {
    d = ds_new();
    ds_keep(d);
    ds_targets(d, 2, false);
    ds_array(d, "A", 3, 0);
    ds_wave(d, "I", 2, 0), ds_wave(d, "J", 1, 1);
    ds_vis(d, "A", "I", "", 1, 2, 1), ds_vis(d, "A", "J", "", 2, 1, 1);
    ds_vis2(d, "A", "J", "", 2, 1, 2), ds_vis2(d, "A", "I", "", 1, 2, 3);
    ds_t3(d, "A", "J", "", 1, 1, 4), ds_t3(d, "A", "I", "", 1, 2, 5);
    fd_scale(d);
  }
  iter x[3];
  pt *p[3];
  int n[3], k[3] = {0}, ni = mc_thorough ? 3 : 2;
  int len = mc_thorough ? 9 : 10;
  int type[3], flt[3];
  for (int i = 0; i < ni; i++)
  {
    type[i] = mc_pick(3, "type");
    flt[i] = mc_pick(3, "filter");
  }
  int steps[10];
  for (int s = 0; s < len; s++)
    steps[s] = mc_pick(ni, "which");
  mc_mine();
  for (int i = 0; i < ni; i++)
  {
    oi_filter_spec f;
    init_oi_filter(&f);
    if (flt[i] == 1) f.wave_range[1] = 1.2e-6f;
    if (flt[i] == 2) SETS(f.insname, "J"), f.snr_range[0] = 2;
    n[i] = oracle_points(d, &f, type[i], &p[i]);
    it_init(&x[i], type[i], d, &f);
  }
  for (int s = 0; s < len; s++)
  {
    int i = steps[s];
    step q = it_next(&x[i], 0);
    expect_step(d, &x[i], q, p[i], n[i], k[i]++, 0, "interleaved iterators");
    /* the others still report their own current point */
    for (int j = 0; j < ni; j++)
      if (j != i && k[j] > 0 && k[j] <= n[j])
      {
        double uv[5];
        it_uv(&x[j], uv, 0);
        const pt *r = &p[j][k[j] - 1];
        MC_CHECK(close_to(uv[0], r->eff) && close_to(uv[1], r->u1) && close_to(uv[2], r->v1),
                 "current point of another iterator changed");
      }
  }
  mc_outcome(mc_hash(k, sizeof(k), type[0] * 3 + type[1]));
  for (int i = 0; i < ni; i++)
    free(p[i]);
}
/* every subset of outputs not wanted, every pair of types/filters; restart */
static void c10_outputs(void)
{
  int type = mc_pick(3, "type"), nulls = mc_pick(32, "null-outputs"), stop = mc_pick(8, "restart-after"),
      uvn = mc_pick(32, "null-uv");
  mc_mine();
  oi_filter_spec f;
  init_oi_filter(&f);
  f.accept_flagged = 0;
  pt *p;
  int n = oracle_points(base(), &f, type, &p);
  iter x;
  it_init(&x, type, base(), &f);
  for (int k = 0; k < stop; k++)
    expect_step(base(), &x, it_next(&x, nulls), p, n, k, nulls, "optional outputs");
  double uv[5];
  if (stop) it_uv(&x, uv, uvn);
  it_init(&x, type, base(), &f);
  for (int k = 0; k < n + 2; k++)
    expect_step(base(), &x, it_next(&x, nulls), p, n, k, nulls, "restarted iterator");
  mc_outcome(mc_hash(p, n * sizeof(pt), nulls * 8 + stop));
  free(p);
}
static void c10_sweep(void)
{
  int dim = mc_pick(3, "dimension"), n = 1 + mc_pick(mc_thorough ? 300 : 100, "size"), flt = mc_pick(4, "filter");
  mc_mine();
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, false);
  ds_array(oi, "A", 3, 0);
  int nw = dim == 0 ? n : 2, nr = dim == 1 ? n : 2, nt = dim == 2 ? n : 1;
  oi_wavelength *w = ds_wave(oi, "I", nw, 0);
  for (int k = 0; k < nw; k++)
    w->eff_wave[k] = (1 + ((k * 7) % 5)) * 1e-6f;
  for (int t = 0; t < nt; t++)
  {
    ds_vis(oi, "A", "I", "", nr, nw, t);
    ds_vis2(oi, "A", "I", "", nr, nw, t);
    ds_t3(oi, "A", "I", "", nr, nw, t);
  }
  fd_scale(oi);
  oi_filter_spec f;
  init_oi_filter(&f);
  if (flt & 1) f.wave_range[1] = 3.5e-6f, f.mjd_range[1] = 50001.5;
  if (flt & 2) f.accept_flagged = 0, f.snr_range[0] = 2;
  for (int t = 0; t < 3; t++)
    full(oi, &f, t, false);
  ds_free(oi);
}

static void c10_triangle(void)
{
  oi_filter_spec f;
  oi_fits *oi = fd_triangle(&f);
  for (int t = 0; t < 3; t++)
    full(oi, &f, t, false);
  ds_free(oi);
}

/* every dimension, targets, stations and support tables included */
static void c10_sizes(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 120 : 24, mc_thorough ? 4096 : 513);
  int flt = mc_pick(5, "filter");
  mc_mine();
  oi_fits *oi = ds_sized(dim, n, 0, false);
  int k = 0;
  fd_scale(oi);
  for (GList *l = oi->wavelengthList; l; l = l->next, k++)
    for (int i = 0; i < ((oi_wavelength *)l->data)->nwave; i++)
      ((oi_wavelength *)l->data)->eff_wave[i] = (1 + ((i * 7 + k) % 5)) * 1e-6f;
  oi_filter_spec f;
  init_oi_filter(&f);
  if (flt == 1) f.wave_range[1] = 3.5e-6f, f.mjd_range[1] = 50001.5;
  if (flt == 2) f.target_id = (n + 1) / 2;
  if (flt == 3) snprintf(f.arrname, sizeof(f.arrname), "*%d", (n - 1) % 10);
  if (flt == 4) snprintf(f.insname, sizeof(f.insname), "INS%d", n - 1);
  for (int t = 0; t < 3; t++)
    full(oi, &f, t, flt == 0);
}

const mc_scope scopes_iter[] = {
    {"C10", "criteria", c10_criteria, 3, 4, 0,
     "all filter specifications within the deviation bound; every step of the three iterators compared"},
    {"C10", "points", c10_points, 0, 0, 0, "all combinations of point states over 3 channels per type"},
    {"C10", "fine", c10_fine, 0, 0, 0,
     "date, baseline and UV radius limits next to data that single precision does not hold, 1e-8 and 1e-11 to either side"},
    {"C10", "numbers", c10_numbers, 1, 2, 0,
     "7 numberings of the targets (zero, negative, unordered) with each of 9 target selections and any one (thorough: two) other restrictions"},
    {"C10", "everyday", c10_everyday, 0, 0, 0,
     "no filter, or the initial one, on all combinations of unusual but possible wavelengths, baselines, dates and SNRs"},
    {"C10", "edges", c10_edges, 0, 0, 0,
     "each limit, and both limits of a range, at every value that occurs in the data, one unit in the last place and small relative steps on either side"},
    {"C10", "triangle", c10_triangle, 0, 0, 0, "all pairs of baseline vectors against baseline and UV-radius limits"},
    {"C10", "outputs", c10_outputs, 0, 0, 0, "all subsets of optional outputs, all restart points up to 7"},
    {"C10", "interleave", c10_interleave, 0, 0, 0,
     "all interleavings of 10 steps of two (9 of three) iterators of all types and three filters on one dataset"},
    {"C10", "sweep", c10_sweep, 0, 0, 0, "numbers of channels, records and tables swept contiguously"},
    {"C10", "shape", c10_shape, 2, 3, 0,
     "all pairs (triples) of deviations of dataset shape and filter, with and without filter"},
    {"C10", "sizes", c10_sizes, 0, 0, 0,
     "each of 18 dimensions over a contiguous range and boundary sizes, four filters and none"},
    {0}};
