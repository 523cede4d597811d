/* C04, C05, C06: filtering */
#include "filt.h"

static oi_fits *base(void)
{
  static oi_fits *b;
  if (!b)
  {
    b = fd_base();
    ds_keep(b);
  }
  return b;
}

/* mode 0: data tables only (C04); 1: everything (C05) */
static void judge(oi_fits *in, oi_filter_spec *f, int mode)
{
  char fs[600];
  fs_show(f, fs, sizeof(fs));
  oi_filter_spec keep = *f;
  oi_fits *before = mode ? ds_clone(in) : NULL;
  oi_fits *want = oracle_filter(in, f);
  oi_fits got;
  memset(&got, 0x5a, sizeof(got));
  mc_cap_begin();
  apply_oi_filter(in, f, &got);
  free(mc_cap_end());
  ds_expect(want, &got, mode ? 0 : SER_ONLYDATA, fs);
  ds_container(&got, fs);
  if (mode)
  {
    ds_expect(before, in, SER_RAW, "input changed by filtering");
    MC_CHECK(!memcmp(&keep, f, sizeof(keep)), "specification changed by use");
    /* closure, from the output alone */
    for (int type = 0; type < 4; type++)
    {
      GList *l = type == 0   ? got.visList
                 : type == 1 ? got.vis2List
                 : type == 2 ? got.t3List
                             : got.fluxList;
      for (; l; l = l->next)
      {
        const char *a, *i, *c;
        int nw;
#define G(T) a = ((T *)l->data)->arrname, i = ((T *)l->data)->insname, c = ((T *)l->data)->corrname, nw = ((T *)l->data)->nwave
        if (type == 0) G(oi_vis);
        else if (type == 1) G(oi_vis2);
        else if (type == 2) G(oi_t3);
        else G(oi_flux);
#undef G
        oi_wavelength *w = oi_fits_lookup_wavelength(&got, i);
        MC_CHECK(w && !strcmp(w->insname, i), "INSNAME '%s' of the output does not resolve: %s", i, fs);
        MC_CHECK(w->nwave == nw, "table has %d channels, its wavelength table %d: %s", nw, w->nwave, fs);
        oi_array *A = oi_fits_lookup_array(&got, a);
        MC_CHECK(*a == 0 || (A != NULL) == (oi_fits_lookup_array(in, a) != NULL),
                 "ARRNAME '%s' of the output does not resolve: %s", a, fs);
        oi_corr *C = oi_fits_lookup_corr(&got, c);
        MC_CHECK(*c == 0 || (C != NULL) == (oi_fits_lookup_corr(in, c) != NULL),
                 "CORRNAME '%s' of the output does not resolve: %s", c, fs);
      }
    }
  }
  mc_outcome(ds_hash(&got, 0));
  free_oi_fits(&got);
  ds_free(want);
  if (before) ds_free(before);
}

void filter_judge(oi_fits *in, oi_filter_spec *f, int mode) { judge(in, f, mode); }

static void criteria(int mode)
{
  oi_filter_spec f;
  fs_gen(&f, FS_ALL);
  mc_mine();
  judge(base(), &f, mode);
}
static void c04_criteria(void) { criteria(0); }
static void c05_criteria(void) { criteria(1); }

static void edges(int mode)
{
  oi_filter_spec f;
  fd_edge(&f);
  judge(base(), &f, mode);
}
static void fine(int mode)
{
  oi_filter_spec f;
  oi_fits *oi = fd_fine(&f);
  judge(oi, &f, mode);
}
static void numbers(int mode)
{
  oi_filter_spec f;
  oi_fits *oi = fd_numbers(&f);
  judge(oi, &f, mode);
}
static void c04_numbers(void) { numbers(0); }
static void c05_numbers(void) { numbers(1); }
static void c04_fine(void) { fine(0); }
static void c05_fine(void) { fine(1); }
static void c04_edges(void) { edges(0); }
static void c05_edges(void) { edges(1); }

static void shape(int mode)
{
  oi_filter_spec f;
  oi_fits *oi = ds_gen(true);
  fs_gen(&f, FS_ALL);
  mc_mine();
  fd_scale(oi);
  judge(oi, &f, mode);
  ds_free(oi);
}
static void c04_shape(void) { shape(0); }
static void c05_shape(void) { shape(1); }

static void points(int mode)
{
  oi_filter_spec f;
  oi_fits *oi = fd_points(&f, 4, NULL);
  judge(oi, &f, mode);
  ds_free(oi);
}
static void c04_points(void) { points(0); }

/* T3 geometry: each of the three sides below, in and above the limits */
static void c04_triangle(void)
{
  oi_filter_spec f;
  oi_fits *oi = fd_triangle(&f);
  judge(oi, &f, 0);
  ds_free(oi);
}

/* C05: references: which data table refers to which support table */
static void c05_refs(void)
{
  /* names of one character, short ones, and ones of the greatest length that
   * differ in the last character only */
#define LONG66 "N.b-c_d e.f-g_h i.j-k_l m.n-o_p q.r-s_t u.v-w_x y.z-A_B C.D-E_F G-"
  static const char *const As[][3] = {{"A0", "A1", ""}, {"A", "B", ""}, {LONG66 "0", LONG66 "1", ""}},
                           *const Ns[][2] = {{"I0", "I1"}, {"I", "J"}, {LONG66 "0", LONG66 "1"}},
                           *const Cs[][3] = {{"C0", "C1", ""}, {"C", "D", ""}, {LONG66 "0", LONG66 "1", ""}};
  int names = mc_pick(3, "names");
  const char *const *A = As[names], *const *N = Ns[names], *const *C = Cs[names];
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, mc_pick(2, "category"));
  ds_array(oi, A[0], 2, 0), ds_array(oi, A[1], 3, 1);
  ds_wave(oi, N[0], 2, 0), ds_wave(oi, N[1], 3, 1);
  ds_corr(oi, C[0], 9, 2, 0), ds_corr(oi, C[1], 9, 2, 1);
  ds_inspol(oi, A[0], N[0], 1, 2, 0), ds_inspol(oi, A[1], N[1], 1, 3, 1);
  int type = mc_pick(4, "type"), type2 = mc_pick(4, "type2");
  for (int k = 0; k < 2; k++)
  {
    int a = mc_pick(3, "arr"), i = mc_pick(2, "ins"), c = mc_pick(3, "corr");
    switch (k ? type2 : type)
    {
    case 0: ds_vis(oi, A[a], N[i], C[c], 2, 2 + i, k)->record[1].target_id = 2; break;
    case 1: ds_vis2(oi, A[a], N[i], C[c], 2, 2 + i, k)->record[1].target_id = 2; break;
    case 2: ds_t3(oi, A[a], N[i], C[c], 2, 2 + i, k)->record[1].target_id = 2; break;
    default: ds_flux(oi, A[a], N[i], C[c], 2, 2 + i, k)->record[1].target_id = 2; break;
    }
  }
  int flt = mc_pick(8, "filter");
  mc_mine();
  fd_scale(oi);
  oi_filter_spec f;
  init_oi_filter(&f);
  if (flt == 1) SETS(f.arrname, A[0]);
  if (flt == 2) SETS(f.insname, N[1]);
  if (flt == 3) SETS(f.corrname, C[1]);
  if (flt == 4) f.target_id = 2;
  if (flt == 5) f.mjd_range[0] = 50000.75; /* drops the first records */
  if (flt == 6) f.accept_vis = f.accept_t3amp = f.accept_t3phi = 0;
  if (flt == 7) f.wave_range[1] = 1.13e-6f; /* keeps one channel of I0 */
  judge(oi, &f, 1);
  ds_free(oi);
}

/* dimension sweep: sizes around powers of two and tens */
static void c04_sweep(void)
{
  int dim = mc_pick(3, "dimension");
  int n = 1 + mc_pick(mc_thorough ? 300 : 70, "size");
  int flt = mc_pick(4, "filter");
  mc_mine();
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, false);
  ds_array(oi, "A", 3, 0);
  int nw = dim == 0 ? n : 2, nr = dim == 1 ? n : 2, nt = dim == 2 ? n : 1;
  oi_wavelength *w = ds_wave(oi, "I", nw, 0);
  for (int k = 0; k < nw; k++)
    w->eff_wave[k] = (1 + ((k * 7) % 5)) * 1e-6f;
  for (int t = 0; t < nt; t++)
  {
    oi_vis *v = ds_vis(oi, "A", "I", "", nr, nw, t);
    if (nw < 40) vis_refmap(v, 1);
    vis_complex(v, "Jy", 1);
    ds_vis2(oi, "A", "I", "", nr, nw, t);
    ds_t3(oi, "A", "I", "", nr, nw, t);
    ds_flux(oi, "A", "I", "", nr, nw, t);
    if (t == 0) ds_inspol(oi, "A", "I", nr, nw, t);
  }
  fd_scale(oi);
  oi_filter_spec f;
  init_oi_filter(&f);
  if (flt & 1) f.wave_range[1] = 3.5e-6f, f.mjd_range[1] = 50001.5;
  if (flt & 2) f.accept_flagged = 0, f.snr_range[0] = 2;
  judge(oi, &f, 1);
  ds_free(oi);
}

/* name patterns against names: all pairs over small alphabets */
static void c04_glob(void)
{
  /* patterns: all strings of length 0..4 over {A, B, *, ?} */
  int plen = mc_pick(mc_thorough ? 6 : 5, "pattern-length");
  char pat[8] = "";
  for (int i = 0; i < plen; i++)
    pat[i] = "AB*?"[mc_pick(4, "pattern-char")];
  pat[plen] = 0;
  int field = mc_pick(3, "field");
  mc_mine();
  static oi_fits *set[3];
  if (!set[field])
  {
    /* one table per name: all strings of length 1..3 over {A, B} */
    oi_fits *oi = set[field] = ds_new();
    ds_keep(oi);
    ds_targets(oi, 1, false);
    for (int l = 1; l <= 3; l++)
      for (int b = 0; b < 1 << l; b++)
      {
        char nm[4] = "";
        for (int i = 0; i < l; i++)
          nm[i] = b >> i & 1 ? 'B' : 'A';
        const char *a = field == 0 ? nm : "X", *s = field == 1 ? nm : "X",
                   *c = field == 2 ? nm : "X";
        if (field == 0 || (l == 1 && b == 0)) ds_array(oi, a, 2, l * 8 + b);
        if (field == 1 || (l == 1 && b == 0)) ds_wave(oi, s, 1, b);
        if (field == 2 || (l == 1 && b == 0)) ds_corr(oi, c, 3, 1, b);
        ds_vis2(oi, a, s, c, 1, 1, l * 8 + b);
      }
    fd_scale(oi);
  }
  oi_filter_spec f;
  init_oi_filter(&f);
  strcpy(field == 0 ? f.arrname : field == 1 ? f.insname : f.corrname, pat);
  judge(set[field], &f, 1);
}

/* ---------------------------------------------------------------- C06 */
static void run(const oi_fits *in, const oi_filter_spec *f, oi_fits *out)
{
  oi_filter_spec g = *f;
  mc_cap_begin();
  apply_oi_filter(in, &g, out);
  free(mc_cap_end());
}
/* Polarization records of instruments that have no data left may stay after
 * one filter and go after the next (the library documents this); they are not
 * part of the comparison. */
static oi_fits *norm(const oi_fits *o)
{
  oi_fits *c = ds_clone(o);
  GList *l = c->inspolList;
  while (l)
  {
    oi_inspol *p = l->data;
    GList *next = l->next;
    int nw = 0;
    long n = 0;
    for (long i = 0; i < p->numrec; i++)
    {
      oi_wavelength *w = NULL;
      for (GList *m = c->wavelengthList; m; m = m->next)
        if (!strcmp(((oi_wavelength *)m->data)->insname, p->record[i].insname))
          w = m->data;
      if (w)
      {
        if (w->nwave > nw) nw = w->nwave;
        p->record[n++] = p->record[i];
      }
      else
        free(p->record[i].jxx), free(p->record[i].jyy), free(p->record[i].jxy),
            free(p->record[i].jyx);
    }
    p->numrec = n;
    if (nw < p->nwave) p->nwave = nw;
    if (n == 0)
    {
      c->inspolList = g_list_delete_link(c->inspolList, l);
      c->numInspol--;
      fr_inspol(p);
    }
    l = next;
  }
  return c;
}
static void same(const oi_fits *a, const oi_fits *b, const char *ctx)
{
  oi_fits *x = norm(a), *y = norm(b);
  ds_expect(x, y, 0, ctx);
  ds_free(x), ds_free(y);
}
static void c06_idem(void)
{
  oi_filter_spec f, g;
  fs_gen(&f, FS_ALL);
  mc_mine();
  oi_fits a, b;
  char fs[600];
  fs_show(&f, fs, sizeof(fs));
  run(base(), &f, &a);
  g = f;
  if (g.target_id >= 0) g.target_id = 1; /* the selected target is now 1 */
  run(&a, &g, &b);
  same(&a, &b, fs);
  mc_outcome(ds_hash(&b, 0));
  free_oi_fits(&a);
  free_oi_fits(&b);
}
static void c06_commute(void)
{
  static const int crit = 9;
  int c1 = mc_pick(crit, "first"), c2 = mc_pick(crit, "second");
  if (c1 >= c2) mc_skip();
  oi_filter_spec f1, f2, f12;
  init_oi_filter(&f1), init_oi_filter(&f2);
  fs_one(&f1, c1);
  fs_one(&f2, c2);
  mc_mine();
  f12 = f1;
  switch (c2)
  {
  case 1: SETS(f12.insname, f2.insname); break;
  case 2: SETS(f12.corrname, f2.corrname); break;
  case 3: f12.target_id = f2.target_id; break;
  case 4: memcpy(f12.mjd_range, f2.mjd_range, sizeof(f2.mjd_range)); break;
  case 5: memcpy(f12.wave_range, f2.wave_range, sizeof(f2.wave_range)); break;
  case 6: memcpy(f12.bas_range, f2.bas_range, sizeof(f2.bas_range)); break;
  case 7: memcpy(f12.uvrad_range, f2.uvrad_range, sizeof(f2.uvrad_range)); break;
  case 8: memcpy(f12.snr_range, f2.snr_range, sizeof(f2.snr_range)); break;
  }
  char fs[600];
  fs_show(&f12, fs, sizeof(fs));
  oi_fits a, ab, b, ba, c;
  run(base(), &f1, &a);
  run(&a, &f2, &ab);
  run(base(), &f2, &b);
  run(&b, &f1, &ba);
  run(base(), &f12, &c);
  same(&ab, &ba, fs);
  same(&c, &ab, fs);
  mc_outcome(ds_hash(&c, 0));
  free_oi_fits(&a), free_oi_fits(&ab), free_oi_fits(&b), free_oi_fits(&ba), free_oi_fits(&c);
}
static void c06_identity(void)
{
  oi_fits *oi = ds_gen(false);
  mc_mine();
  fd_scale(oi);
  oi_filter_spec f;
  init_oi_filter(&f);
  oi_fits got, want;
  run(oi, &f, &got);
  /* compare with the input after removing what no data refer to */
  oi_fits *exp = oracle_filter(oi, &f);
  ds_expect(oi, &got, SER_ONLYDATA, "initial filter changed the data");
  ds_expect(exp, &got, 0, "initial filter");
  T_EXPECT(
#define TG(s, o, i, fl) ser_target(s, &(o)->targets, fl)
      TG, oi, &got, 0, "initial filter changed the targets");
#undef TG
  (void)want;
  mc_outcome(ds_hash(&got, 0));
  free_oi_fits(&got);
  ds_free(oi);
}
/* histories: one specification object applied to several datasets in turn,
 * and the command-line style global filter */
static void c06_reuse(void)
{
  oi_filter_spec f;
  fs_gen(&f, FS_ALL);
  int seq[3];
  for (int i = 0; i < 3; i++)
    seq[i] = mc_pick(3, "dataset");
  mc_mine();
  static oi_fits *d[3];
  if (!d[0])
  {
    d[0] = base();
    d[1] = ds_rich(), ds_keep(d[1]), fd_scale(d[1]);
    d[2] = ds_new(), ds_keep(d[2]);
  }
  oi_filter_spec used = f;
  for (int i = 0; i < 3; i++)
  {
    oi_fits a, b;
    mc_cap_begin();
    apply_oi_filter(d[seq[i]], &used, &a);
    free(mc_cap_end());
    run(d[seq[i]], &f, &b);
    ds_expect(&b, &a, 0, "reused specification");
    MC_CHECK(!memcmp(&used, &f, sizeof(f)), "specification changed by use");
    mc_outcome(ds_hash(&a, 0));
    free_oi_fits(&a), free_oi_fits(&b);
  }
}
/* C06 identity also for the initial state itself */
static void c06_everyday(void)
{
  oi_fits *oi = fd_everyday();
  oi_filter_spec f;
  init_oi_filter(&f);
  fd_keeps_all(oi, &f, "filter in its initial state");
}
static void c06_init(void)
{
  int junk = mc_pick(4, "previous-contents");
  mc_mine();
  oi_filter_spec f;
  memset(&f, junk == 0 ? 0 : junk == 1 ? 0xff : junk == 2 ? 0x5a : 0x41, sizeof(f));
  init_oi_filter(&f);
  oi_fits a;
  oi_filter_spec g = f;
  mc_cap_begin();
  apply_oi_filter(base(), &g, &a);
  free(mc_cap_end());
  oi_fits *w = oracle_filter(base(), &f);
  ds_expect(w, &a, 0, "initial filter");
  MC_CHECK(a.numVis == base()->numVis && a.numVis2 == base()->numVis2 && a.numT3 == base()->numT3 && a.numFlux == base()->numFlux,
           "initial filter dropped data tables");
  free_oi_fits(&a);
  mc_outcome(junk);
}

/* one dimension at a time over a long range; whole output */
static void size_filter(oi_fits *oi, oi_filter_spec *f, int flt, int n)
{
  int k = 0;
  fd_scale(oi);
  for (GList *l = oi->wavelengthList; l; l = l->next, k++)
    for (int i = 0; i < ((oi_wavelength *)l->data)->nwave; i++)
      ((oi_wavelength *)l->data)->eff_wave[i] = (1 + ((i * 7 + k) % 5)) * 1e-6f;
  init_oi_filter(f);
  switch (flt)
  {
  case 1: f->wave_range[1] = 3.5e-6f, f->mjd_range[1] = 50001.5; break;
  case 2: f->accept_flagged = 0, f->snr_range[0] = 2; break;
  case 3: f->target_id = (n + 1) / 2; break; /* in the middle */
  case 4: snprintf(f->arrname, sizeof(f->arrname), "*%d", (n - 1) % 10); break;
  case 5: snprintf(f->insname, sizeof(f->insname), "INS%d", n - 1); break;
  case 6: snprintf(f->corrname, sizeof(f->corrname), "COR?"); break;
  }
}
static void c05_sweep(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 120 : 16, mc_thorough ? 4096 : 513);
  int flt = mc_pick(7, "filter");
  mc_mine();
  oi_filter_spec f;
  oi_fits *oi = ds_sized(dim, n, 0, false);
  size_filter(oi, &f, flt, n);
  judge(oi, &f, 1);
}
static void c06_sweep(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 120 : 16, mc_thorough ? 4096 : 513);
  int f1 = mc_pick(7, "first"), f2 = mc_pick(7, "second");
  if (f1 >= f2 || (f1 == 0 && f2 != 1 + n % 6)) mc_skip();
  mc_mine();
  oi_filter_spec f, g;
  oi_fits *oi = ds_sized(dim, n, 0, false);
  size_filter(oi, &f, f1, n);
  size_filter(oi, &g, f2, n);
  f.accept_flagged = g.accept_flagged = 1; /* does not commute (see properties) */
  oi_fits a, aa, b, ab, ba;
  run(oi, &f, &a);
  oi_filter_spec f_ = f;
  if (f1 == 3) f_.target_id = 1;
  run(&a, &f_, &aa);
  same(&a, &aa, "filter applied twice");
  run(oi, &g, &b);
  run(&a, &g, &ab);
  run(&b, &f, &ba);
  same(&ab, &ba, "order of two filters");
  mc_outcome(ds_hash(&ab, 0));
  free_oi_fits(&a), free_oi_fits(&aa), free_oi_fits(&b), free_oi_fits(&ab), free_oi_fits(&ba);
}

const mc_scope scopes_filter[] = {
    {"C04", "numbers", c04_numbers, 1, 2, 0,
     "7 numberings of the targets (zero, negative, unordered) with each of 9 target selections and any one (thorough: two) other restrictions"},
    {"C04", "criteria", c04_criteria, 3, 4, 0,
     "all filter specifications within the deviation bound over a dataset with values below, at and above every limit"},
    {"C04", "points", c04_points, 0, 0, 0,
     "all combinations of point states (9 per channel, 3 channels) per data type and acceptance flags"},
    {"C04", "triangle", c04_triangle, 0, 0, 0,
     "all pairs of baseline vectors against baseline and UV-radius limits"},
    {"C04", "glob", c04_glob, 0, 0, 0,
     "all patterns up to length 4 (5) over {A,B,*,?} against all names up to length 3 over {A,B}, per name field"},
    {"C04", "sweep", c04_sweep, 0, 0, 0,
     "numbers of channels, records and tables swept contiguously"},
    {"C04", "shape", c04_shape, 2, 3, 0,
     "all pairs (triples) of deviations of dataset shape and filter specification"},
    {"C04", "fine", c04_fine, 0, 0, 0,
     "date, baseline and UV radius limits next to data that single precision does not hold, 1e-8 and 1e-11 to either side"},
    {"C05", "fine", c05_fine, 0, 0, 0,
     "date, baseline and UV radius limits next to data that single precision does not hold, 1e-8 and 1e-11 to either side"},
    {"C04", "edges", c04_edges, 0, 0, 0,
     "each limit, and both limits of a range, at every value that occurs in the data, one unit in the last place and small relative steps on either side"},
    {"C05", "edges", c05_edges, 0, 0, 0,
     "each limit, and both limits of a range, at every value that occurs in the data, one unit in the last place and small relative steps on either side"},
    {"C05", "numbers", c05_numbers, 1, 2, 0,
     "7 numberings of the targets (zero, negative, unordered) with each of 9 target selections and any one (thorough: two) other restrictions"},
    {"C05", "criteria", c05_criteria, 3, 4, 0,
     "all filter specifications within the deviation bound; whole output compared, closure and input checked"},
    {"C05", "refs", c05_refs, 0, 0, 0,
     "all reference patterns of two data tables to two tables of each support type, 8 filters; names of 1, 2 and 67 characters"},
    {"C05", "shape", c05_shape, 2, 3, 0,
     "all pairs (triples) of deviations of dataset shape and filter specification"},
    {"C06", "init", c06_init, 0, 0, 0, "initial state of a specification in memory with any previous contents"},
    {"C06", "everyday", c06_everyday, 0, 0, 0,
     "initial filter on all combinations of 3 wavelengths (0.1 to 99 um), 4 baselines (to 9.98 km), 5 dates (MJD 0 to 9.9e6), 5 amplitude and 4 phase SNRs (-4.9 to 9e9)"},
    {"C06", "idempotence", c06_idem, 3, 4, 0, "f(f(x)) = f(x) for all specifications within the bound"},
    {"C06", "commutation", c06_commute, 0, 0, 0,
     "f1(f2(x)) = f2(f1(x)) = f12(x) for all pairs of values of different criteria"},
    {"C06", "identity", c06_identity, 2, 3, 0, "initial filter on all dataset shapes within the bound"},
    {"C06", "reuse", c06_reuse, 2, 2, 0, "all sequences of 3 datasets filtered with one specification object"},
    {"C05", "sweep", c05_sweep, 0, 0, 0,
     "each of 18 dimensions over a contiguous range and boundary sizes, seven filters"},
    {"C06", "sweep", c06_sweep, 0, 0, 0,
     "each of 18 dimensions over a contiguous range and boundary sizes: filter applied twice, pairs of filters in both orders"},
    {0}};
