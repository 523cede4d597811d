/* C08, C09: merging */
#include "mrg.h"

static void judge(oi_fits **in, int n, int which)
{
  oi_fits *before[160];
  oi_fits out;
  if (which == 9)
    for (int i = 0; i < n; i++)
    {
      before[i] = ds_clone(in[i]);
      ds_keep(before[i]);
    }
  mg_run(in, n, &out);
  if (which == 8) merge_check_data(in, n, &out);
  else
  {
    merge_check_support(in, n, &out, true);
    for (int i = 0; i < n; i++)
    {
      ds_expect(before[i], in[i], SER_RAW, "merging changed an input");
      ds_free(before[i]);
    }
  }
  mc_outcome(ds_hash(&out, SER_NODATE));
  free_oi_fits(&out);
}
void merge_judge(oi_fits **in, int n, int which) { judge(in, n, which); }
static void inputs(int n, int which)
{
  oi_fits *in[4];
  mg_nan_key = true;
  for (int i = 0; i < n; i++)
    in[i] = mg_input(i);
  mg_nan_key = false;
  mc_mine();
  judge(in, n, which);
  for (int i = 0; i < n; i++)
    ds_free(in[i]);
}
static void c08_two(void) { inputs(2, 8); }
static void c08_three(void) { inputs(3, 8); }
static void c09_two(void) { inputs(2, 9); }
static void c09_three(void) { inputs(3, 9); }
static void c08_four(void) { inputs(4, 8); }
static void c09_four(void) { inputs(4, 9); }

/* names: tables whose names or contents coincide, over 4 inputs */
static void names(int which)
{
  static const char *const nm[3][4] = {{"N", "N_002", "N_003", "M"},
                                       {"N", "N_002", "N_003", "M"},
                                       {"N", "N_002", "N_003", "M"}};
  int kind = mc_pick(3, "kind");
  int n = 4;
  oi_fits *in[4];
  int name[4], cont[4];
  for (int i = 0; i < n; i++)
  {
    name[i] = mc_pick(mc_thorough ? 4 : 3, "name");
    cont[i] = mc_pick(kind == 2 ? 2 : 3, "content");
  }
  int two = mc_pick(2, "second-table");
  mc_mine();
  for (int i = 0; i < n; i++)
  {
    oi_fits *oi = in[i] = ds_new();
    ds_targets(oi, 1, false);
    const char *x = nm[kind][name[i]];
    ds_array(oi, kind == 0 ? x : "A", 2, kind == 0 ? cont[i] : 0);
    ds_wave(oi, kind == 1 ? x : "I", 2, kind == 1 ? cont[i] : 0);
    ds_corr(oi, kind == 2 ? x : "C", 9, 2, kind == 2 ? cont[i] : 0);
    if (two)
    {
      const char *y = nm[kind][(name[i] + 1) % 3];
      if (kind == 0) ds_array(oi, y, 2, cont[i] + 1);
      if (kind == 1) ds_wave(oi, y, 2, cont[i] + 1);
      if (kind == 2) ds_corr(oi, y, 9, 2, cont[i] + 1);
    }
    for (int t = 0; t < 1 + two; t++)
    {
      const char *y = t ? nm[kind][(name[i] + 1) % 3] : x;
      const char *a = kind == 0 ? y : "A", *s = kind == 1 ? y : "I", *c = kind == 2 ? y : "C";
      ds_vis(oi, a, s, c, 1, 2, i);
      ds_vis2(oi, a, s, c, 1, 2, i);
      ds_t3(oi, a, s, c, 1, 2, i);
      ds_flux(oi, a, s, c, 1, 2, i);
      ds_inspol(oi, a, s, 1, 2, i);
    }
  }
  judge(in, n, which);
  for (int i = 0; i < n; i++)
    ds_free(in[i]);
}
static void c08_names(void) { names(8); }
static void c09_names(void) { names(9); }

/* names of every length up to the longest, clashing */
static void longname(int which)
{
  int kind = mc_pick(3, "kind"), len = 1 + mc_pick(70, "length"), n = 2 + mc_pick(3, "inputs");
  mc_mine();
  char nm[80];
  memset(nm, 'x', sizeof(nm));
  nm[len] = 0;
  oi_fits *in[4];
  for (int i = 0; i < n; i++)
  {
    oi_fits *oi = in[i] = ds_new();
    ds_targets(oi, 1, false);
    ds_array(oi, kind == 0 ? nm : "A", 2, kind == 0 ? i : 0);
    ds_wave(oi, kind == 1 ? nm : "I", 2, kind == 1 ? i : 0);
    ds_corr(oi, kind == 2 ? nm : "C", 9, 2, i);
    const char *a = kind == 0 ? nm : "A", *s = kind == 1 ? nm : "I", *c = kind == 2 ? nm : "C";
    ds_vis2(oi, a, s, c, 1, 2, i);
    ds_inspol(oi, a, s, 1, 2, i);
  }
  judge(in, n, which);
  for (int i = 0; i < n; i++)
    ds_free(in[i]);
}
static void c08_long(void) { longname(8); }
static void c09_long(void) { longname(9); }

/* many inputs, many targets */
static void many(int which)
{
  int n = 2 + mc_pick(mc_thorough ? 140 : 40, "inputs"), mode = mc_pick(4, "mode");
  mc_mine();
  oi_fits *in[160];
  for (int i = 0; i < n; i++)
  {
    oi_fits *oi = in[i] = ds_new();
    ds_keep(oi);
    ds_targets(oi, mode == 1 ? n : 1 + i % 3, i % 2);
    for (int k = 0; k < oi->targets.ntarget; k++)
    {
      char b[32];
      snprintf(b, sizeof(b), "T%d", mode == 2 ? 100 * i + k : (i + k) % 50);
      SETS(oi->targets.targ[k].target, b);
      oi->targets.targ[k].target_id = oi->targets.ntarget - k;
    }
    ds_array(oi, "A", 2, mode == 3 ? 0 : i);
    ds_wave(oi, "I", 1, mode == 3 ? 0 : i);
    ds_corr(oi, "C", 5, 1, i);
    oi_vis2 *v = ds_vis2(oi, "A", "I", "C", 2, 1, i);
    v->record[1].target_id = oi->targets.ntarget;
    SETS(oi->header.date_obs, i == n / 2 ? "1999-12-31" : "2010-01-01");
  }
  judge(in, n, which);
  for (int i = 0; i < n; i++)
    ds_free(in[i]);
}
static void c08_many(void) { many(8); }
static void c09_many(void) { many(9); }

/* header keyword values over three inputs: all patterns */
static void c09_header(void)
{
  int fld = mc_pick(11, "keyword");
  int v[3];
  for (int i = 0; i < 3; i++)
    v[i] = mc_pick(5, "value");
  mc_mine();
  static const char *const val[] = {"", "X", "Y", "MULTIPLE", "UNKNOWN"};
  oi_fits *in[3];
  for (int i = 0; i < 3; i++)
  {
    oi_fits *oi = in[i] = ds_new();
    oi_header *h = &oi->header;
    char *f[] = {h->origin, h->telescop, h->instrume, h->observer, h->insmode, h->object,
                 h->referenc, h->author, h->prog_id, h->procsoft, h->obstech};
    strcpy(f[fld], val[v[i]]);
    ds_targets(oi, 1, false);
  }
  judge(in, 3, 9);
  for (int i = 0; i < 3; i++)
    ds_free(in[i]);
}
static void c09_date(void)
{
  static const char *const d[] = {"2004-05-06", "2004-05-05", "1901-01-01", "2099-12-31", "2004-05-06T01:02:03",
                                  "", "1900-12-31", "2100-01-01", "2004-04-30", "2003-12-31", "2004-12-01",
                                  "2000-02-29", "2000-03-01", "1858-11-17", "nonsense"};
  int a = mc_pick(15, "date1"), b = mc_pick(15, "date2"), c = mc_pick(15, "date3");
  mc_mine();
  oi_fits *in[3];
  int k[] = {a, b, c};
  for (int i = 0; i < 3; i++)
  {
    in[i] = ds_new();
    ds_targets(in[i], 1, false);
    SETS(in[i]->header.date_obs, d[k[i]]);
  }
  judge(in, 3, 9);
  for (int i = 0; i < 3; i++)
    ds_free(in[i]);
}
/* every single difference between two datasets (in thorough, every pair of
 * differences in the support tables), both orders; bases with ordinary values
 * and with values of zero or empty strings */
static bool is_name(const cell *c)
{
  const char *d = strchr(c->name, '.');
  d = d ? d + 1 : c->name;
  return !strcmp(d, "ARRNAME") || !strcmp(d, "INSNAME") || !strcmp(d, "CORRNAME");
}
static bool is_support(const cell *c)
{
  return !strncmp(c->name, "OI_ARRAY.", 9) || !strncmp(c->name, "OI_WAVELENGTH.", 14) || !strncmp(c->name, "OI_CORR.", 8);
}
static void make_null(oi_fits *oi)
{
  cell *c;
  int n = ds_cells(oi, &c);
  for (int i = 0; i < n; i++)
  {
    if (is_name(&c[i]) || strstr(c[i].name, "DATE-OBS") || !strcmp(c[i].name, "OI_TARGET.TARGET") ||
        !strncmp(c[i].name, "OI_WAVELENGTH.", 14))
      continue;
    if (c[i].kind == K_DBL || c[i].kind == K_KWD) *(double *)c[i].p = 0;
    if (c[i].kind == K_FLT) *(float *)c[i].p = 0;
    if (c[i].kind == K_STR) memset(c[i].p, 0, c[i].len);
  }
  free(c);
}
static void rename_refs(oi_fits *oi, const char *from, const char *to)
{
#define FOLLOW(list, type)                                                     \
  for (GList *l = oi->list; l; l = l->next)                                    \
  {                                                                            \
    type *t = l->data;                                                         \
    if (!strcmp(t->arrname, from)) SETS(t->arrname, to);                       \
    if (!strcmp(t->insname, from)) SETS(t->insname, to);                       \
    if (!strcmp(t->corrname, from)) SETS(t->corrname, to);                     \
  }
  FOLLOW(visList, oi_vis)
  FOLLOW(vis2List, oi_vis2)
  FOLLOW(t3List, oi_t3)
  FOLLOW(fluxList, oi_flux)
#undef FOLLOW
  for (GList *l = oi->inspolList; l; l = l->next)
  {
    oi_inspol *t = l->data;
    if (!strcmp(t->arrname, from)) SETS(t->arrname, to);
    for (long i = 0; i < t->numrec; i++)
      if (!strcmp(t->record[i].insname, from)) SETS(t->record[i].insname, to);
  }
}
static void flip(oi_fits *x, const cell *c)
{
  if (is_name(c))
  {
    if (!is_support(c)) return; /* would not resolve */
    char old[80];
    SETS(old, c->p);
    cell_flip(c);
    rename_refs(x, old, c->p);
  }
  else
    cell_flip(c);
}
static void cells(bool support)
{
  static oi_fits *base[2];
  static int n, supp[4000], nsupp;
  if (!base[0])
  {
    for (int b = 0; b < 2; b++)
    {
      base[b] = ds_rich();
      if (b) make_null(base[b]);
      ds_keep(base[b]);
    }
    cell *c;
    n = ds_cells(base[0], &c);
    for (int i = 0; i < n; i++)
      if (is_support(&c[i])) supp[nsupp++] = i;
    free(c);
  }
  int b = mc_pick(2, "base"), ord = mc_pick(2, "order"), i, j = -1;
  if (support && mc_pick(2, "pair"))
  {
    i = mc_pick(nsupp, "cell");
    j = mc_pick(nsupp, "second-cell");
    /* quick: pairs within one row */
    if (j >= i || (!mc_thorough && i - j > 9)) mc_skip();
    i = supp[i], j = supp[j];
  }
  else
    i = mc_pick(n, "cell");
  mc_mine();
  oi_fits *x = ds_clone(base[b]);
  cell *c;
  int n1 = ds_cells(x, &c);
  MC_CHECK(n1 == n, "cells");
  flip(x, &c[i]);
  if (j >= 0) flip(x, &c[j]);
  free(c);
  oi_fits *in[2] = {ord ? x : base[b], ord ? base[b] : x};
  oi_fits out;
  mg_run(in, 2, &out);
  merge_check_data(in, 2, &out);
  if (support) merge_check_support(in, 2, &out, false);
  mc_outcome(ds_hash(&out, SER_NODATE));
  free_oi_fits(&out);
  ds_free(x);
}
static void c08_cells(void) { cells(false); }
static void c09_cells(void) { cells(true); }

/* one dimension at a time over a long range, with a small or an equally large
 * partner of the same or of other names and contents */
static void sweep(int which)
{
  int dim = mc_pick(SZ_REFMAP, "dimension");
  int n = sz_pick(dim, mc_thorough ? 120 : 16, mc_thorough ? 4096 : 300);
  int partner = mc_pick(5, "partner"), ord = mc_pick(2, "order");
  /* the comparison of two sets is quadratic */
  if (partner >= 2 && n > 600) mc_skip();
  mc_mine();
  oi_fits *x = ds_sized(dim, n, 0, false), *y = NULL;
  switch (partner)
  {
  case 0: y = ds_sized(dim, 2, 0, false); break;  /* small, same contents */
  case 1: y = ds_sized(dim, 1, 50, false); break; /* small, same names, other contents */
  case 2: y = ds_sized(dim, n, 0, false); break;  /* large, the same */
  case 3: y = ds_sized(dim, n, 500, false); break;/* large, all names clash */
  case 4:                                         /* large, targets in reverse and renamed in part */
    y = ds_sized(dim, n, 500, false);
    for (int i = 0; i < y->targets.ntarget; i++)
    {
      y->targets.targ[i].target_id = y->targets.ntarget - i;
      if (i % 2) snprintf(y->targets.targ[i].target, sizeof(y->targets.targ[i].target), "OTHER%d", i);
    }
    break;
  }
  oi_fits *in[2] = {ord ? y : x, ord ? x : y};
  judge(in, 2, which);
}
static void c08_sweep(void) { sweep(8); }
static void c09_sweep(void) { sweep(9); }

/* every combination of the optional features of one table, and every small
 * dataset shape, merged with another dataset */
static void with_partner(oi_fits *x, int partner, int ord, int which)
{
  oi_fits *y;
  if (partner == 0) y = ds_clone(x);
  else if (partner == 1)
  { /* the same names, other contents */
    y = ds_clone(x);
    for (GList *l = y->arrayList; l; l = l->next)
      ((oi_array *)l->data)->arrayy += 8;
    for (GList *l = y->wavelengthList; l; l = l->next)
      ((oi_wavelength *)l->data)->eff_wave[0] *= 2;
    for (GList *l = y->corrList; l; l = l->next)
      ((oi_corr *)l->data)->ndata += 1;
    for (int i = 0; i < y->targets.ntarget; i++)
      y->targets.targ[i].target_id += 5;
#define T(list, type)                                                          \
  for (GList *l = y->list; l; l = l->next)                                     \
    for (long i = 0; i < ((type *)l->data)->numrec; i++)                       \
      ((type *)l->data)->record[i].target_id += 5;
    T(inspolList, oi_inspol)
    T(visList, oi_vis)
    T(vis2List, oi_vis2)
    T(t3List, oi_t3)
    T(fluxList, oi_flux)
#undef T
  }
  else
    y = ds_small();
  oi_fits *in[2] = {ord ? y : x, ord ? x : y};
  judge(in, 2, which);
}
static void options(int which)
{
  int partner = mc_pick(3, "partner"), ord = mc_pick(2, "order");
  oi_fits *x = ds_options(); /* contains the partition point */
  with_partner(x, partner, ord, which);
}
static void c08_options(void) { options(8); }
static void c09_options(void) { options(9); }
static void shapes(int which)
{
  int partner = mc_pick(3, "partner"), ord = mc_pick(2, "order");
  oi_fits *x = ds_gen(true);
  mc_mine();
  with_partner(x, partner, ord, which);
}
static void c08_shapes(void) { shapes(8); }
static void c09_shapes(void) { shapes(9); }

/* tables bearing the names that merging invents: the names are learnt from a
 * first merge, then given to a further table of one input, or the output of
 * the first merge is itself merged again */
static oi_fits *named_input(int kind, const char *nm, const char *more, int i)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  for (int t = 0; t < 1 + !!more; t++)
  {
    const char *x = t ? more : nm;
    int k = t ? i + 10 : i;
    if (kind == 0 || !t) ds_array(oi, kind == 0 ? x : "A", 2, kind == 0 ? k : 0);
    if (kind == 1 || !t) ds_wave(oi, kind == 1 ? x : "I", 2, kind == 1 ? k : 0);
    if (kind == 2 || !t) ds_corr(oi, kind == 2 ? x : "C", 9, 2, k);
    const char *a = kind == 0 ? x : "A", *s = kind == 1 ? x : "I", *c = kind == 2 ? x : "C";
    ds_vis2(oi, a, s, c, 1, 2, k);
    ds_t3(oi, a, s, c, 1, 2, k);
    ds_inspol(oi, a, s, 1, 2, k);
  }
  return oi;
}
static void genname(int which)
{
  static const int len[] = {1, 3, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 70};
  int kind = mc_pick(3, "kind"), L = len[mc_pick(15, "length")];
  int n = 2 + mc_pick(3, "inputs");
  int how = mc_pick(3, "how"); /* table of that name, second long name, merge again */
  int where = mc_pick(n, "input"), k = mc_pick(how == 0 ? n - 1 : 1, "generated");
  mc_mine();
  char nm[80], nm2[80], gen[8][80];
  int ng = 0;
  memset(nm, 'x', sizeof(nm));
  nm[L] = 0;
  strcpy(nm2, nm);
  nm2[L - 1] = 'y';
  oi_fits *in[4], out;
  for (int i = 0; i < n; i++)
    in[i] = named_input(kind, nm, NULL, i);
  mg_run(in, n, &out);
  GList *l = kind == 0 ? out.arrayList : kind == 1 ? out.wavelengthList : out.corrList;
  for (; l; l = l->next)
  {
    const char *x = kind == 0   ? ((oi_array *)l->data)->arrname
                    : kind == 1 ? ((oi_wavelength *)l->data)->insname
                                : ((oi_corr *)l->data)->corrname;
    if (strcmp(x, nm) && ng < 8) snprintf(gen[ng++], 80, "%s", x);
  }
  if (how == 2)
  {
    oi_fits *again[2] = {&out, in[where]};
    oi_fits *x = named_input(kind, nm, NULL, 20);
    judge(again, 2, which);
    again[1] = x;
    judge(again, 2, which);
    again[0] = x, again[1] = &out;
    judge(again, 2, which);
    ds_free(x);
  }
  else if (how == 1 || k < ng)
  {
    ds_free(in[where]);
    in[where] = named_input(kind, nm, how == 1 ? nm2 : gen[k], where);
    judge(in, n, which);
    if (how == 1 && n > 2)
    {
      int w = (where + 1) % n;
      ds_free(in[w]);
      in[w] = named_input(kind, nm, nm2, w);
      judge(in, n, which);
    }
  }
  free_oi_fits(&out);
  for (int i = 0; i < n; i++)
    ds_free(in[i]);
}
static void c08_gen(void) { genname(8); }
static void c09_gen(void) { genname(9); }

/* pairs of arrays and of wavelength tables of 1..3 rows, of either version,
 * that differ in one value of one row */
static void pairs_of(int which)
{
  int wave = mc_pick(2, "wave"), na = 1 + mc_pick(3, "rows"), nb = 1 + mc_pick(3, "rows-b");
  int v = wave ? 0 : mc_pick(4, "versions"), samename = mc_pick(2, "same-name");
  int row = mc_pick(nb, "row"), what = mc_pick(wave ? 6 : 12, "difference");
  int rev = mc_pick(2, "reversed");
  mc_mine();
  oi_fits *in[2];
  for (int i = 0; i < 2; i++)
  {
    oi_fits *oi = in[i] = ds_new();
    ds_targets(oi, 1, false);
    int n = i ? nb : na;
    const char *nm = i && !samename ? "Y" : "X";
    oi_array *a = ds_array(oi, wave ? "A" : nm, wave ? 2 : n, 0);
    oi_wavelength *w = ds_wave(oi, wave ? nm : "I", wave ? n : 2, 0);
    ds_vis2(oi, a->arrname, w->insname, "", 2, w->nwave, i);
    ds_t3(oi, a->arrname, w->insname, "", 1, w->nwave, i);
    if ((v >> i) & 1) ds_downgrade(oi);
    for (int k = 0; k < a->nelement; k++)
    { /* present whatever the version */
      a->elem[k].fov = 1;
      SETS(a->elem[k].fovtype, (v >> i) & 1 ? "" : "RADIUS");
    }
    if (i && !wave)
    {
      element *e = &a->elem[row];
      if (what == 1) e->fov += 1;
      if (what == 2) SETS(e->fovtype, "FWHM");
      if (what == 3) e->diameter += 1;
      if (what >= 4 && what < 7) e->staxyz[what - 4] += 1;
      if (what == 7) e->sta_index = 999;
      if (what == 8) a->arrayx += 1;
      if (what == 9) a->arrayy += 1;
      if (what == 10) a->arrayz += 1;
      if (what == 11) e->fov = 0, SETS(e->fovtype, "");
    }
    if (i && wave)
    {
      if (what == 1) w->eff_wave[row] *= 1.5f;
      if (what == 2) w->eff_band[row] *= 1.5f;
      if (what == 3) w->eff_wave[row] = 0;
      if (what == 4) w->eff_band[row] = 0;
      if (what == 5 && row)
      {
        float x = w->eff_wave[row];
        w->eff_wave[row] = w->eff_wave[0], w->eff_wave[0] = x;
      }
    }
  }
  if (rev)
  {
    oi_fits *x = in[0];
    in[0] = in[1], in[1] = x;
  }
  judge(in, 2, which);
  ds_free(in[0]);
  ds_free(in[1]);
}
static void c08_pairs(void) { pairs_of(8); }
static void c09_pairs(void) { pairs_of(9); }

const mc_scope scopes_merge[] = {
    {"C08", "two", c08_two, 2, 3, 0, "all pairs of inputs within the joint deviation bound"},
    {"C08", "three", c08_three, 2, 2, 0, "all triples of inputs within the joint deviation bound"},
    {"C08", "four", c08_four, 1, 2, 0, "all quadruples of inputs within the joint deviation bound"},
    {"C08", "names", c08_names, 0, 0, 0, "all name/content coincidences of support tables over four inputs"},
    {"C08", "longnames", c08_long, 0, 0, 0, "clashing names of every length up to 70"},
    {"C08", "many", c08_many, 0, 0, 0, "2..41 (141) inputs"},
    {"C08", "cells", c08_cells, 0, 0, 0, "two inputs that differ in one cell, every cell, both orders, bases with ordinary and with zero/empty values"},
    {"C09", "two", c09_two, 2, 3, 0, "all pairs of inputs within the joint deviation bound"},
    {"C09", "three", c09_three, 2, 2, 0, "all triples of inputs within the joint deviation bound"},
    {"C09", "four", c09_four, 1, 2, 0, "all quadruples of inputs within the joint deviation bound"},
    {"C09", "names", c09_names, 0, 0, 0, "all name/content coincidences of support tables over four inputs"},
    {"C09", "longnames", c09_long, 0, 0, 0, "clashing names of every length up to 70"},
    {"C09", "many", c09_many, 0, 0, 0, "2..41 (141) inputs"},
    {"C09", "header", c09_header, 0, 0, 0, "all patterns of 5 values over three inputs per keyword"},
    {"C09", "dates", c09_date, 0, 0, 0, "all triples of 15 DATE-OBS values"},
    {"C09", "cells", c09_cells, 0, 0, 0, "two inputs that differ in one cell, every cell, and in two cells of support tables (quick: cells near one another), both orders, bases with ordinary and with zero/empty values"},
    {"C08", "sweep", c08_sweep, 0, 0, 0,
     "each of 17 dimensions over a contiguous range and boundary sizes, five kinds of partner, both orders"},
    {"C09", "sweep", c09_sweep, 0, 0, 0,
     "each of 17 dimensions over a contiguous range and boundary sizes, five kinds of partner, both orders"},
    {"C08", "options", c08_options, 0, 0, 0,
     "every combination of the optional features of one table, merged with a copy, with other tables of the same names and with another dataset, both orders"},
    {"C09", "options", c09_options, 0, 0, 0,
     "every combination of the optional features of one table, merged with a copy, with other tables of the same names and with another dataset, both orders"},
    {"C08", "shapes", c08_shapes, 2, 2, 0,
     "dataset shapes within the deviation bound, merged with a copy, with other tables of the same names and with another dataset, both orders"},
    {"C09", "shapes", c09_shapes, 2, 2, 0,
     "dataset shapes within the deviation bound, merged with a copy, with other tables of the same names and with another dataset, both orders"},
    {"C08", "generated", c08_gen, 0, 0, 0,
     "tables that bear the names an earlier merge invented, second long names, and the merged dataset merged again, for names of 15 lengths"},
    {"C08", "pairs", c08_pairs, 0, 0, 0,
     "pairs of arrays and of wavelength tables of 1..3 rows, either version, that differ in one value of any row"},
    {"C09", "generated", c09_gen, 0, 0, 0,
     "tables that bear the names an earlier merge invented, second long names, and the merged dataset merged again, for names of 15 lengths"},
    {"C09", "pairs", c09_pairs, 0, 0, 0,
     "pairs of arrays and of wavelength tables of 1..3 rows, either version, that differ in one value of any row"},
    {0}};
