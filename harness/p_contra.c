/* C22: datasets whose tables contradict one another */
#include "chk.h"
#include "filt.h"
#include "mrg.h"
#include <unistd.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);

enum { NTYPE = 5 }; /* VIS VIS2 T3 FLUX INSPOL */

/* the specifications used: which of three channels are wanted, and more */
#define NSPEC 12
static void spec(oi_filter_spec *f, int k)
{
  init_oi_filter(f);
  static const float lim[6][2] = {{1, 1}, {2, 2}, {3, 3}, {1, 2}, {2, 3}, {9, 9}};
  if (k < 6)
    f->wave_range[0] = lim[k][0] * 1e-6f * 0.9f,
    f->wave_range[1] = lim[k][1] * 1e-6f * 1.1f;
  else if (k == 7) f->accept_flagged = 0;
  else if (k == 8) f->target_id = 2;
  else if (k == 9) f->uvrad_range[1] = 4e7;
  else if (k == 10) f->snr_range[0] = 4;
  else if (k == 11) SETS(f->insname, "INS*"), SETS(f->arrname, "ARR?");
}

/* records with ordinary values; channel k of any table at (k+1) um */
static void tame(oi_fits *oi)
{
  for (GList *l = oi->wavelengthList; l; l = l->next)
  {
    oi_wavelength *w = l->data;
    for (int k = 0; k < w->nwave; k++)
      w->eff_wave[k] = (k + 1) * 1e-6f, w->eff_band[k] = 1e-7f;
  }
#define RECS(list, T, ...)                                                     \
  for (GList *l = oi->list; l; l = l->next)                                    \
  {                                                                            \
    T *t = l->data;                                                            \
    for (long i = 0; i < t->numrec; i++)                                       \
    {                                                                          \
      T##_record *r = &t->record[i];                                           \
      __VA_ARGS__ \
    }                                                                          \
  }
#define CHANS                                                                  \
  r->mjd = 50000 + i;                                                          \
  for (int k = 0; k < t->nwave; k++)
  RECS(visList, oi_vis, r->ucoord = 30, r->vcoord = 40;
       CHANS { r->visamp[k] = 1 + k; r->visamperr[k] = .25; r->visphierr[k] = 5;
               r->flag[k] = k == 1; })
  RECS(vis2List, oi_vis2, r->ucoord = 30, r->vcoord = 40;
       CHANS { r->vis2data[k] = 1 + k; r->vis2err[k] = .25; r->flag[k] = k == 1; })
  RECS(t3List, oi_t3, r->u1coord = 30, r->v1coord = 40, r->u2coord = 3,
       r->v2coord = -4;
       CHANS { r->t3amp[k] = 1 + k; r->t3amperr[k] = .25; r->t3phierr[k] = 5;
               r->flag[k] = k == 1; })
  RECS(fluxList, oi_flux,
       CHANS { r->fluxdata[k] = 1 + k; r->fluxerr[k] = .25; r->flag[k] = k == 1; })
  RECS(inspolList, oi_inspol, r->mjd_obs = 50000, r->mjd_end = 50001; (void)t;)
}

typedef struct
{
  int type, nwave, nrec;
  const char *arr, *ins, *cor;
  int target, sta;
  bool first;   /* before its sibling */
  bool options; /* complex data and VISREFMAP */
} odd;

#define RENAME(list)                                                           \
  if (o->first)                                                                \
  {                                                                            \
    GList *e = g_list_last(oi->list);                                          \
    oi->list = g_list_remove_link(oi->list, e);                                \
    oi->list = g_list_concat(e, oi->list);                                     \
  }

static void add_odd(oi_fits *oi, const odd *o)
{
  char *date = NULL;
  switch (o->type)
  {
  case 0:
  {
    oi_vis *t = ds_vis(oi, o->arr, o->ins, o->cor, o->nrec, o->nwave, 21);
    if (o->options) vis_complex(t, "Jy", 3), vis_refmap(t, 3);
    for (int i = 0; i < o->nrec; i++)
      t->record[i].target_id = o->target, t->record[i].sta_index[1] = o->sta;
    date = t->date_obs;
    RENAME(visList)
    break;
  }
  case 1:
  {
    oi_vis2 *t = ds_vis2(oi, o->arr, o->ins, o->cor, o->nrec, o->nwave, 21);
    for (int i = 0; i < o->nrec; i++)
      t->record[i].target_id = o->target, t->record[i].sta_index[1] = o->sta;
    date = t->date_obs;
    RENAME(vis2List)
    break;
  }
  case 2:
  {
    oi_t3 *t = ds_t3(oi, o->arr, o->ins, o->cor, o->nrec, o->nwave, 21);
    for (int i = 0; i < o->nrec; i++)
      t->record[i].target_id = o->target, t->record[i].sta_index[2] = o->sta;
    date = t->date_obs;
    RENAME(t3List)
    break;
  }
  case 3:
  {
    oi_flux *t = ds_flux(oi, o->arr, o->ins, o->cor, o->nrec, o->nwave, 21);
    for (int i = 0; i < o->nrec; i++)
      t->record[i].target_id = o->target, t->record[i].sta_index = o->sta;
    date = t->date_obs;
    RENAME(fluxList)
    break;
  }
  default:
  {
    oi_inspol *t = ds_inspol(oi, o->arr, o->ins, o->nrec, o->nwave, 21);
    for (int i = 0; i < o->nrec; i++)
      t->record[i].target_id = o->target, t->record[i].sta_index = o->sta;
    date = t->date_obs;
    RENAME(inspolList)
  }
  }
  setstr(date, FLEN_VALUE, "1999-09-09");
}

static bool is_odd(const char *date) { return !strcmp(date, "1999-09-09"); }

/* one consistent table of each type; spare: unrelated support tables that the
 * odd table may share with nobody */
static oi_fits *base(int dup)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, true);
  ds_array(oi, "ARR0", 3, 0);
  ds_wave(oi, "INS0", 3, 0);
  ds_corr(oi, "COR0", 40, 3, 0);
  if (dup & 4)
    ds_array(oi, "EMPTY", 0, 6), ds_wave(oi, "EMPTY", 0, 6), ds_corr(oi, "EMPTY", 0, 0, 6);
  dup &= 3;
  if (dup)
  {
    /* two of each with the same name */
    ds_array(oi, "TWICE", 2, 4), ds_array(oi, "TWICE", 3, 5);
    ds_wave(oi, "TWICE", dup == 1 ? 2 : 4, 4);
    ds_wave(oi, "TWICE", dup == 1 ? 4 : 2, 5);
    ds_corr(oi, "TWICE", 9, 1, 4), ds_corr(oi, "TWICE", 9, 2, 5);
  }
  ds_inspol(oi, "ARR0", "INS0", 2, 3, 0);
  oi_vis *v = ds_vis(oi, "ARR0", "INS0", "COR0", 2, 3, 1);
  vis_refmap(v, 1);
  vis_complex(v, "Jy", 1);
  ds_vis2(oi, "ARR0", "INS0", "COR0", 2, 3, 3);
  ds_t3(oi, "ARR0", "INS0", "COR0", 2, 3, 5);
  ds_flux(oi, "ARR0", "INS0", "COR0", 2, 3, 7);
  return oi;
}

/* removes the odd table from a dataset of the harness */
#define DROP(list, num, T, fr)                                                 \
  for (GList *l = oi->list, *n; l; l = n)                                      \
  {                                                                            \
    n = l->next;                                                               \
    T *t = l->data;                                                            \
    if (is_odd(t->date_obs))                                                   \
    {                                                                          \
      oi->list = g_list_delete_link(oi->list, l);                              \
      oi->num--;                                                               \
      fr(t);                                                                   \
      found++;                                                                 \
    }                                                                          \
  }
static int drop_odd(oi_fits *oi)
{
  int found = 0;
  DROP(visList, numVis, oi_vis, fr_vis)
  DROP(vis2List, numVis2, oi_vis2, fr_vis2)
  DROP(t3List, numT3, oi_t3, fr_t3)
  DROP(fluxList, numFlux, oi_flux, fr_flux)
  DROP(inspolList, numInspol, oi_inspol, fr_inspol)
  return found;
}

/* ---- filters ---- */
static void try_filter(const oi_fits *d, const oi_fits *b, int k, int no, bool exact)
{
  oi_filter_spec f;
  spec(&f, k);
  oi_fits out;
  mc_cap_begin();
  apply_oi_filter(d, &f, &out);
  free(mc_cap_end());
  ds_container(&out, "filtered");
  oi_fits *wb = oracle_filter(b, &f), *wd = NULL;
  char why[1000] = "", ctx[80];
  snprintf(ctx, sizeof(ctx), "filter %d", k);
  if (exact)
  {
    /* as without the odd table, or with those of its channels that have a
     * wavelength */
    wd = oracle_filter(d, &f);
    if (!ds_equal(wb, &out, 0, why, sizeof(why))) ds_expect(wd, &out, 0, ctx);
  }
  else
  {
    oi_fits *got = ds_clone(&out);
    int n = drop_odd(got);
    MC_CHECK(n <= no, "%s: odd table returned %d times", ctx, n);
    /* support tables: those of the expected result are there, as they were */
    GList *l, *m;
#define THERE(list, T, name, ser, what)                                        \
  for (l = wb->list; l; l = l->next)                                           \
  {                                                                            \
    T *t = l->data;                                                            \
    for (m = got->list; m; m = m->next)                                        \
      if (!strcmp(((T *)m->data)->name, t->name)) break;                       \
    MC_CHECK(m, "%s: %s %s is gone", ctx, what, t->name);                      \
    T_EXPECT(ser, t, (T *)m->data, 0, what);                                   \
  }
    THERE(arrayList, oi_array, arrname, ser_array, "array")
    THERE(wavelengthList, oi_wavelength, insname, ser_wave, "wavelengths")
    THERE(corrList, oi_corr, corrname, ser_corr, "correlations")
    ds_expect(wb, got, SER_ONLYDATA, ctx);
    MC_CHECK(g_list_length(wb->inspolList) == g_list_length(got->inspolList),
             "%s: number of polarization tables", ctx);
    for (l = wb->inspolList, m = got->inspolList; l; l = l->next, m = m->next)
      T_EXPECT(ser_inspol, l->data, m->data, 0, "polarization table");
    ds_free(got);
  }
  mc_outcome(ds_hash(&out, 0));
  free_oi_fits(&out);
}

/* ---- iterators: points of the consistent tables as without the odd one ---- */
static const oi_wavelength *only(const oi_fits *d, const char *ins);
static void try_iter(const oi_fits *d, const oi_fits *b, int k, int type)
{
  oi_filter_spec f;
  spec(&f, k);
  pt *want;
  int nw = oracle_points(b, &f, type, &want), got = 0;
  oi_vis_iter i0;
  oi_vis2_iter i1;
  oi_t3_iter i2;
  if (type == 0) oi_vis_iter_init(&i0, d, &f);
  else if (type == 1) oi_vis2_iter_init(&i1, d, &f);
  else oi_t3_iter_init(&i2, d, &f);
  long calls = 0;
  for (;;)
  {
    int ver, iw;
    long ir;
    double x[5] = {0};
    bool ok;
    MC_CHECK(++calls < 1000, "iterator does not end");
    mc_cap_begin();
    if (type == 0)
    {
      ok = oi_vis_iter_next(&i0, &ver, NULL, &ir, NULL, &iw);
      if (ok) oi_vis_iter_get_uv(&i0, &x[0], &x[1], &x[2]);
    }
    else if (type == 1)
    {
      ok = oi_vis2_iter_next(&i1, &ver, NULL, &ir, NULL, &iw);
      if (ok) oi_vis2_iter_get_uv(&i1, &x[0], &x[1], &x[2]);
    }
    else
    {
      ok = oi_t3_iter_next(&i2, &ver, NULL, &ir, NULL, &iw);
      if (ok) oi_t3_iter_get_uv(&i2, &x[0], &x[1], &x[2], &x[3], &x[4]);
    }
    free(mc_cap_end());
    if (!ok) break;
    int n = 0, before = 0, place = 0;
    bool found = false;
    const oi_wavelength *w = NULL;
    for (GList *l = type == 0 ? d->visList : type == 1 ? d->vis2List : d->t3List;
         l; l = l->next)
    {
      oi_vis *t0 = l->data;
      oi_vis2 *t1 = l->data;
      oi_t3 *t2 = l->data;
      const char *date = type == 0 ? t0->date_obs : type == 1 ? t1->date_obs : t2->date_obs;
      if (++place > ver) break;
      if (!is_odd(date)) continue;
      if (place < ver) before++;
      else
      {
        found = true;
        n = type == 0 ? t0->nwave : type == 1 ? t1->nwave : t2->nwave;
        w = only(d, type == 0 ? t0->insname : type == 1 ? t1->insname : t2->insname);
      }
    }
    if (found)
    {
      MC_CHECK(iw >= 0 && iw < n && (!w || iw < w->nwave) && ir >= 0 && ir < 2,
               "iterator returned record %ld channel %d of a table with %d "
               "channels, %d wavelengths",
               ir, iw, n, w ? w->nwave : -1);
      if (w)
        MC_CHECK(fabs(x[0] - w->eff_wave[iw]) < 1e-12, "wavelength %g for %g",
                 x[0], (double)w->eff_wave[iw]);
      continue;
    }
    int v = ver - before;
    MC_CHECK(got < nw && want[got].extver == v && want[got].irec == ir &&
                 want[got].iwave == iw,
             "iterator over type %d, filter %d: point %d is table %d record "
             "%ld channel %d", type, k, got, ver, ir, iw);
    got++;
  }
  MC_CHECK(got == nw, "iterator over type %d, filter %d: %d points, expected %d",
           type, k, got, nw);
  free(want);
}

/* ---- everything else ---- */
static const oi_wavelength *only(const oi_fits *d, const char *ins)
{
  const oi_wavelength *w = NULL;
  for (GList *l = d->wavelengthList; l; l = l->next)
    if (!strcmp(((oi_wavelength *)l->data)->insname, ins))
    {
      if (w) return NULL;
      w = l->data;
    }
  return w;
}

static void operate(oi_fits *d, const oi_fits *b, const odd *o, int no, bool exact)
{
  uint64_t h0 = ds_hash(d, SER_RAW);
  for (int k = 0; k < NSPEC; k++)
  {
    try_filter(d, b, k, no, exact);
    for (int t = 0; t < 3; t++)
      try_iter(d, b, k, t);
    mc_evals(4);
  }
  MC_CHECK(ds_hash(d, SER_RAW) == h0, "input changed by filter or iterator");
  mc_cap_begin();
  chk_run(d);
  long n[3], m[3];
  count_oi_fits_data(d, &n[0], &n[1], &n[2]);
  count_oi_fits_data(b, &m[0], &m[1], &m[2]);
  is_atomic(d, 1);
  const char *txt = format_oi_fits_summary(d);
  MC_CHECK(txt && *txt, "no summary");
  free(mc_cap_end());
  for (int t = 0; t < 3; t++)
  {
    long add = 0;
    for (int i = 0; i < no; i++)
      if (o[i].type == t)
        for (int k = 0; k < o[i].nwave; k++)
          if (k != 1) add += o[i].nrec;
    MC_CHECK(n[t] == m[t] + add, "%ld data of type %d counted, expected %ld",
             n[t], t, m[t] + add);
  }
  MC_CHECK(ds_hash(d, SER_RAW) == h0, "input changed by checks or summary");
  /* merged: with itself and with another, both orders */
  oi_fits *other = ds_small();
  for (int k = 0; k < 3; k++)
  {
    oi_fits out, *in[2] = {k == 1 ? other : d, k == 2 ? other : d};
    mc_cap_begin();
    merge_oi_fits_list(
        &(GList){in[0], &(GList){in[1], NULL, NULL}, NULL}, &out);
    free(mc_cap_end());
    ds_container(&out, "merged");
    if (exact) merge_check_data(in, 2, &out);
    else
    {
      /* where the odd table leads is not settled: what the others give */
      oi_fits *c[2] = {ds_clone(in[0]), ds_clone(in[1])}, *got = ds_clone(&out);
      int had = drop_odd(c[0]) + drop_odd(c[1]), has = drop_odd(got);
      MC_CHECK(has == had, "%d of %d odd tables merged", has, had);
      merge_check_data(c, 2, got);
      ds_free(c[0]), ds_free(c[1]), ds_free(got);
    }
    free_oi_fits(&out);
  }
  MC_CHECK(ds_hash(d, SER_RAW) == h0, "input changed by merging");
  /* written and read back */
  const char *fn = mc_path("x.fits");
  int st = 0;
  oi_fits back;
  unlink(fn);
  mc_cap_begin();
  write_oi_fits(fn, *d, &st);
  if (st && ((!o->nwave && o->nrec) || (no > 1 && !o[1].nwave && o[1].nrec)))
  {
    /* refused: records without channels cannot be stored */
    free(mc_cap_end());
    unlink(fn);
    return;
  }
  MC_CHECK(st == 0, "write failed (%d)", st);
  read_oi_fits(fn, &back, &st);
  MC_CHECK(st == 0, "read failed (%d)", st);
  free(mc_cap_end());
  oi_fits *w = ds_clone(d);
  ds_as_written(w);
  ds_expect(w, &back, SER_NODATE | SER_KW15, "written and read");
  unlink(fn);
  /* what was read is used as what was made */
  spec(&(oi_filter_spec){0}, 0);
  for (int k = 0; k < NSPEC; k += 3)
  {
    oi_filter_spec f;
    oi_fits o1, o2;
    spec(&f, k);
    mc_cap_begin();
    apply_oi_filter(&back, &f, &o1);
    apply_oi_filter(w, &f, &o2);
    free(mc_cap_end());
    ds_expect(&o2, &o1, SER_NODATE | SER_KW15, "filtered after reading");
    free_oi_fits(&o1), free_oi_fits(&o2);
  }
  ds_free(w);
  free_oi_fits(&back);
}

/* nothing is kept by any of the operations */
static void lost(const oi_fits *d)
{
  for (int k = 0; k < NSPEC + 2; k++)
  {
    size_t used[3];
    for (int i = 0; i < 3; i++)
    {
      oi_fits out;
      oi_filter_spec f;
      mc_cap_begin();
      if (k < NSPEC)
      {
        spec(&f, k);
        apply_oi_filter(d, &f, &out);
        free_oi_fits(&out);
      }
      else if (k == NSPEC)
      {
        merge_oi_fits(&out, (oi_fits *)d, (oi_fits *)d, NULL);
        free_oi_fits(&out);
      }
      else
      {
        oi_t3_iter t3;
        oi_vis_iter v;
        oi_t3_iter_init(&t3, d, NULL);
        while (oi_t3_iter_next(&t3, NULL, NULL, NULL, NULL, NULL)) {}
        oi_vis_iter_init(&v, d, NULL);
        while (oi_vis_iter_next(&v, NULL, NULL, NULL, NULL, NULL)) {}
      }
      free(mc_cap_end());
      used[i] = __sanitizer_get_current_allocated_bytes();
    }
    MC_CHECK(used[2] <= used[1], "%zu bytes lost by %s %d", used[2] - used[1],
             k < NSPEC ? "filter" : "merge or iterator", k);
  }
}

static void run(oi_fits *d, oi_fits *b, const odd *o, int no, bool exact)
{
  for (int i = 0; i < no; i++)
    add_odd(d, &o[i]);
  tame(d), tame(b);
  operate(d, b, o, no, exact);
  lost(d);
}

/* numbers of channels that differ */
static void c22_channels(void)
{
  odd o = {.arr = "ARR0", .ins = "INS0", .target = 1, .sta = 1, .nrec = 2};
  o.type = mc_pick(NTYPE, "type");
  o.nwave = mc_pick(mc_thorough ? 70 : 9, "channels");
  o.first = mc_pick(2, "place");
  o.cor = mc_pick(2, "corr") ? "COR0" : "";
  o.options = o.type == 0 && mc_pick(2, "options");
  o.nrec = mc_pick(3, "records");
  mc_mine();
  run(base(0), base(0), &o, 1, true);
}

/* references that lead nowhere, or to more than one table, or to empty ones */
static void c22_references(void)
{
  static const char *const ins[] = {"INS0", "MISSING", "", "TWICE", "EMPTY"},
                    *const arr[] = {"ARR0", "MISSING", "", "TWICE", "EMPTY"},
                    *const cor[] = {"COR0", "MISSING", "", "TWICE", "EMPTY"};
  static const int tgt[] = {1, 99, 0, -1}, sta[] = {1, 99, -1}, nch[] = {3, 2, 4, 0, 9};
  odd o = {.nrec = 2};
  o.type = mc_pick(NTYPE, "type");
  o.ins = ins[mc_pick(5, "insname")];
  o.arr = arr[mc_dev(5, "arrname")];
  o.cor = o.type == 4 ? "" : cor[mc_dev(5, "corrname")];
  o.target = tgt[mc_dev(4, "target")];
  o.sta = sta[mc_dev(3, "station")];
  o.nwave = nch[mc_pick(5, "channels")];
  o.first = mc_pick(2, "place");
  int dup = mc_pick(2, "order") + 1;
  bool twice = !strcmp(o.ins, "TWICE") || !strcmp(o.arr, "TWICE") ||
               !strcmp(o.cor, "TWICE");
  if (!twice)
  {
    if (dup == 2) mc_skip();
    dup = 0;
  }
  if (!strcmp(o.ins, "EMPTY") || !strcmp(o.arr, "EMPTY") || !strcmp(o.cor, "EMPTY")) dup |= 4;
  mc_mine();
  run(base(dup), base(dup), &o, 1, false);
}

/* two such tables */
static void c22_two(void)
{
  static const char *const ins[] = {"INS0", "MISSING", "TWICE", "EMPTY"};
  static const int nch[] = {3, 2, 4, 0};
  odd o[2] = {{0}, {0}};
  int dup = 4;
  for (int i = 0; i < 2; i++)
  {
    o[i].type = mc_pick(NTYPE, "type");
    o[i].ins = ins[mc_pick(mc_thorough ? 4 : 3, "insname")];
    o[i].nwave = nch[mc_pick(4, "channels")];
    o[i].arr = "ARR0", o[i].cor = "", o[i].target = 1, o[i].sta = 1;
    o[i].nrec = 1 + i;
    if (!strcmp(o[i].ins, "TWICE")) dup |= 1;
  }
  o[1].first = mc_pick(mc_thorough ? 2 : 1, "place");
  mc_mine();
  run(base(dup), base(dup), o, 2, false);
}

const mc_scope scopes_contra[] = {
    {"C22", "channels", c22_channels, 0, 0, 0,
     "a table of each type with 0 to 8 (thorough 69) channels and 0 to 2 records beside an OI_WAVELENGTH table with 3 channels, before and after a consistent table"},
    {"C22", "references", c22_references, 1, 4, 0,
     "all combinations of INSNAME (existing, missing, blank, duplicate, empty table) and channels, with deviations in ARRNAME, CORRNAME, target and station"},
    {"C22", "two", c22_two, 0, 0, 0,
     "all pairs of such tables: type, INSNAME and channels of each"},
    {0}};
