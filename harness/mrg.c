#include "mrg.h"

static const target *tgt(const oi_fits *o, int id)
{
  for (int i = 0; i < o->targets.ntarget; i++)
    if (o->targets.targ[i].target_id == id) return &o->targets.targ[i];
  return NULL;
}
#define FIND(fn, T, list, key)                                                 \
  static T *fn(const oi_fits *o, const char *n)                                \
  {                                                                            \
    for (GList *l = o->list; l; l = l->next)                                   \
      if (!strcmp(((T *)l->data)->key, n)) return l->data;                     \
    return NULL;                                                               \
  }
FIND(arr, oi_array, arrayList, arrname)
FIND(wav, oi_wavelength, wavelengthList, insname)
FIND(cor, oi_corr, corrList, corrname)

/* NaN is equal only to NaN */
static bool near(double a, double b, double tol)
{
  if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
  return a == b || fabs(a - b) <= tol;
}

/* does table b describe all stations of table a? */
static bool arr_covers(const oi_array *a, const oi_array *b)
{
  if (!near(a->arrayx, b->arrayx, 1e-10) || !near(a->arrayy, b->arrayy, 1e-10) ||
      !near(a->arrayz, b->arrayz, 1e-10))
    return false;
  for (int i = 0; i < a->nelement; i++)
  {
    const element *e = &a->elem[i], *f = NULL;
    for (int k = 0; k < b->nelement && !f; k++)
      if (b->elem[k].sta_index == e->sta_index) f = &b->elem[k];
    if (!f) return false;
    for (int k = 0; k < 3; k++)
      if (!near(e->staxyz[k], f->staxyz[k], 1e-10)) return false;
    if (!near(e->diameter, f->diameter, 1e-3f)) return false;
    if (a->revision >= 2 && b->revision >= 2)
    {
      if (!near(e->fov, f->fov, 1e-10)) return false;
      if (strcmp(e->fovtype, f->fovtype)) return false;
    }
  }
  return true;
}
static bool wav_same(const oi_wavelength *a, const oi_wavelength *b)
{
  if (a->nwave != b->nwave) return false;
  for (int i = 0; i < a->nwave; i++)
    if (!near(a->eff_wave[i], b->eff_wave[i], 1e-10) || !near(a->eff_band[i], b->eff_band[i], 1e-10))
      return false;
  return true;
}

static void ref_target(const oi_fits *in, const oi_fits *out, int was, int is,
                       const char *what)
{
  const target *a = tgt(in, was), *b = tgt(out, is);
  if (!a)
    MC_CHECK(!b, "%s referred to no target, refers to '%s' after merging", what, b->target);
  else
    MC_CHECK(b && !strcmp(a->target, b->target), "%s referred to target '%s', now to '%s'", what,
             a->target, b ? b->target : "(none)");
}
static void ref_arr(const oi_fits *in, const oi_fits *out, const char *was,
                    const char *is, const char *what)
{
  if (!*was)
  {
    MC_CHECK(!*is, "%s had no ARRNAME, has '%s' after merging", what, is);
    return;
  }
  const oi_array *a = arr(in, was), *b = arr(out, is);
  if (!a) return; /* dangling in the input */
  MC_CHECK(b && arr_covers(a, b), "%s: ARRNAME '%s' became '%s', which does not describe the same stations", what, was, is);
}
static void ref_wav(const oi_fits *in, const oi_fits *out, const char *was,
                    const char *is, const char *what)
{
  const oi_wavelength *a = wav(in, was), *b = wav(out, is);
  if (!a) return;
  MC_CHECK(b && wav_same(a, b), "%s: INSNAME '%s' became '%s', which does not describe the same channels", what, was, is);
}
static void ref_cor(const oi_fits *in, const oi_fits *out, const char *was,
                    const char *is, const char *what)
{
  if (!*was)
  {
    MC_CHECK(!*is, "%s had no CORRNAME, has '%s' after merging", what, is);
    return;
  }
  const oi_corr *a = cor(in, was), *b = cor(out, is);
  if (!a) return;
  MC_CHECK(b != NULL, "%s: CORRNAME '%s' became '%s', which does not exist", what, was, is);
  oi_corr *c = cl_corr(a);
  SETS(c->corrname, b->corrname);
  T_EXPECT(ser_corr, c, b, 0, "correlations of a data table changed");
  fr_corr(c);
}

#define TAB(T, list, num, cl, fr, sr, V1, V2, NAME, TIMES)                     \
  {                                                                            \
    GList *ol = out->list;                                                     \
    int total = 0;                                                             \
    for (int k = 0; k < n; k++)                                                \
      for (GList *l = in[k]->list; l; l = l->next, ol = ol->next, total++)     \
      {                                                                        \
        MC_CHECK(ol != NULL, NAME " tables lost in merging (%d present)", total); \
        const T *a = l->data;                                                  \
        T *b = ol->data;                                                       \
        T *w = cl(a);                                                          \
        if (w->revision == V1)                                                 \
        {                                                                      \
          w->revision = V2;                                                    \
          TIMES;                                                               \
        }                                                                      \
        T_EXPECT(sr, w, b, SER_NODATAREF, "table changed in merging");         \
        fr(w);                                                                 \
        for (long i = 0; i < a->numrec; i++)                                   \
          ref_target(in[k], out, a->record[i].target_id, b->record[i].target_id, NAME " record"); \
        ref_arr(in[k], out, a->arrname, b->arrname, NAME);                     \
        ref_wav(in[k], out, a->insname, b->insname, NAME);                     \
        ref_cor(in[k], out, a->corrname, b->corrname, NAME);                   \
      }                                                                        \
    MC_CHECK(ol == NULL && out->num == total, NAME ": %d tables in, num=%d list length %d out", total, out->num, g_list_length(out->list)); \
  }

void merge_check_data(oi_fits *const *in, int n, const oi_fits *out)
{
  ds_container(out, "merged");
#define ZT                                                                     \
  for (long i = 0; i < w->numrec; i++)                                         \
  w->record[i].time = 0
  TAB(oi_vis, visList, numVis, cl_vis, fr_vis, ser_vis, 1, 2, "OI_VIS", ZT)
  TAB(oi_vis2, vis2List, numVis2, cl_vis2, fr_vis2, ser_vis2, 1, 2, "OI_VIS2", ZT)
  TAB(oi_t3, t3List, numT3, cl_t3, fr_t3, ser_t3, 1, 2, "OI_T3", ZT)
  TAB(oi_flux, fluxList, numFlux, cl_flux, fr_flux, ser_flux, -9, 1, "OI_FLUX", (void)0)
  GList *ol = out->inspolList;
  int total = 0;
  for (int k = 0; k < n; k++)
    for (GList *l = in[k]->inspolList; l; l = l->next, ol = ol->next, total++)
    {
      MC_CHECK(ol != NULL, "OI_INSPOL tables lost in merging");
      const oi_inspol *a = l->data, *b = ol->data;
      MC_CHECK(a->numrec == b->numrec && a->nwave == b->nwave, "OI_INSPOL dimensions changed in merging");
      oi_inspol *w = cl_inspol(a);
      for (long i = 0; i < a->numrec; i++)
      {
        ref_target(in[k], out, a->record[i].target_id, b->record[i].target_id, "OI_INSPOL record");
        ref_wav(in[k], out, a->record[i].insname, b->record[i].insname, "OI_INSPOL record");
        w->record[i].target_id = b->record[i].target_id;
        SETS(w->record[i].insname, b->record[i].insname);
      }
      ref_arr(in[k], out, a->arrname, b->arrname, "OI_INSPOL");
      SETS(w->arrname, b->arrname);
      T_EXPECT(ser_inspol, w, b, 0, "OI_INSPOL changed in merging");
      fr_inspol(w);
    }
  MC_CHECK(ol == NULL && out->numInspol == total, "OI_INSPOL tables invented in merging");
}

static void key(oi_fits *const *in, int n, size_t off, const char *got,
                const char *name, bool required)
{
  const char *first = NULL;
  bool multi = false;
  for (int k = 0; k < n; k++)
  {
    const char *v = (const char *)&in[k]->header + off;
    if (!*v) continue;
    if (!first) first = v;
    else if (strcmp(first, v)) multi = true;
  }
  const char *want = multi ? "MULTIPLE" : first ? first : required ? "UNKNOWN" : "";
  MC_CHECK(!strcmp(want, got), "merged %s is '%s', expected '%s'", name, got, want);
}

void merge_check_support(oi_fits *const *in, int n, const oi_fits *out,
                         bool datecheck)
{
  ds_container(out, "merged");
#define KEY(f, NAME, req) key(in, n, offsetof(oi_header, f), out->header.f, NAME, req)
  KEY(origin, "ORIGIN", true);
  KEY(telescop, "TELESCOP", true);
  KEY(instrume, "INSTRUME", true);
  KEY(observer, "OBSERVER", true);
  KEY(insmode, "INSMODE", true);
  KEY(object, "OBJECT", true);
  KEY(referenc, "REFERENC", false);
  KEY(author, "AUTHOR", false);
  KEY(prog_id, "PROG_ID", false);
  KEY(procsoft, "PROCSOFT", false);
  KEY(obstech, "OBSTECH", false);
  MC_CHECK(!strcmp(out->header.content, "OIFITS2"), "merged CONTENT is '%s'", out->header.content);
  if (datecheck)
  {
    /* ISO dates of the supported range compare as strings */
    char best[11] = "9999-99-99";
    for (int k = 0; k < n; k++)
    {
      const char *d = in[k]->header.date_obs;
      if (strlen(d) >= 10 && strncmp(d, "1901", 4) >= 0 && strncmp(d, "2100", 4) < 0 &&
          strncmp(d, best, 10) < 0)
        memcpy(best, d, 10);
    }
    MC_CHECK(best[0] == '9' || !strcmp(best, out->header.date_obs), "merged DATE-OBS is '%s', expected '%s'",
             out->header.date_obs, best);
  }
  /* targets */
  int max = 0;
  for (int k = 0; k < n; k++)
    max += in[k]->targets.ntarget;
  oi_target w = {.revision = 2, .ntarget = 0, .usecategory = FALSE};
  w.targ = xalloc((max + 1) * sizeof(target));
  for (int k = 0; k < n; k++)
  {
    if (in[k]->targets.usecategory) w.usecategory = TRUE;
    for (int i = 0; i < in[k]->targets.ntarget; i++)
    {
      const target *t = &in[k]->targets.targ[i];
      int j;
      for (j = 0; j < w.ntarget && strcmp(w.targ[j].target, t->target); j++)
        ;
      if (j < w.ntarget) continue;
      w.targ[j] = *t;
      w.targ[j].target_id = ++w.ntarget;
      if (!in[k]->targets.usecategory) memset(w.targ[j].category, 0, sizeof(w.targ[j].category));
    }
  }
#define TG(s, t, i, fl) ser_target(s, t, fl)
  T_EXPECT(TG, &w, &out->targets, 0, "merged OI_TARGET");
  free(w.targ);
  /* arrays: sequence of the tables that no earlier one covers */
  oi_fits *e = ds_new();
  GList *ol = out->arrayList;
  for (int k = 0; k < n; k++)
    for (GList *l = in[k]->arrayList; l; l = l->next)
    {
      const oi_array *a = l->data;
      GList *m;
      for (m = e->arrayList; m && !arr_covers(a, m->data); m = m->next)
        ;
      if (m) continue;
      MC_CHECK(ol != NULL, "array table '%s' of input %d is missing", a->arrname, k);
      oi_array *c = cl_array(a);
      const oi_array *b = ol->data;
      c->revision = 2;
      if (arr(e, a->arrname))
      {
        MC_CHECK(!arr(e, b->arrname), "array name '%s' is not unique", b->arrname);
        SETS(c->arrname, b->arrname);
      }
      T_EXPECT(ser_array, c, b, 0, "merged OI_ARRAY");
      add_array(e, c);
      ol = ol->next;
    }
  MC_CHECK(ol == NULL, "extra OI_ARRAY tables after merging");
  ol = out->wavelengthList;
  for (int k = 0; k < n; k++)
    for (GList *l = in[k]->wavelengthList; l; l = l->next)
    {
      const oi_wavelength *a = l->data;
      GList *m;
      for (m = e->wavelengthList; m && !wav_same(a, m->data); m = m->next)
        ;
      if (m) continue;
      MC_CHECK(ol != NULL, "wavelength table '%s' of input %d is missing", a->insname, k);
      oi_wavelength *c = cl_wave(a);
      const oi_wavelength *b = ol->data;
      c->revision = 2;
      if (wav(e, a->insname))
      {
        MC_CHECK(!wav(e, b->insname), "wavelength name '%s' is not unique", b->insname);
        SETS(c->insname, b->insname);
      }
      T_EXPECT(ser_wave, c, b, 0, "merged OI_WAVELENGTH");
      add_wave(e, c);
      ol = ol->next;
    }
  MC_CHECK(ol == NULL, "extra OI_WAVELENGTH tables after merging");
  ol = out->corrList;
  for (int k = 0; k < n; k++)
    for (GList *l = in[k]->corrList; l; l = l->next)
    {
      const oi_corr *a = l->data;
      MC_CHECK(ol != NULL, "correlation table '%s' of input %d is missing", a->corrname, k);
      oi_corr *c = cl_corr(a);
      const oi_corr *b = ol->data;
      if (cor(e, a->corrname))
      {
        MC_CHECK(!cor(e, b->corrname), "correlation name '%s' is not unique", b->corrname);
        SETS(c->corrname, b->corrname);
      }
      T_EXPECT(ser_corr, c, b, 0, "merged OI_CORR");
      add_corr(e, c);
      ol = ol->next;
    }
  MC_CHECK(ol == NULL, "extra OI_CORR tables after merging");
  ds_free(e);
  /* lookups agree with the lists; all tables are version 2 */
  for (GList *l = out->arrayList; l; l = l->next)
    MC_CHECK(oi_fits_lookup_array(out, ((oi_array *)l->data)->arrname) == l->data, "array lookup by name is wrong");
  for (GList *l = out->wavelengthList; l; l = l->next)
    MC_CHECK(oi_fits_lookup_wavelength(out, ((oi_wavelength *)l->data)->insname) == l->data,
             "wavelength lookup by name is wrong");
  for (GList *l = out->corrList; l; l = l->next)
    MC_CHECK(oi_fits_lookup_corr(out, ((oi_corr *)l->data)->corrname) == l->data, "correlation lookup by name is wrong");
#define REV(list, T, NAME)                                                     \
  for (GList *l = out->list; l; l = l->next)                                   \
  MC_CHECK(((T *)l->data)->revision == 2, NAME " revision %d after merging", ((T *)l->data)->revision)
  REV(visList, oi_vis, "OI_VIS");
  REV(vis2List, oi_vis2, "OI_VIS2");
  REV(t3List, oi_t3, "OI_T3");
  MC_CHECK(is_oi_fits_two(out), "merged dataset is not version 2");
}

void mg_run(oi_fits *const *in, int n, oi_fits *out)
{
  memset(out, 0x5a, sizeof(*out));
  mc_cap_begin();
  if (n == 2) merge_oi_fits(out, in[0], in[1], NULL);
  else if (n == 3) merge_oi_fits(out, in[0], in[1], in[2], NULL);
  else if (n == 4) merge_oi_fits(out, in[0], in[1], in[2], in[3], NULL);
  else
  {
    GList *l = NULL;
    for (int i = 0; i < n; i++)
      l = g_list_append(l, in[i]);
    merge_oi_fits_list(l, out);
    g_list_free(l);
  }
  free(mc_cap_end());
}

/* ------------------------------------------------------------------ */
bool mg_nan_key; /* keywords may be NaN */
oi_fits *mg_input(int k)
{
  oi_fits *oi = ds_new();
  oi_header *h = &oi->header;
  char b[100];
  int v1 = mc_dev(2, "version1");
  int hd = mc_dev(13, "header");
  {
    char *fld[] = {0, h->origin, h->telescop, h->instrume, h->observer, h->insmode, h->object,
                   h->referenc, h->author, h->prog_id, h->procsoft, h->obstech, h->date_obs};
    if (hd)
    {
      snprintf(b, sizeof(b), "DIFF%d", k);
      if (hd == 12) snprintf(b, sizeof(b), "%s", k % 2 ? "2003-12-31" : "1999-01-02T03:04:05");
      strcpy(fld[hd], b);
    }
    int em = mc_dev(13, "header-empty");
    if (em) fld[em][0] = 0;
  }
  /* targets */
  int tg = mc_dev(8, "targets");
  int nt = tg == 1 ? 1 : tg == 2 ? 3 : tg == 7 ? 0 : 2;
  ds_targets(oi, nt, mc_dev(2, "category"));
  target *t = oi->targets.targ;
  if (tg == 3) SETS(t[0].target, "OTHER");
  if (tg == 4) SETS(t[0].target, "TGT_2"), SETS(t[1].target, "TGT_1");
  if (tg == 5) t[0].target_id = 5, t[1].target_id = 3;
  if (tg == 6) SETS(t[1].target, "TGT_1"); /* same name twice in one input */
  if (nt) t[0].raep0 += k; /* attributes differ between inputs */
  int id0 = nt ? t[0].target_id : 1, id1 = nt > 1 ? t[1].target_id : id0;
  /* array */
  int ar = mc_dev(29, "array");
  oi_array *a = NULL;
  if (ar != 1)
  {
    a = ds_array(oi, ar == 2 ? "ARR_B" : "ARR", ar == 3 ? 4 : ar == 4 ? 2 : 3, 0);
    if (ar == 5) a->elem[2].staxyz[1] += 0.5;
    if (ar == 6) a->elem[0].diameter += 0.01f;
    if (ar == 7) a->elem[1].fov += 0.5;
    if (ar == 8) SETS(a->elem[1].fovtype, "FWHM");
    if (ar == 9) a->arrayz += 1;
    if (ar == 10) a->elem[1].sta_index = 77;
    if (ar == 11)
    {
      element x = a->elem[0];
      a->elem[0] = a->elem[2], a->elem[2] = x;
    }
    if (ar == 12) ds_array(oi, "ARR_X", 3, 3 + k);
    if (ar == 13) a->elem[2].staxyz[0] += 1e-7, a->arrayx += 1e-12;
    if (ar == 14) a->arrayx -= 1;
    if (ar == 15) a->arrayy += 1e-3;
    if (ar == 16) a->elem[0].staxyz[2] += 1e-6;
    if (ar == 17) a->elem[1].staxyz[0] -= 1e-6;
    if (ar == 18) a->elem[1].diameter += 5e-4f; /* within tolerance */
    if (ar == 19) a->elem[0].diameter += 2e-3f; /* just beyond tolerance */
    if (ar == 20) a->elem[2].fov += 1e-6; /* last element only */
    if (ar == 21) a->elem[0].sta_index = 0;
    if (ar == 22) SETS(a->elem[0].tel_name, "another"), SETS(a->elem[1].sta_name, "another");
    if (ar == 23) SETS(a->frame, "SKY");
    if (ar == 24) a->elem[1].diameter = NAN; /* not known */
    if (ar == 25) a->elem[2].staxyz[1] = NAN;
    if (ar == 26) a->elem[0].fov = NAN;
    if (ar == 27) a->elem[0].fov = INFINITY;
    if (ar == 28) a->arrayz = mg_nan_key ? NAN : 1; /* no keyword can hold NaN */
  }
  /* wavelength */
  int wv = mc_dev(14, "wave");
  int nw = wv == 1 ? 3 : 2;
  oi_wavelength *w = ds_wave(oi, wv == 2 ? "INS_B" : "INS", nw, 0);
  if (wv == 3) w->eff_wave[1] += 1e-8f;
  if (wv == 4) w->eff_band[0] += 1e-8f;
  if (wv == 5) ds_wave(oi, "INS_X", 2, 3 + k);
  if (wv == 6)
  {
    float x = w->eff_wave[0];
    w->eff_wave[0] = w->eff_wave[1], w->eff_wave[1] = x;
  }
  if (wv == 7) w->eff_wave[0] *= 1.00001f; /* within tolerance */
  if (wv == 9) w->eff_band[nw - 1] -= 3e-10f;
  if (wv == 10) w->eff_band[0] += 5e-11f; /* within tolerance */
  if (wv == 11) w->eff_wave[0] -= 1e-8f;
  if (wv == 8) w->eff_wave[nw - 1] += 3e-10f; /* just beyond tolerance */
  if (wv == 12) w->eff_band[nw - 1] = NAN; /* not known */
  if (wv == 13) w->eff_wave[0] = NAN;
  /* correlations */
  int co = mc_dev(4, "corr");
  if (co)
  {
    ds_corr(oi, "COR", 9, 2, co == 2 ? k : 0);
    if (co == 3) ds_corr(oi, "COR_2", 9, 1, 5);
  }
  const char *A = a ? a->arrname : "", *I_ = w->insname, *C = co ? "COR" : "";
  if (ar == 12 && mc_dev(2, "use-second-array")) A = "ARR_X";
  if (wv == 5 && mc_dev(2, "use-second-wave")) I_ = "INS_X";
  if (co == 3 && mc_dev(2, "use-second-corr")) C = "COR_2";
  int ip = mc_dev(3, "inspol");
  if (ip)
  {
    oi_inspol *p = ds_inspol(oi, A, I_, ip, nw, k);
    p->record[ip - 1].target_id = id1;
  }
  /* data */
  static const int cnt[] = {1, 0, 2, 3};
  int n = cnt[mc_dev(4, "n-vis")];
  int z = mc_dev(5, "empty-table");
  for (int i = 0; i < n; i++)
  {
    oi_vis *v = ds_vis(oi, A, I_, C, z == 1 ? 0 : 2, nw, 10 * k + i);
    if (v->numrec) v->record[0].target_id = id0, v->record[1].target_id = id1, v->record[1].time = 12.5;
    int f = mc_dev(4, "vis-features");
    if (f & 1) vis_refmap(v, k);
    if (f & 2) vis_complex(v, "Jy", k);
  }
  n = cnt[mc_dev(4, "n-vis2")];
  for (int i = 0; i < n; i++)
  {
    oi_vis2 *v = ds_vis2(oi, A, I_, C, z == 2 ? 0 : 2, nw, 10 * k + i);
    if (v->numrec) v->record[0].target_id = id1, v->record[1].target_id = id0, v->record[1].time = 12.5;
  }
  n = cnt[mc_dev(4, "n-t3")];
  for (int i = 0; i < n; i++)
  {
    oi_t3 *v = ds_t3(oi, A, I_, C, z == 3 ? 0 : 2, nw, 10 * k + i);
    if (v->numrec) v->record[0].target_id = id0, v->record[1].target_id = id1, v->record[0].time = 12.5;
  }
  n = cnt[mc_dev(4, "n-flux")];
  for (int i = 0; i < n; i++)
  {
    oi_flux *v = ds_flux(oi, A, I_, C, z == 4 ? 0 : 2, nw, 10 * k + i);
    if (v->numrec) v->record[0].target_id = id1, v->record[1].target_id = id1;
  }
  int dang = mc_dev(2, "dangling-target");
  if (dang && oi->visList && ((oi_vis *)oi->visList->data)->numrec)
    ((oi_vis *)oi->visList->data)->record[0].target_id = 30000;
  if (v1)
  {
    ds_downgrade(oi);
    for (GList *l = oi->arrayList; l; l = l->next)
    {
      oi_array *x = l->data;
      for (int i = 0; i < x->nelement; i++)
        SETS(x->elem[i].fovtype, i % 2 ? "RADIUS" : "FWHM");
    }
    SETS(h->content, "");
  }
  return oi;
}
