#include "filt.h"

bool glob_match(const char *p, const char *s)
{
  if (*p == 0) return *s == 0;
  if (*p == '*') return glob_match(p + 1, s) || (*s && glob_match(p, s + 1));
  return *s && (*p == '?' || *p == *s) && glob_match(p + 1, s + 1);
}

/* inclusive; an undefined value is not out of range */
static bool okD(double x, const double r[2])
{
  return !(x < r[0]) && !(x > r[1]);
}
static bool okF(float x, const float r[2])
{
  return !(x < r[0]) && !(x > r[1]);
}
static bool okSnr(double a, double e, const oi_filter_spec *f)
{
  return okF((float)(a / e), f->snr_range);
}
/* SNR of a phase in degrees */
static bool okPhi(double e, const oi_filter_spec *f)
{
  return okF((float)((180.0 / M_PI) / e), f->snr_range);
}
static bool names(const oi_filter_spec *f, const char *a, const char *i,
                  const char *c)
{
  return glob_match(f->arrname, a) && glob_match(f->insname, i) &&
         glob_match(f->corrname, c);
}
static bool okRec(const oi_filter_spec *f, int tid, double mjd)
{
  return (f->target_id < 0 || f->target_id == tid) && okD(mjd, f->mjd_range);
}
static double len(double u, double v) { return sqrt(u * u + v * v); }
static const oi_wavelength *wave_of(const oi_fits *o, const char *ins)
{
  for (GList *l = o->wavelengthList; l; l = l->next)
    if (!strcmp(((oi_wavelength *)l->data)->insname, ins)) return l->data;
  return NULL;
}
static bool okWave(const oi_filter_spec *f, const oi_wavelength *w, int k)
{
  return okF(w->eff_wave[k], f->wave_range);
}

/* does the point satisfy the UV radius and SNR criteria? */
static bool vis_pt(const oi_filter_spec *f, const oi_wavelength *w,
                   const oi_vis_record *r, int k)
{
  return okD(len(r->ucoord, r->vcoord) / w->eff_wave[k], f->uvrad_range) &&
         okSnr(r->visamp[k], r->visamperr[k], f) && okPhi(r->visphierr[k], f);
}
static bool vis2_pt(const oi_filter_spec *f, const oi_wavelength *w,
                    const oi_vis2_record *r, int k)
{
  return okD(len(r->ucoord, r->vcoord) / w->eff_wave[k], f->uvrad_range) &&
         okSnr(r->vis2data[k], r->vis2err[k], f);
}
static bool t3_pt(const oi_filter_spec *f, const oi_wavelength *w,
                  const oi_t3_record *r, int k)
{
  double e = w->eff_wave[k];
  return okD(len(r->u1coord, r->v1coord) / e, f->uvrad_range) &&
         okD(len(r->u2coord, r->v2coord) / e, f->uvrad_range) &&
         okD(len(r->u1coord + r->u2coord, r->v1coord + r->v2coord) / e,
             f->uvrad_range) &&
         (!f->accept_t3amp || okSnr(r->t3amp[k], r->t3amperr[k], f)) &&
         (!f->accept_t3phi || okPhi(r->t3phierr[k], f));
}
static bool bas2(const oi_filter_spec *f, double u, double v)
{
  return okD(len(u, v), f->bas_range);
}
static bool bas3(const oi_filter_spec *f, const oi_t3_record *r)
{
  return bas2(f, r->u1coord, r->v1coord) && bas2(f, r->u2coord, r->v2coord) &&
         bas2(f, r->u1coord + r->u2coord, r->v1coord + r->v2coord);
}

/* channels kept, as a list; returns their number */
static int chans(const oi_filter_spec *f, const oi_wavelength *w, int nwave,
                 int *out)
{
  int n = 0;
  for (int k = 0; k < nwave && k < w->nwave; k++)
    if (okWave(f, w, k)) out[n++] = k;
  return n;
}
static double *take(const double *p, const int *c, int n)
{
  double *q = xalloc(n * sizeof(double));
  for (int k = 0; k < n; k++)
    q[k] = p[c[k]];
  return q;
}

static void o_vis(const oi_fits *in, const oi_filter_spec *f, oi_fits *out)
{
  for (GList *l = in->visList; l; l = l->next)
  {
    const oi_vis *t = l->data;
    const oi_wavelength *w = wave_of(in, t->insname);
    if (!f->accept_vis || !w || !names(f, t->arrname, t->insname, t->corrname))
      continue;
    int *c = calloc(t->nwave + 1, sizeof(int));
    int n = chans(f, w, t->nwave, c);
    oi_vis *o = xdup(t, sizeof(*t));
    o->nwave = n;
    o->numrec = 0;
    o->record = xalloc(t->numrec * sizeof(*o->record));
    for (long i = 0; n && i < t->numrec; i++)
    {
      const oi_vis_record *r = &t->record[i];
      if (!okRec(f, r->target_id, r->mjd) || !bas2(f, r->ucoord, r->vcoord))
        continue;
      BOOL *fl = xalloc(n);
      int good = 0;
      for (int k = 0; k < n; k++)
      {
        fl[k] = r->flag[c[k]] ? r->flag[c[k]] : !vis_pt(f, w, r, c[k]);
        good += !fl[k];
      }
      if (!f->accept_flagged && !good)
      {
        free(fl);
        continue;
      }
      oi_vis_record *q = &o->record[o->numrec++];
      *q = *r;
      if (f->target_id >= 0) q->target_id = 1;
      q->flag = fl;
      q->visamp = take(r->visamp, c, n);
      q->visamperr = take(r->visamperr, c, n);
      q->visphi = take(r->visphi, c, n);
      q->visphierr = take(r->visphierr, c, n);
      if (t->usevisrefmap)
      {
        q->visrefmap = xalloc(n * n);
        for (int a = 0; a < n; a++)
          for (int b = 0; b < n; b++)
            q->visrefmap[a * n + b] = r->visrefmap[c[a] * t->nwave + c[b]];
      }
      if (t->usecomplex)
      {
        q->rvis = take(r->rvis, c, n);
        q->rviserr = take(r->rviserr, c, n);
        q->ivis = take(r->ivis, c, n);
        q->iviserr = take(r->iviserr, c, n);
      }
    }
    free(c);
    if (o->numrec) add_vis(out, o);
    else fr_vis(o);
  }
}

static void o_vis2(const oi_fits *in, const oi_filter_spec *f, oi_fits *out)
{
  for (GList *l = in->vis2List; l; l = l->next)
  {
    const oi_vis2 *t = l->data;
    const oi_wavelength *w = wave_of(in, t->insname);
    if (!f->accept_vis2 || !w || !names(f, t->arrname, t->insname, t->corrname))
      continue;
    int *c = calloc(t->nwave + 1, sizeof(int));
    int n = chans(f, w, t->nwave, c);
    oi_vis2 *o = xdup(t, sizeof(*t));
    o->nwave = n;
    o->numrec = 0;
    o->record = xalloc(t->numrec * sizeof(*o->record));
    for (long i = 0; n && i < t->numrec; i++)
    {
      const oi_vis2_record *r = &t->record[i];
      if (!okRec(f, r->target_id, r->mjd) || !bas2(f, r->ucoord, r->vcoord))
        continue;
      BOOL *fl = xalloc(n);
      int good = 0;
      for (int k = 0; k < n; k++)
      {
        fl[k] = r->flag[c[k]] ? r->flag[c[k]] : !vis2_pt(f, w, r, c[k]);
        good += !fl[k];
      }
      if (!f->accept_flagged && !good)
      {
        free(fl);
        continue;
      }
      oi_vis2_record *q = &o->record[o->numrec++];
      *q = *r;
      if (f->target_id >= 0) q->target_id = 1;
      q->flag = fl;
      q->vis2data = take(r->vis2data, c, n);
      q->vis2err = take(r->vis2err, c, n);
    }
    free(c);
    if (o->numrec) add_vis2(out, o);
    else fr_vis2(o);
  }
}

static void o_t3(const oi_fits *in, const oi_filter_spec *f, oi_fits *out)
{
  for (GList *l = in->t3List; l; l = l->next)
  {
    const oi_t3 *t = l->data;
    const oi_wavelength *w = wave_of(in, t->insname);
    if ((!f->accept_t3amp && !f->accept_t3phi) || !w ||
        !names(f, t->arrname, t->insname, t->corrname))
      continue;
    int *c = calloc(t->nwave + 1, sizeof(int));
    int n = chans(f, w, t->nwave, c);
    oi_t3 *o = xdup(t, sizeof(*t));
    o->nwave = n;
    o->numrec = 0;
    o->record = xalloc(t->numrec * sizeof(*o->record));
    for (long i = 0; n && i < t->numrec; i++)
    {
      const oi_t3_record *r = &t->record[i];
      if (!okRec(f, r->target_id, r->mjd) || !bas3(f, r)) continue;
      BOOL *fl = xalloc(n);
      int good = 0;
      for (int k = 0; k < n; k++)
      {
        fl[k] = r->flag[c[k]] ? r->flag[c[k]] : !t3_pt(f, w, r, c[k]);
        good += !fl[k];
      }
      if (!f->accept_flagged && !good)
      {
        free(fl);
        continue;
      }
      oi_t3_record *q = &o->record[o->numrec++];
      *q = *r;
      if (f->target_id >= 0) q->target_id = 1;
      q->flag = fl;
      q->t3amp = take(r->t3amp, c, n);
      q->t3amperr = take(r->t3amperr, c, n);
      q->t3phi = take(r->t3phi, c, n);
      q->t3phierr = take(r->t3phierr, c, n);
      for (int k = 0; k < n; k++)
      {
        if (!f->accept_t3amp) q->t3amp[k] = NAN;
        if (!f->accept_t3phi) q->t3phi[k] = NAN;
      }
    }
    free(c);
    if (o->numrec) add_t3(out, o);
    else fr_t3(o);
  }
}

static void o_flux(const oi_fits *in, const oi_filter_spec *f, oi_fits *out)
{
  for (GList *l = in->fluxList; l; l = l->next)
  {
    const oi_flux *t = l->data;
    const oi_wavelength *w = wave_of(in, t->insname);
    if (!f->accept_flux || !w || !names(f, t->arrname, t->insname, t->corrname))
      continue;
    int *c = calloc(t->nwave + 1, sizeof(int));
    int n = chans(f, w, t->nwave, c);
    oi_flux *o = xdup(t, sizeof(*t));
    o->nwave = n;
    o->numrec = 0;
    o->record = xalloc(t->numrec * sizeof(*o->record));
    for (long i = 0; n && i < t->numrec; i++)
    {
      const oi_flux_record *r = &t->record[i];
      if (!okRec(f, r->target_id, r->mjd)) continue;
      oi_flux_record *q = &o->record[o->numrec++];
      *q = *r;
      if (f->target_id >= 0) q->target_id = 1;
      q->fluxdata = take(r->fluxdata, c, n);
      q->fluxerr = take(r->fluxerr, c, n);
      q->flag = xalloc(n);
      for (int k = 0; k < n; k++)
      {
        q->flag[k] = r->flag[c[k]];
        if (!okSnr(r->fluxdata[c[k]], r->fluxerr[c[k]], f)) q->fluxdata[k] = NAN;
      }
    }
    free(c);
    if (o->numrec) add_flux(out, o);
    else fr_flux(o);
  }
}

static bool used(const oi_fits *o, int what, const char *name)
{
#define U(list, type)                                                          \
  for (GList *l = o->list; l; l = l->next)                                     \
  {                                                                            \
    type *t = l->data;                                                         \
    if (!strcmp(name, what == 0   ? t->arrname                                 \
                      : what == 1 ? t->insname                                 \
                                  : t->corrname))                              \
      return true;                                                             \
  }
  if (!*name && what != 1) return false;
  U(visList, oi_vis)
  U(vis2List, oi_vis2)
  U(t3List, oi_t3)
  U(fluxList, oi_flux)
  return false;
#undef U
}

oi_fits *oracle_filter(const oi_fits *in, const oi_filter_spec *f)
{
  oi_fits *out = ds_new();
  out->header = in->header;
  out->targets.revision = in->targets.revision;
  out->targets.usecategory = in->targets.usecategory;
  out->targets.ntarget = 0;
  out->targets.targ = xalloc(in->targets.ntarget * sizeof(target));
  for (int i = 0; i < in->targets.ntarget; i++)
    if (f->target_id < 0 || in->targets.targ[i].target_id == f->target_id)
    {
      target *t = &out->targets.targ[out->targets.ntarget++];
      *t = in->targets.targ[i];
      if (f->target_id >= 0) t->target_id = 1;
    }
  o_vis(in, f, out);
  o_vis2(in, f, out);
  o_t3(in, f, out);
  o_flux(in, f, out);
  for (GList *l = in->arrayList; l; l = l->next)
  {
    oi_array *a = l->data;
    if (glob_match(f->arrname, a->arrname) && used(out, 0, a->arrname))
      add_array(out, cl_array(a));
  }
  for (GList *l = in->corrList; l; l = l->next)
  {
    oi_corr *a = l->data;
    if (glob_match(f->corrname, a->corrname) && used(out, 2, a->corrname))
      add_corr(out, cl_corr(a));
  }
  for (GList *l = in->wavelengthList; l; l = l->next)
  {
    oi_wavelength *w = l->data;
    if (!glob_match(f->insname, w->insname) || !used(out, 1, w->insname))
      continue;
    oi_wavelength *o = cl_wave(w);
    o->nwave = 0;
    for (int k = 0; k < w->nwave; k++)
      if (okWave(f, w, k))
      {
        o->eff_wave[o->nwave] = w->eff_wave[k];
        o->eff_band[o->nwave++] = w->eff_band[k];
      }
    if (o->nwave) add_wave(out, o);
    else fr_wave(o);
  }
  for (GList *l = in->inspolList; l; l = l->next)
  {
    oi_inspol *t = l->data;
    if (!glob_match(f->arrname, t->arrname) || !used(out, 0, t->arrname))
      continue;
    oi_inspol *o = xdup(t, sizeof(*t));
    o->numrec = 0;
    o->nwave = 0;
    o->record = xalloc(t->numrec * sizeof(*o->record));
    int *c = calloc(t->nwave + 1, sizeof(int));
    for (int pass = 0; pass < 2; pass++)
      for (long i = 0; i < t->numrec; i++)
      {
        const oi_inspol_record *r = &t->record[i];
        const oi_wavelength *w = wave_of(in, r->insname);
        if (!glob_match(f->insname, r->insname) || !w) continue;
        if (f->target_id >= 0 && r->target_id != f->target_id) continue;
        if (r->mjd_end < f->mjd_range[0] || r->mjd_obs > f->mjd_range[1])
          continue;
        int any = 0;
        for (int k = 0; k < w->nwave; k++)
          any += okWave(f, w, k);
        if (!any) continue;
        int n = chans(f, w, t->nwave, c);
        if (pass == 0)
        {
          if (n > o->nwave) o->nwave = n;
          continue;
        }
        oi_inspol_record *q = &o->record[o->numrec++];
        *q = *r;
        if (f->target_id >= 0) q->target_id = 1;
#define J(x)                                                                   \
  q->x = xalloc(o->nwave * sizeof(float complex));                             \
  for (int k = 0; k < o->nwave; k++)                                           \
  q->x[k] = k < n ? r->x[c[k]] : NAN
        J(jxx);
        J(jyy);
        J(jxy);
        J(jyx);
#undef J
      }
    free(c);
    if (o->numrec && o->nwave) add_inspol(out, o);
    else fr_inspol(o);
  }
  return out;
}

int oracle_points(const oi_fits *in, const oi_filter_spec *f, int type, pt **out)
{
  int n = 0, cap = 64, ver = 0;
  pt *p = malloc(cap * sizeof(pt));
  GList *l = type == 0 ? in->visList : type == 1 ? in->vis2List : in->t3List;
  bool on = type == 0   ? f->accept_vis
            : type == 1 ? f->accept_vis2
                        : f->accept_t3amp || f->accept_t3phi;
  for (; l && on; l = l->next)
  {
    ver++;
#define EACH(T, OKREC, OKPT, U1, V1, U2, V2)                                   \
  {                                                                            \
    const T *t = l->data;                                                      \
    const oi_wavelength *w = wave_of(in, t->insname);                          \
    if (!w || !names(f, t->arrname, t->insname, t->corrname)) continue;        \
    for (long i = 0; i < t->numrec; i++)                                       \
      if (okRec(f, t->record[i].target_id, t->record[i].mjd) && (OKREC))       \
        for (int k = 0; k < t->nwave; k++)                                     \
          if (okWave(f, w, k) && OKPT(f, w, &t->record[i], k) &&               \
              (f->accept_flagged || !t->record[i].flag[k]))                    \
          {                                                                    \
            if (n == cap) p = realloc(p, (cap *= 2) * sizeof(pt));             \
            double e = w->eff_wave[k];                                         \
            p[n++] = (pt){ver,        i,          k,          e,               \
                          (U1) / e, (V1) / e, (U2) / e, (V2) / e};             \
          }                                                                    \
  }
    if (type == 0)
      EACH(oi_vis, bas2(f, t->record[i].ucoord, t->record[i].vcoord), vis_pt,
           t->record[i].ucoord, t->record[i].vcoord, 0, 0)
    else if (type == 1)
      EACH(oi_vis2, bas2(f, t->record[i].ucoord, t->record[i].vcoord), vis2_pt,
           t->record[i].ucoord, t->record[i].vcoord, 0, 0)
    else
      EACH(oi_t3, bas3(f, &t->record[i]), t3_pt, t->record[i].u1coord,
           t->record[i].v1coord, t->record[i].u2coord, t->record[i].v2coord)
  }
  *out = p;
  return n;
}

/* ------------------------------------------------------------------ */
/* values around the limits used by fs_gen */
#define W0 4.76837158203125e-7f  /* 2^-21 */
#define W1 9.5367431640625e-7f   /* 2^-20 */
#define W2 1.9073486328125e-6f   /* 2^-19 */
#define W3 3.814697265625e-6f    /* 2^-18 */

static void uv(double *u, double *v, int i)
{
  static const double k[] = {2, 8, 16, 4, 0}; /* baselines 10, 40, 80, 20, 0 */
  *u = (i % 2 ? -3 : 3) * k[i % 5];
  *v = 4 * k[i % 5];
}
static const double mj[] = {50000, 50001, 50001.5, 50003, 50002};
static const int tg[] = {1, 2, 1, 5, 2};
/* amplitude, error pairs with SNR 4, 16, 1, -2, 64 */
static const double am[] = {1, 2, 0.5, -0.25, 4}, er[] = {0.25, 0.125, 0.5, 0.125, 0.0625};
/* phase errors: SNR 57.3, 5.73, 229, 0.573, 14.3 */
static const double pe[] = {1, 10, 0.25, 100, 4};

oi_fits *fd_base(void)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 3, true);
  oi->targets.targ[2].target_id = 5;
  ds_array(oi, "ALPHA", 3, 0);
  ds_array(oi, "BETA", 3, 1);
  ds_array(oi, "GAMMA", 2, 2); /* unreferenced */
  oi_wavelength *w = ds_wave(oi, "INS_A", 3, 0);
  w->eff_wave[0] = W0, w->eff_wave[1] = W2, w->eff_wave[2] = W1;
  w = ds_wave(oi, "INS_B", 2, 1);
  w->eff_wave[0] = W1, w->eff_wave[1] = W3;
  ds_wave(oi, "UNUSED", 2, 1);
  ds_corr(oi, "C_ONE", 50, 3, 0);
  ds_corr(oi, "C_TWO", 60, 2, 1);
  ds_corr(oi, "C_UNUSED", 60, 2, 1);
  oi_inspol *p = ds_inspol(oi, "ALPHA", "INS_A", 4, 3, 0);
  SETS(p->record[1].insname, "INS_B");
  p->record[2].target_id = 2;
  p->record[3].target_id = 5;
  for (int i = 0; i < 4; i++)
    p->record[i].mjd_obs = mj[i], p->record[i].mjd_end = mj[i] + 0.25;
  p = ds_inspol(oi, "BETA", "INS_B", 2, 2, 1);
  p->record[1].target_id = 2;
  p->record[1].mjd_obs = 50001, p->record[1].mjd_end = 50003;
  ds_inspol(oi, "GAMMA", "INS_B", 1, 2, 2);
  static const char *const A[] = {"ALPHA", "BETA", "ALPHA"},
                           *const N[] = {"INS_A", "INS_B", "INS_B"},
                           *const C[] = {"C_ONE", "", "C_TWO"};
  static const int nw[] = {3, 2, 2};
  for (int t = 0; t < 3; t++)
  {
    oi_vis *v = ds_vis(oi, A[t], N[t], C[t], 5, nw[t], 10 + t);
    if (t == 0) vis_refmap(v, 1), vis_complex(v, "Jy", 2);
    oi_vis2 *v2 = ds_vis2(oi, A[t], N[t], C[t], 5, nw[t], 20 + t);
    oi_t3 *t3 = ds_t3(oi, A[t], N[t], C[t], 5, nw[t], 30 + t);
    oi_flux *fx = ds_flux(oi, A[t], N[t], C[t], 5, nw[t], 40 + t);
    for (int i = 0; i < 5; i++)
    {
      v->record[i].target_id = tg[(i + t) % 5];
      v2->record[i].target_id = tg[(i + t + 1) % 5];
      t3->record[i].target_id = tg[(i + t + 2) % 5];
      fx->record[i].target_id = tg[(i + t + 3) % 5];
      v->record[i].mjd = mj[i];
      v2->record[i].mjd = mj[(i + 1) % 5];
      t3->record[i].mjd = mj[(i + 2) % 5];
      fx->record[i].mjd = mj[(i + 3) % 5];
      uv(&v->record[i].ucoord, &v->record[i].vcoord, i + t);
      uv(&v2->record[i].ucoord, &v2->record[i].vcoord, i + t);
      /* collinear triangles, so that all three sides are exact */
      static const double k1[] = {2, 8, 4, 16, 2}, k2[] = {6, -4, 4, -8, -2};
      int j = (i + t) % 5;
      t3->record[i].u1coord = 3 * k1[j];
      t3->record[i].v1coord = 4 * k1[j];
      t3->record[i].u2coord = 3 * k2[j];
      t3->record[i].v2coord = 4 * k2[j];
      for (int k = 0; k < nw[t]; k++)
      {
        int a = (i + 2 * k) % 5, b = (i + k + t) % 5;
        v->record[i].visamp[k] = am[a], v->record[i].visamperr[k] = er[a];
        v->record[i].visphierr[k] = pe[b];
        v2->record[i].vis2data[k] = am[a], v2->record[i].vis2err[k] = er[a];
        t3->record[i].t3amp[k] = am[a], t3->record[i].t3amperr[k] = er[a];
        t3->record[i].t3phierr[k] = pe[b];
        fx->record[i].fluxdata[k] = am[a], fx->record[i].fluxerr[k] = er[a];
        v->record[i].flag[k] = (i + k) % 4 == 0;
        v2->record[i].flag[k] = (i + k) % 4 == 1 || i == 2;
        t3->record[i].flag[k] = (i + k + t) % 4 == 2;
        fx->record[i].flag[k] = (i + k) % 3 == 0;
      }
    }
    if (t == 1)
    {
      v->record[0].visamp[0] = NAN;
      v2->record[1].vis2data[1] = NAN;
      t3->record[2].t3amp[0] = NAN;
      t3->record[3].t3phierr[0] = NAN;
      v->record[1].visamperr[1] = 0;
      fx->record[1].fluxdata[1] = NAN;
    }
  }
  return oi;
}

void fd_scale(oi_fits *oi)
{
  int t = 0;
  for (GList *l = oi->visList; l; l = l->next, t++)
  {
    oi_vis *v = l->data;
    for (long i = 0; i < v->numrec; i++)
    {
      oi_vis_record *r = &v->record[i];
      r->mjd = mj[i % 5];
      uv(&r->ucoord, &r->vcoord, i + t);
      for (int k = 0; k < v->nwave; k++)
      {
        r->visamp[k] = am[(i + k) % 5], r->visamperr[k] = er[(i + k) % 5];
        r->visphierr[k] = pe[(i + t) % 5];
      }
    }
  }
  for (GList *l = oi->vis2List; l; l = l->next, t++)
  {
    oi_vis2 *v = l->data;
    for (long i = 0; i < v->numrec; i++)
    {
      oi_vis2_record *r = &v->record[i];
      r->mjd = mj[i % 5];
      uv(&r->ucoord, &r->vcoord, i + t);
      for (int k = 0; k < v->nwave; k++)
        r->vis2data[k] = am[(i + k) % 5], r->vis2err[k] = er[(i + k) % 5];
    }
  }
  for (GList *l = oi->t3List; l; l = l->next, t++)
  {
    oi_t3 *v = l->data;
    for (long i = 0; i < v->numrec; i++)
    {
      oi_t3_record *r = &v->record[i];
      r->mjd = mj[i % 5];
      r->u1coord = 6, r->v1coord = 8;
      r->u2coord = 12 * (1 + i % 3), r->v2coord = 16 * (1 + i % 3);
      for (int k = 0; k < v->nwave; k++)
      {
        r->t3amp[k] = am[(i + k) % 5], r->t3amperr[k] = er[(i + k) % 5];
        r->t3phierr[k] = pe[(i + t) % 5];
      }
    }
  }
  for (GList *l = oi->fluxList; l; l = l->next, t++)
  {
    oi_flux *v = l->data;
    for (long i = 0; i < v->numrec; i++)
    {
      oi_flux_record *r = &v->record[i];
      r->mjd = mj[i % 5];
      for (int k = 0; k < v->nwave; k++)
        r->fluxdata[k] = am[(i + k) % 5], r->fluxerr[k] = er[(i + k) % 5];
    }
  }
}

static const char *const arrs[] = {"*", "ALPHA", "B*", "?ETA", "*A", "AL?HA", "none", "", "ALPH", "ARR0", "*1"};
static const char *const inss[] = {"*", "INS_A", "INS_?", "*_B", "X*", "INS_A*", "ins_a", "INS0", "*1"};
static const char *const cors[] = {"*", "C_ONE", "C*", "*TWO", "?", "", "C_*O*", "COR0", "*1"};
static const int tgs[] = {-1, 1, 2, 5, 7, 0, -2};
static const double mlo[] = {0, 50001, 50001.25, 50003, 50003.5, 50000.25};
static const double mhi[] = {1e7, 50001, 50001.25, 50000, 49999, 50002};
static const float wlo[] = {0, W1, 1e-6f, W3, 1e-5f, W0};
static const float whi[] = {1e-4f, W1, 1.5e-6f, W0, 1e-7f, W2};
static const double blo[] = {0, 20, 15, 80, 90, 10};
static const double bhi[] = {1e4, 40, 30, 10, 5, 0};
#define UV(b, w) ((b) * (1.0 / (w)))
static const double ulo[] = {0, UV(20, W1), 3e7, UV(10, W0), 1e9, 1e-3};
static const double uhi[] = {1e11, UV(20, W1), 3e7, UV(10, W3), 1e3, UV(40, W0)};
static const float slo[] = {-5, 4, 5, -2, 30, 1, 100};
static const float shi[] = {1e10f, 16, 4, 3, 64, 1, 0.9f};
#define NEL(a) ((int)(sizeof(a) / sizeof(*(a))))

void fs_gen(oi_filter_spec *f, int m)
{
  init_oi_filter(f);
  if (m & FS_ARR) SETS(f->arrname, arrs[mc_dev(NEL(arrs), "arrname")]);
  if (m & FS_INS) SETS(f->insname, inss[mc_dev(NEL(inss), "insname")]);
  if (m & FS_COR) SETS(f->corrname, cors[mc_dev(NEL(cors), "corrname")]);
  if (m & FS_TGT) f->target_id = tgs[mc_dev(NEL(tgs), "target")];
#define R(bit, fld, lo, hi, nm)                                                \
  if (m & bit)                                                                 \
  {                                                                            \
    f->fld[0] = lo[mc_dev(NEL(lo), nm "-min")];                                \
    f->fld[1] = hi[mc_dev(NEL(hi), nm "-max")];                                \
  }
  R(FS_MJD, mjd_range, mlo, mhi, "mjd")
  R(FS_WAV, wave_range, wlo, whi, "wave")
  R(FS_BAS, bas_range, blo, bhi, "bas")
  R(FS_UVR, uvrad_range, ulo, uhi, "uvrad")
  R(FS_SNR, snr_range, slo, shi, "snr")
#undef R
  static const int truth[] = {1, 0, 256}; /* any value but zero is true */
  if (m & FS_TYP)
  {
    f->accept_vis = truth[mc_dev(3, "no-vis")];
    f->accept_vis2 = truth[mc_dev(3, "no-vis2")];
    f->accept_t3amp = truth[mc_dev(3, "no-t3amp")];
    f->accept_t3phi = truth[mc_dev(3, "no-t3phi")];
    f->accept_flux = truth[mc_dev(3, "no-flux")];
  }
  if (m & FS_FLG) f->accept_flagged = truth[mc_dev(3, "no-flagged")];
}

void fs_one(oi_filter_spec *f, int c)
{
#define S(fld, a, nm) SETS(f->fld, a[1 + mc_pick(NEL(a) - 1, nm)])
#define R(fld, lo, hi, nm)                                                     \
  {                                                                            \
    int k = 1 + mc_pick(NEL(lo) + NEL(hi) - 2, nm);                            \
    if (k < NEL(lo)) f->fld[0] = lo[k];                                        \
    else f->fld[1] = hi[k - NEL(lo) + 1];                                      \
  }
  switch (c)
  {
  case 0: S(arrname, arrs, "arrname"); break;
  case 1: S(insname, inss, "insname"); break;
  case 2: S(corrname, cors, "corrname"); break;
  case 3: f->target_id = tgs[1 + mc_pick(NEL(tgs) - 1, "target")]; break;
  case 4: R(mjd_range, mlo, mhi, "mjd") break;
  case 5: R(wave_range, wlo, whi, "wave") break;
  case 6: R(bas_range, blo, bhi, "bas") break;
  case 7: R(uvrad_range, ulo, uhi, "uvrad") break;
  case 8: R(snr_range, slo, shi, "snr") break;
  default: abort();
  }
#undef S
#undef R
}

void fs_show(const oi_filter_spec *f, char *o, size_t cap)
{
  snprintf(o, cap,
           "filter arr='%s' ins='%s' corr='%s' target=%d mjd=[%g,%g] "
           "wave=[%g,%g] bas=[%g,%g] uvrad=[%g,%g] snr=[%g,%g] "
           "accept vis%d vis2%d t3amp%d t3phi%d flux%d flagged%d",
           f->arrname, f->insname, f->corrname, f->target_id, f->mjd_range[0],
           f->mjd_range[1], f->wave_range[0], f->wave_range[1], f->bas_range[0],
           f->bas_range[1], f->uvrad_range[0], f->uvrad_range[1],
           f->snr_range[0], f->snr_range[1], f->accept_vis, f->accept_vis2,
           f->accept_t3amp, f->accept_t3phi, f->accept_flux, f->accept_flagged);
}

/* one limit (or both at once) at, next to and near every value of fd_base */
void fd_edge(oi_filter_spec *f)
{
  static const double mjd[] = {50000, 50001, 50001.5, 50003, 50002, 50000.25, 50001.25, 50001.75, 50003.25, 54000};
  static const double wav[] = {W0, W1, W2, W3};
  static const double bas[] = {0, 10, 20, 30, 40, 80};
  static const double snr[] = {1, 4, 16, 64, -2, 0};
  static const double phi[] = {1, 10, 0.25, 100, 4};
  init_oi_filter(f);
  int c = mc_pick(6, "criterion");
  double v = 0;
  switch (c)
  {
  case 0: v = mjd[mc_pick(10, "value")]; break;
  case 1: v = wav[mc_pick(4, "value")]; break;
  case 2: v = bas[mc_pick(6, "value")]; break;
  case 3:
    v = bas[mc_pick(6, "value")];
    v /= wav[mc_pick(4, "value")];
    break;
  case 4: v = snr[mc_pick(6, "value")]; break;
  case 5: v = 180.0 / 3.14159265358979323846 / phi[mc_pick(5, "value")]; break;
  }
  int n = mc_pick(7, "offset"), side = mc_pick(3, "side");
  f->accept_flagged = !mc_pick(2, "reject-flagged");
  static const double rel[] = {-1e-5, -1e-9, 0, 0, 0, 1e-9, 1e-5};
  static const double flt[] = {-1e-5, -1e-6, 0, 0, 0, 1e-6, 1e-5};
  int single = c == 1 || c >= 4;
  double x = v + fabs(v) * (single ? flt[n] : rel[n]);
  if (n == 2) x = single ? nextafterf((float)v, -INFINITY) : nextafter(v, -INFINITY);
  if (n == 4) x = single ? nextafterf((float)v, INFINITY) : nextafter(v, INFINITY);
  /* the SNR of a phase is not exact */
  if (c == 5 && n >= 1 && n <= 5) mc_skip();
  mc_mine();
#define L(fld)                                                                 \
  {                                                                            \
    if (side != 1) f->fld[0] = x;                                              \
    if (side != 0) f->fld[1] = x;                                              \
  }
  if (c == 0) L(mjd_range)
  else if (c == 1) L(wave_range)
  else if (c == 2) L(bas_range)
  else if (c == 3) L(uvrad_range)
  else L(snr_range)
#undef L
}

/* values that single precision does not hold; limits nearer than that to them,
 * but not so near that the order of evaluation counts */
oi_fits *fd_fine(oi_filter_spec *f)
{
  static const double mjd[] = {50000, 50001, 50001.5, 50003, 50002, 50000.25, 50001.25, 50001.75, 50003.25},
                      bas[] = {10, 20, 30, 40, 80}, off[] = {-1e-8, -1e-11, 1e-11, 1e-8};
  static const float wav[] = {W0, W1, W2, W3};
  static oi_fits *b;
  if (!b)
  {
    b = fd_base();
    ds_keep(b);
#define FINE(list, T) for (GList *l = b->list; l; l = l->next) for (long i = 0; i < ((T *)l->data)->numrec; i++)
#define REC(T) (&((T *)l->data)->record[i])
    FINE(inspolList, oi_inspol) REC(oi_inspol)->mjd_obs += 0.1, REC(oi_inspol)->mjd_end += 0.1;
    FINE(visList, oi_vis) REC(oi_vis)->mjd += 0.1, REC(oi_vis)->ucoord *= 1.1, REC(oi_vis)->vcoord *= 1.1;
    FINE(vis2List, oi_vis2) REC(oi_vis2)->mjd += 0.1, REC(oi_vis2)->ucoord *= 1.1, REC(oi_vis2)->vcoord *= 1.1;
    FINE(fluxList, oi_flux) REC(oi_flux)->mjd += 0.1;
    FINE(t3List, oi_t3)
    {
      oi_t3_record *r = REC(oi_t3);
      r->mjd += 0.1;
      r->u1coord *= 1.1, r->v1coord *= 1.1, r->u2coord *= 1.1, r->v2coord *= 1.1;
    }
#undef FINE
#undef REC
    for (GList *l = b->wavelengthList; l; l = l->next)
      for (int i = 0; i < ((oi_wavelength *)l->data)->nwave; i++)
        ((oi_wavelength *)l->data)->eff_wave[i] *= 1.1f;
  }
  init_oi_filter(f);
  int c = mc_pick(3, "criterion");
  double v = 0, *lim;
  if (c == 0)
    v = mjd[mc_pick(9, "value")] + 0.1, lim = f->mjd_range;
  else
    v = 1.1 * bas[mc_pick(5, "value")], lim = f->bas_range;
  if (c == 2) v /= wav[mc_pick(4, "value")] * 1.1f, lim = f->uvrad_range;
  int n = mc_pick(4, "offset"), side = mc_pick(3, "side");
  f->accept_flagged = !mc_pick(2, "reject-flagged");
  mc_mine();
  v *= 1 + off[n];
  if (side != 1) lim[0] = v;
  if (side != 0) lim[1] = v * (1 + 1e-14 * (side == 2));
  return b;
}

/* every combination of point states over three channels of one record */
enum
{
  P_OK,
  P_FLAG,
  P_UVR,  /* UV radius out of range (because of the channel's wavelength) */
  P_AMP,  /* amplitude SNR out of range */
  P_PHI,  /* phase SNR out of range */
  P_WAVE, /* wavelength out of range */
  P_NAN,  /* undefined amplitude */
  P_ERR,  /* undefined error */
  P_HI,   /* SNR above the maximum */
  P_ZERO, /* error zero: infinite SNR */
  P_NEG,  /* negative error */
  P_BOTH, /* flagged, undefined amplitude, phase SNR out of range */
  P_N
};
oi_fits *fd_points(oi_filter_spec *pf, int ntype, int *ptype)
{
  int type = mc_pick(ntype, "type");
  if (ptype) *ptype = type;
  int st[3];
  for (int k = 0; k < 3; k++)
    st[k] = mc_pick(P_N, "state");
  oi_filter_spec f;
  init_oi_filter(&f);
  f.accept_flagged = mc_pick(2, "accept-flagged");
  int acc = type == 2 ? mc_pick(4, "accept-amp-phi") : 0;
  f.accept_t3amp = !(acc & 1);
  f.accept_t3phi = !(acc & 2);
  f.wave_range[0] = 1e-6f;
  f.uvrad_range[1] = 3e7;
  f.snr_range[0] = 2;
  static const float top[] = {1e10, 1000, INFINITY};
  f.snr_range[1] = top[mc_pick(3, "upper SNR limit")];
  mc_mine();
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  ds_array(oi, "A", 3, 0);
  oi_wavelength *w = ds_wave(oi, "I", 3, 0);
  oi_vis *v = type == 0 ? ds_vis(oi, "A", "I", "", 2, 3, 1) : NULL;
  oi_vis2 *v2 = type == 1 ? ds_vis2(oi, "A", "I", "", 2, 3, 1) : NULL;
  oi_t3 *t3 = type == 2 ? ds_t3(oi, "A", "I", "", 2, 3, 1) : NULL;
  oi_flux *fx = type == 3 ? ds_flux(oi, "A", "I", "", 2, 3, 1) : NULL;
  if (v) vis_refmap(v, 1), vis_complex(v, "Jy", 1);
  fd_scale(oi);
  for (int k = 0; k < 3; k++)
  {
    int s = st[k];
    /* baseline 40 m; 4e-6 m -> 1e7, 1.05e-6 m -> 3.8e7, 0.5e-6 m rejected */
    w->eff_wave[k] = s == P_UVR ? 1.05e-6f : s == P_WAVE ? 0.5e-6f : (4 + k) * 1e-6f;
    double a = s == P_NAN || s == P_BOTH ? NAN : 8, e = s == P_AMP ? 8 : s == P_ERR ? NAN : s == P_HI ? 1.0 / 1024 : 0.5;
    double pe = s == P_PHI || s == P_BOTH ? 90 : s == P_ERR ? NAN : s == P_HI ? 0.001 : 1;
    if (s == P_ZERO) e = pe = 0;
    if (s == P_NEG) e = -0.5, pe = -1;
    for (int i = 0; i < 2; i++)
    {
      int flag = s == P_FLAG || s == P_BOTH ? (k == 1 ? 'T' : 1) : 0; /* any non-zero value means true */
      if (v)
      {
        oi_vis_record *r = &v->record[i];
        r->ucoord = 24, r->vcoord = -32, r->flag[k] = flag;
        r->visamp[k] = a + i, r->visamperr[k] = e, r->visphierr[k] = pe;
      }
      if (v2)
      {
        oi_vis2_record *r = &v2->record[i];
        r->ucoord = 24, r->vcoord = -32, r->flag[k] = flag;
        r->vis2data[k] = a + i, r->vis2err[k] = e;
      }
      if (t3)
      {
        oi_t3_record *r = &t3->record[i];
        /* one side (which one depends on the record) reaches 40 m */
        if (i == 0) r->u1coord = 12, r->v1coord = 16, r->u2coord = 12, r->v2coord = 16;
        else r->u1coord = -24, r->v1coord = 32, r->u2coord = 12, r->v2coord = -16;
        r->flag[k] = flag;
        r->t3amp[k] = a + i, r->t3amperr[k] = e, r->t3phierr[k] = pe;
      }
      if (fx)
      {
        oi_flux_record *r = &fx->record[i];
        r->flag[k] = flag;
        r->fluxdata[k] = a + i, r->fluxerr[k] = e;
      }
    }
  }
  *pf = f;
  return oi;
}

/* all pairs of vectors of a set, with lengths that are exact */
oi_fits *fd_triangle(oi_filter_spec *f)
{
  static const double k[] = {0, 2, 4, 6, 8, 12, -2, -4, -8, -12};
  double k1 = k[mc_pick(10, "side1")], k2 = k[mc_pick(10, "side2")];
  int lim = mc_pick(4, "limit");
  int lo = mc_pick(4, "lo"), hi = mc_pick(4, "hi");
  int af = mc_pick(2, "accept-flagged");
  mc_mine();
  init_oi_filter(f);
  f->accept_flagged = af;
  static const double L[] = {0, 10, 20, 25}, H[] = {1e4, 40, 30, 60};
  const double W = 1.9073486328125e-6; /* 2^-19 */
  if (lim & 1) f->bas_range[0] = L[lo], f->bas_range[1] = H[hi];
  if (lim & 2) f->uvrad_range[0] = L[lo] / W, f->uvrad_range[1] = H[hi] / W;
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  ds_array(oi, "A", 3, 0);
  oi_wavelength *w = ds_wave(oi, "I", 2, 0);
  oi_t3 *t = ds_t3(oi, "A", "I", "", 2, 2, 1);
  oi_vis *v = ds_vis(oi, "A", "I", "", 2, 2, 1);
  oi_vis2 *v2 = ds_vis2(oi, "A", "I", "", 2, 2, 1);
  fd_scale(oi);
  w->eff_wave[0] = W, w->eff_wave[1] = 2 * W;
  for (int i = 0; i < 2; i++)
  {
    t->record[i].u1coord = 3 * k1;
    t->record[i].v1coord = (i ? -4 : 4) * k1;
    t->record[i].u2coord = 3 * k2;
    t->record[i].v2coord = (i ? -4 : 4) * k2;
    v->record[i].ucoord = v2->record[i].ucoord = 3 * k1;
    v->record[i].vcoord = v2->record[i].vcoord = 4 * k2;
    if (k1 != k2 && k1 != -k2) /* keep lengths exact */
      v->record[i].vcoord = v2->record[i].vcoord = 4 * k1;
  }
  return oi;
}

/* fd_base with other numbers for its targets (zero, negative, unordered), and
 * a filter that selects one, or none, and restricts one thing more */
oi_fits *fd_numbers(oi_filter_spec *f)
{
  static const int no[][3] = {{0, 2, 5}, {1, 0, 5}, {1, 2, 0}, {32767, 1, -1}, {3, 2, 1}, {2, 5, 1}, {-5, 1, 0}};
  static const int sel[] = {-1, 0, 1, 2, 3, 5, 32767, -5, 32766};
  const int *n = no[mc_pick((int)(sizeof(no) / sizeof(*no)), "numbers")];
  fs_gen(f, FS_ALL & ~FS_TGT);
  f->target_id = sel[mc_pick((int)(sizeof(sel) / sizeof(*sel)), "target")];
  mc_mine();
  oi_fits *oi = fd_base();
#define NUM(x) x = x == 1 ? n[0] : x == 2 ? n[1] : x == 5 ? n[2] : x
  for (int i = 0; i < oi->targets.ntarget; i++) NUM(oi->targets.targ[i].target_id);
#define ALL(list, T)                                                           \
  for (GList *l = oi->list; l; l = l->next)                                    \
    for (long i = 0; i < ((T *)l->data)->numrec; i++)                          \
      NUM(((T *)l->data)->record[i].target_id);
  ALL(inspolList, oi_inspol)
  ALL(visList, oi_vis)
  ALL(vis2List, oi_vis2)
  ALL(t3List, oi_t3)
  ALL(fluxList, oi_flux)
#undef ALL
#undef NUM
  return oi;
}


/* data as ordinary, and as unusual, as a filter in its initial state has to
 * accept: it is there "to accept all data" */
oi_fits *fd_everyday(void)
{
  static const float wave[] = {2.2e-6f, 1e-7f, 9.9e-5f};
  static const double bas[] = {100, 0, 1e-3, 4990};
  static const double mjd[] = {58000, 0, 15020.5, 88068.5, 9.9e6};
  static const double snr[] = {10, -4.9, 0, 1e-6, 9e9};
  float w = wave[mc_pick(3, "wavelength")];
  double b = bas[mc_pick(4, "baseline")], t = mjd[mc_pick(5, "date")], a = snr[mc_pick(5, "SNR of amplitudes")];
  int ps = mc_pick(4, "SNR of phases"), flag = mc_pick(2, "flag");
  mc_mine();
  static const double perr[] = {5, -12, 1e6, 1e-8};
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, true);
  ds_array(oi, "A", 3, 0);
  oi_wavelength *wl = ds_wave(oi, "I", 2, 0);
  wl->eff_wave[0] = w, wl->eff_wave[1] = 1.6e-6f;
  ds_corr(oi, "C", 9, 2, 0);
  oi_vis *v = ds_vis(oi, "A", "I", "C", 1, 2, 1);
  oi_vis2 *v2 = ds_vis2(oi, "", "I", "", 1, 2, 1);
  oi_t3 *t3 = ds_t3(oi, "A", "I", "", 1, 2, 1);
  oi_flux *fx = ds_flux(oi, "A", "I", "", 1, 2, 1);
  v->record->mjd = v2->record->mjd = t3->record->mjd = fx->record->mjd = t;
  v->record->ucoord = b, v->record->vcoord = 0;
  v2->record->ucoord = 0, v2->record->vcoord = -b;
  t3->record->u1coord = b, t3->record->v1coord = 0, t3->record->u2coord = b, t3->record->v2coord = 0;
  for (int k = 0; k < 2; k++)
  {
    v->record->flag[k] = v2->record->flag[k] = t3->record->flag[k] = fx->record->flag[k] = flag;
    v->record->visamp[k] = v2->record->vis2data[k] = t3->record->t3amp[k] = fx->record->fluxdata[k] = a;
    v->record->visamperr[k] = v2->record->vis2err[k] = t3->record->t3amperr[k] = fx->record->fluxerr[k] = 1;
    v->record->visphierr[k] = t3->record->t3phierr[k] = perr[ps];
  }
  return oi;
}
void fd_keeps_all(const oi_fits *oi, const oi_filter_spec *f, const char *ctx)
{
  oi_fits got;
  oi_filter_spec g = *f;
  mc_cap_begin();
  apply_oi_filter(oi, &g, &got);
  free(mc_cap_end());
  ds_expect(oi, &got, SER_ONLYDATA, ctx);
  mc_outcome(ds_hash(&got, 0));
  free_oi_fits(&got);
}
