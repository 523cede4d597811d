#define _GNU_SOURCE
#include "gen.h"
#include <stdarg.h>
#include <unistd.h>
#include <sys/stat.h>

void *xalloc(size_t n)
{
  if (n == 0) return NULL;
  void *p = malloc(n);
  if (!p) abort();
  memset(p, 0, n);
  return p;
}

void *xdup(const void *p, size_t n)
{
  void *q = xalloc(n);
  if (n) memcpy(q, p, n);
  return q;
}

void setstr(char *dst, size_t cap, const char *s)
{
  size_t n = strlen(s);
  if (n >= cap) abort();
  memset(dst, 0, cap);
  memcpy(dst, s, n);
}

double tv(int tag, int field, long rec, int ch)
{
  /* distinct for distinct arguments in the ranges used; exact in double */
  return (tag + 1) * 65536.0 * 16 + field * 65536.0 / 2 + rec * 64 + ch +
         1.0 / 1024;
}

/* datasets built in this execution and not freed yet */
static oi_fits *live[64];
static int nlive;
static void cleanup(void)
{
  while (nlive)
    ds_free(live[nlive - 1]);
}
static void reg(oi_fits *oi)
{
  mc_cleanup = cleanup;
  if (nlive >= 64) abort();
  live[nlive++] = oi;
}
void ds_keep(oi_fits *oi)
{
  for (int i = 0; i < nlive; i++)
    if (live[i] == oi)
    {
      live[i] = live[--nlive];
      return;
    }
}

/* ------------------------------------------------------------------ */
oi_fits *ds_new(void)
{
  oi_fits *oi = xalloc(sizeof(*oi));
  reg(oi);
  init_oi_fits(oi);
  memset(&oi->header, 0, sizeof(oi->header));
  SETS(oi->header.origin, "ORG");
  SETS(oi->header.date, "2000-01-01");
  SETS(oi->header.date_obs, "2004-05-06");
  SETS(oi->header.content, "OIFITS2");
  SETS(oi->header.telescop, "TEL");
  SETS(oi->header.instrume, "INS");
  SETS(oi->header.observer, "OBS");
  SETS(oi->header.insmode, "MODE");
  SETS(oi->header.object, "OBJ");
  SETS(oi->header.referenc, "REF");
  SETS(oi->header.author, "AUT");
  SETS(oi->header.prog_id, "PRG");
  SETS(oi->header.procsoft, "SOFT");
  SETS(oi->header.obstech, "TECH");
  oi->targets.revision = OI_REVN_V2_TARGET;
  oi->targets.ntarget = 0;
  oi->targets.targ = NULL;
  oi->targets.usecategory = FALSE;
  return oi;
}

void ds_targets(oi_fits *oi, int n, bool usecategory)
{
  oi->targets.revision = OI_REVN_V2_TARGET;
  oi->targets.ntarget = n;
  oi->targets.usecategory = usecategory;
  oi->targets.targ = xalloc(n * sizeof(target));
  for (int i = 0; i < n; i++)
  {
    target *t = &oi->targets.targ[i];
    char b[40];
    t->target_id = i + 1;
    snprintf(b, sizeof(b), "TGT_%d", i + 1);
    SETS(t->target, b);
    t->raep0 = tv(200, 1, i, 0);
    t->decep0 = tv(200, 2, i, 0);
    t->equinox = 2000.0f + i;
    t->ra_err = tv(200, 3, i, 0);
    t->dec_err = tv(200, 4, i, 0);
    t->sysvel = tv(200, 5, i, 0);
    SETS(t->veltyp, i % 2 ? "LSR" : "HELIOCEN");
    SETS(t->veldef, i % 2 ? "RADIO" : "OPTICAL");
    t->pmra = tv(200, 6, i, 0);
    t->pmdec = tv(200, 7, i, 0);
    t->pmra_err = tv(200, 8, i, 0);
    t->pmdec_err = tv(200, 9, i, 0);
    t->parallax = 1.5f + i;
    t->para_err = 0.25f + i;
    snprintf(b, sizeof(b), "G%dV", i);
    SETS(t->spectyp, b);
    SETS(t->category, i % 2 ? "CAL" : "SCI"); /* says nothing unless usecategory */
  }
}

static bool hadArr(const oi_fits *oi, const char *n)
{
  return g_hash_table_lookup(oi->arrayHash, n) != NULL;
}

void add_array(oi_fits *oi, oi_array *t)
{
  oi->arrayList = g_list_append(oi->arrayList, t);
  oi->numArray++;
  if (!hadArr(oi, t->arrname))
    g_hash_table_insert(oi->arrayHash, t->arrname, t);
}
void add_wave(oi_fits *oi, oi_wavelength *t)
{
  oi->wavelengthList = g_list_append(oi->wavelengthList, t);
  oi->numWavelength++;
  if (!g_hash_table_lookup(oi->wavelengthHash, t->insname))
    g_hash_table_insert(oi->wavelengthHash, t->insname, t);
}
void add_corr(oi_fits *oi, oi_corr *t)
{
  oi->corrList = g_list_append(oi->corrList, t);
  oi->numCorr++;
  if (!g_hash_table_lookup(oi->corrHash, t->corrname))
    g_hash_table_insert(oi->corrHash, t->corrname, t);
}
void add_inspol(oi_fits *oi, oi_inspol *t)
{
  oi->inspolList = g_list_append(oi->inspolList, t);
  oi->numInspol++;
}
void add_vis(oi_fits *oi, oi_vis *t)
{
  oi->visList = g_list_append(oi->visList, t);
  oi->numVis++;
}
void add_vis2(oi_fits *oi, oi_vis2 *t)
{
  oi->vis2List = g_list_append(oi->vis2List, t);
  oi->numVis2++;
}
void add_t3(oi_fits *oi, oi_t3 *t)
{
  oi->t3List = g_list_append(oi->t3List, t);
  oi->numT3++;
}
void add_flux(oi_fits *oi, oi_flux *t)
{
  oi->fluxList = g_list_append(oi->fluxList, t);
  oi->numFlux++;
}

oi_array *ds_array(oi_fits *oi, const char *name, int nelem, int tag)
{
  oi_array *a = xalloc(sizeof(*a));
  a->revision = OI_REVN_V2_ARRAY;
  SETS(a->arrname, name);
  SETS(a->frame, "GEOCENTRIC");
  a->arrayx = 1000 + tag;
  a->arrayy = -2000.5 - tag;
  a->arrayz = 3000.25 + tag;
  a->nelement = nelem;
  a->elem = xalloc(nelem * sizeof(element));
  for (int i = 0; i < nelem; i++)
  {
    element *e = &a->elem[i];
    char b[20];
    snprintf(b, sizeof(b), "T%d_%d", tag, i + 1);
    SETS(e->tel_name, b);
    snprintf(b, sizeof(b), "S%d_%d", tag, i + 1);
    SETS(e->sta_name, b);
    e->sta_index = i + 1;
    e->diameter = 1.0f + 0.5f * i + tag;
    e->staxyz[0] = tv(tag, 20, i, 0);
    e->staxyz[1] = -tv(tag, 20, i, 1);
    e->staxyz[2] = tv(tag, 20, i, 2);
    e->fov = 0.125 * (i + 1) + tag;
    SETS(e->fovtype, i % 2 ? "RADIUS" : "FWHM");
  }
  add_array(oi, a);
  return a;
}

oi_wavelength *ds_wave(oi_fits *oi, const char *name, int nwave, int tag)
{
  oi_wavelength *w = xalloc(sizeof(*w));
  w->revision = OI_REVN_V2_WAVELENGTH;
  SETS(w->insname, name);
  w->nwave = nwave;
  w->eff_wave = xalloc(nwave * sizeof(float));
  w->eff_band = xalloc(nwave * sizeof(float));
  for (int i = 0; i < nwave; i++)
  {
    w->eff_wave[i] = (1.0f + 0.125f * (i + 1) + 0.01f * tag) * 1e-6f;
    w->eff_band[i] = (0.1f + 0.01f * i + 0.001f * tag) * 1e-6f;
  }
  add_wave(oi, w);
  return w;
}

oi_corr *ds_corr(oi_fits *oi, const char *name, int ndata, int ncorr, int tag)
{
  oi_corr *c = xalloc(sizeof(*c));
  c->revision = OI_REVN_V2_CORR;
  SETS(c->corrname, name);
  c->ndata = ndata;
  c->ncorr = ncorr;
  c->iindx = xalloc(ncorr * sizeof(int));
  c->jindx = xalloc(ncorr * sizeof(int));
  c->corr = xalloc(ncorr * sizeof(double));
  for (int i = 0; i < ncorr; i++)
  {
    c->iindx[i] = i + 1;
    c->jindx[i] = i + 2 + 70000 * (tag + 1);
    c->corr[i] = 1.0 / (3 + i + 7 * tag);
  }
  add_corr(oi, c);
  return c;
}

oi_inspol *ds_inspol(oi_fits *oi, const char *arr, const char *ins, long numrec,
                     int nwave, int tag)
{
  oi_inspol *p = xalloc(sizeof(*p));
  p->revision = OI_REVN_V2_INSPOL;
  SETS(p->date_obs, "2005-06-07");
  p->npol = 1 + tag % 2;
  SETS(p->arrname, arr);
  SETS(p->orient, "NORTH");
  SETS(p->model, "MODEL");
  p->numrec = numrec;
  p->nwave = nwave;
  p->record = xalloc(numrec * sizeof(oi_inspol_record));
  for (long i = 0; i < numrec; i++)
  {
    oi_inspol_record *r = &p->record[i];
    r->target_id = 1;
    SETS(r->insname, ins);
    r->mjd_obs = 50000 + i + tag * 0.25;
    r->mjd_end = 50000.5 + i + tag * 0.25;
    r->jxx = xalloc(nwave * sizeof(float complex));
    r->jyy = xalloc(nwave * sizeof(float complex));
    r->jxy = xalloc(nwave * sizeof(float complex));
    r->jyx = xalloc(nwave * sizeof(float complex));
    for (int k = 0; k < nwave; k++)
    {
      float b = (float)(1000 * (tag + 1) + 50 * i + k);
      r->jxx[k] = (b + 0.125f) + (b + 0.25f) * I;
      r->jyy[k] = (b + 0.375f) + (b + 0.5f) * I;
      r->jxy[k] = -(b + 0.625f) + (b + 0.75f) * I;
      r->jyx[k] = (b + 0.875f) - (b + 0.9375f) * I;
    }
    r->sta_index = 1 + i % 3;
  }
  add_inspol(oi, p);
  return p;
}

static double *dcol(int n, int tag, int f, long rec)
{
  double *d = xalloc(n * sizeof(double));
  for (int k = 0; k < n; k++)
    d[k] = tv(tag, f, rec, k);
  return d;
}

oi_vis *ds_vis(oi_fits *oi, const char *arr, const char *ins, const char *corr,
               long numrec, int nwave, int tag)
{
  oi_vis *v = xalloc(sizeof(*v));
  v->revision = OI_REVN_V2_VIS;
  SETS(v->date_obs, "2006-07-08");
  SETS(v->arrname, arr);
  SETS(v->insname, ins);
  SETS(v->corrname, corr);
  v->amporder = -1;
  v->phiorder = -1;
  v->numrec = numrec;
  v->nwave = nwave;
  v->record = xalloc(numrec * sizeof(oi_vis_record));
  for (long i = 0; i < numrec; i++)
  {
    oi_vis_record *r = &v->record[i];
    r->target_id = 1;
    r->time = 0.0;
    r->mjd = 51000 + i + 0.125;
    r->int_time = tv(tag, 1, i, 0);
    r->visamp = dcol(nwave, tag, 2, i);
    r->visamperr = dcol(nwave, tag, 3, i);
    r->visphi = dcol(nwave, tag, 4, i);
    r->visphierr = dcol(nwave, tag, 5, i);
    r->corrindx_visamp = *corr ? 100 * tag + 4 * (int)i + 1 : 0;
    r->corrindx_visphi = *corr ? 100 * tag + 4 * (int)i + 2 : 0;
    r->corrindx_rvis = *corr ? 100 * tag + 4 * (int)i + 3 : 0;
    r->corrindx_ivis = *corr ? 100 * tag + 4 * (int)i + 4 : 0;
    r->ucoord = tv(tag, 6, i, 0);
    r->vcoord = -tv(tag, 6, i, 1);
    r->sta_index[0] = 1 + i % 3;
    r->sta_index[1] = 1 + (i + 1) % 3;
    r->flag = xalloc(nwave);
    for (int k = 0; k < nwave; k++)
      r->flag[k] = (i + k) % 3 == 2;
  }
  add_vis(oi, v);
  return v;
}

void vis_complex(oi_vis *v, const char *unit, int tag)
{
  v->usecomplex = TRUE;
  SETS(v->complexunit, unit);
  for (long i = 0; i < v->numrec; i++)
  {
    oi_vis_record *r = &v->record[i];
    r->rvis = dcol(v->nwave, tag, 7, i);
    r->rviserr = dcol(v->nwave, tag, 8, i);
    r->ivis = dcol(v->nwave, tag, 9, i);
    r->iviserr = dcol(v->nwave, tag, 10, i);
  }
}

void vis_refmap(oi_vis *v, int tag)
{
  v->usevisrefmap = TRUE;
  for (long i = 0; i < v->numrec; i++)
  {
    oi_vis_record *r = &v->record[i];
    r->visrefmap = xalloc((size_t)v->nwave * v->nwave);
    for (int k = 0; k < v->nwave * v->nwave; k++)
      r->visrefmap[k] = ((tag + i * 5 + (long)k * k + k / v->nwave) % 3) == 1;
  }
}

oi_vis2 *ds_vis2(oi_fits *oi, const char *arr, const char *ins,
                 const char *corr, long numrec, int nwave, int tag)
{
  oi_vis2 *v = xalloc(sizeof(*v));
  v->revision = OI_REVN_V2_VIS2;
  SETS(v->date_obs, "2007-08-09");
  SETS(v->arrname, arr);
  SETS(v->insname, ins);
  SETS(v->corrname, corr);
  v->numrec = numrec;
  v->nwave = nwave;
  v->record = xalloc(numrec * sizeof(oi_vis2_record));
  for (long i = 0; i < numrec; i++)
  {
    oi_vis2_record *r = &v->record[i];
    r->target_id = 1;
    r->time = 0.0;
    r->mjd = 52000 + i + 0.25;
    r->int_time = tv(tag, 11, i, 0);
    r->vis2data = dcol(nwave, tag, 12, i);
    r->vis2err = dcol(nwave, tag, 13, i);
    r->corrindx_vis2data = *corr ? 100 * tag + (int)i + 30 : 0;
    r->ucoord = tv(tag, 14, i, 0);
    r->vcoord = -tv(tag, 14, i, 1);
    r->sta_index[0] = 1 + i % 3;
    r->sta_index[1] = 1 + (i + 1) % 3;
    r->flag = xalloc(nwave);
    for (int k = 0; k < nwave; k++)
      r->flag[k] = (i + k) % 3 == 1;
  }
  add_vis2(oi, v);
  return v;
}

oi_t3 *ds_t3(oi_fits *oi, const char *arr, const char *ins, const char *corr,
             long numrec, int nwave, int tag)
{
  oi_t3 *v = xalloc(sizeof(*v));
  v->revision = OI_REVN_V2_T3;
  SETS(v->date_obs, "2008-09-10");
  SETS(v->arrname, arr);
  SETS(v->insname, ins);
  SETS(v->corrname, corr);
  v->numrec = numrec;
  v->nwave = nwave;
  v->record = xalloc(numrec * sizeof(oi_t3_record));
  for (long i = 0; i < numrec; i++)
  {
    oi_t3_record *r = &v->record[i];
    r->target_id = 1;
    r->time = 0.0;
    r->mjd = 53000 + i + 0.5;
    r->int_time = tv(tag, 15, i, 0);
    r->t3amp = dcol(nwave, tag, 16, i);
    r->t3amperr = dcol(nwave, tag, 17, i);
    r->t3phi = dcol(nwave, tag, 18, i);
    r->t3phierr = dcol(nwave, tag, 19, i);
    r->corrindx_t3amp = *corr ? 100 * tag + 2 * (int)i + 50 : 0;
    r->corrindx_t3phi = *corr ? 100 * tag + 2 * (int)i + 51 : 0;
    r->u1coord = tv(tag, 20, i, 3);
    r->v1coord = -tv(tag, 20, i, 4);
    r->u2coord = tv(tag, 20, i, 5);
    r->v2coord = -tv(tag, 20, i, 6);
    r->sta_index[0] = 1 + i % 3;
    r->sta_index[1] = 1 + (i + 1) % 3;
    r->sta_index[2] = 1 + (i + 2) % 3;
    r->flag = xalloc(nwave);
    for (int k = 0; k < nwave; k++)
      r->flag[k] = (i + k) % 2 == 1;
  }
  add_t3(oi, v);
  return v;
}

oi_flux *ds_flux(oi_fits *oi, const char *arr, const char *ins,
                 const char *corr, long numrec, int nwave, int tag)
{
  oi_flux *v = xalloc(sizeof(*v));
  v->revision = OI_REVN_V2_FLUX;
  SETS(v->date_obs, "2009-10-11");
  SETS(v->arrname, arr);
  SETS(v->insname, ins);
  SETS(v->corrname, corr);
  v->fov = *arr ? 0.5 + tag : 0.25 + tag;
  SETS(v->fovtype, "FWHM");
  v->calstat = *arr ? 'U' : 'C';
  SETS(v->fluxunit, "Jy");
  v->numrec = numrec;
  v->nwave = nwave;
  v->record = xalloc(numrec * sizeof(oi_flux_record));
  for (long i = 0; i < numrec; i++)
  {
    oi_flux_record *r = &v->record[i];
    r->target_id = 1;
    r->mjd = 54000 + i + 0.75;
    r->int_time = tv(tag, 21, i, 0);
    r->fluxdata = dcol(nwave, tag, 22, i);
    r->fluxerr = dcol(nwave, tag, 23, i);
    r->corrindx_fluxdata = *corr ? 100 * tag + (int)i + 70 : 0;
    r->sta_index = *arr ? 1 + i % 3 : -1;
    r->flag = xalloc(nwave);
    for (int k = 0; k < nwave; k++)
      r->flag[k] = (i + k) % 3 == 0;
  }
  add_flux(oi, v);
  return v;
}

void ds_downgrade(oi_fits *oi)
{
  oi->targets.revision = 1;
  for (GList *l = oi->arrayList; l; l = l->next)
    ((oi_array *)l->data)->revision = 1;
  for (GList *l = oi->wavelengthList; l; l = l->next)
    ((oi_wavelength *)l->data)->revision = 1;
  for (GList *l = oi->visList; l; l = l->next)
    ((oi_vis *)l->data)->revision = 1;
  for (GList *l = oi->vis2List; l; l = l->next)
    ((oi_vis2 *)l->data)->revision = 1;
  for (GList *l = oi->t3List; l; l = l->next)
    ((oi_t3 *)l->data)->revision = 1;
}

/* ------------------------------------------------------------------ */
oi_array *cl_array(const oi_array *a)
{
  oi_array *b = xdup(a, sizeof(*a));
  b->elem = xdup(a->elem, a->nelement * sizeof(element));
  return b;
}
oi_wavelength *cl_wave(const oi_wavelength *a)
{
  oi_wavelength *b = xdup(a, sizeof(*a));
  b->eff_wave = xdup(a->eff_wave, a->nwave * sizeof(float));
  b->eff_band = xdup(a->eff_band, a->nwave * sizeof(float));
  return b;
}
oi_corr *cl_corr(const oi_corr *a)
{
  oi_corr *b = xdup(a, sizeof(*a));
  b->iindx = xdup(a->iindx, a->ncorr * sizeof(int));
  b->jindx = xdup(a->jindx, a->ncorr * sizeof(int));
  b->corr = xdup(a->corr, a->ncorr * sizeof(double));
  return b;
}
#define CD(f) r->f = xdup(s->f, n * sizeof(*r->f))
oi_inspol *cl_inspol(const oi_inspol *a)
{
  oi_inspol *b = xdup(a, sizeof(*a));
  size_t n = a->nwave;
  b->record = xdup(a->record, a->numrec * sizeof(*a->record));
  for (long i = 0; i < a->numrec; i++)
  {
    oi_inspol_record *r = &b->record[i];
    const oi_inspol_record *s = &a->record[i];
    CD(jxx), CD(jyy), CD(jxy), CD(jyx);
  }
  return b;
}
oi_vis *cl_vis(const oi_vis *a)
{
  oi_vis *b = xdup(a, sizeof(*a));
  size_t n = a->nwave;
  b->record = xdup(a->record, a->numrec * sizeof(*a->record));
  for (long i = 0; i < a->numrec; i++)
  {
    oi_vis_record *r = &b->record[i];
    const oi_vis_record *s = &a->record[i];
    CD(visamp), CD(visamperr), CD(visphi), CD(visphierr), CD(flag);
    if (a->usevisrefmap)
      r->visrefmap = xdup(s->visrefmap, n * n);
    else
      r->visrefmap = NULL;
    if (a->usecomplex)
    {
      CD(rvis), CD(rviserr), CD(ivis), CD(iviserr);
    }
    else
      r->rvis = r->rviserr = r->ivis = r->iviserr = NULL;
  }
  return b;
}
oi_vis2 *cl_vis2(const oi_vis2 *a)
{
  oi_vis2 *b = xdup(a, sizeof(*a));
  size_t n = a->nwave;
  b->record = xdup(a->record, a->numrec * sizeof(*a->record));
  for (long i = 0; i < a->numrec; i++)
  {
    oi_vis2_record *r = &b->record[i];
    const oi_vis2_record *s = &a->record[i];
    CD(vis2data), CD(vis2err), CD(flag);
  }
  return b;
}
oi_t3 *cl_t3(const oi_t3 *a)
{
  oi_t3 *b = xdup(a, sizeof(*a));
  size_t n = a->nwave;
  b->record = xdup(a->record, a->numrec * sizeof(*a->record));
  for (long i = 0; i < a->numrec; i++)
  {
    oi_t3_record *r = &b->record[i];
    const oi_t3_record *s = &a->record[i];
    CD(t3amp), CD(t3amperr), CD(t3phi), CD(t3phierr), CD(flag);
  }
  return b;
}
oi_flux *cl_flux(const oi_flux *a)
{
  oi_flux *b = xdup(a, sizeof(*a));
  size_t n = a->nwave;
  b->record = xdup(a->record, a->numrec * sizeof(*a->record));
  for (long i = 0; i < a->numrec; i++)
  {
    oi_flux_record *r = &b->record[i];
    const oi_flux_record *s = &a->record[i];
    CD(fluxdata), CD(fluxerr), CD(flag);
  }
  return b;
}
void cl_target(const oi_target *a, oi_target *b)
{
  *b = *a;
  b->targ = xdup(a->targ, a->ntarget * sizeof(target));
}
oi_fits *ds_clone(const oi_fits *o)
{
  oi_fits *oi = xalloc(sizeof(*oi));
  reg(oi);
  init_oi_fits(oi);
  oi->header = o->header;
  cl_target(&o->targets, &oi->targets);
  for (GList *l = o->arrayList; l; l = l->next)
    add_array(oi, cl_array(l->data));
  for (GList *l = o->wavelengthList; l; l = l->next)
    add_wave(oi, cl_wave(l->data));
  for (GList *l = o->corrList; l; l = l->next)
    add_corr(oi, cl_corr(l->data));
  for (GList *l = o->inspolList; l; l = l->next)
    add_inspol(oi, cl_inspol(l->data));
  for (GList *l = o->visList; l; l = l->next)
    add_vis(oi, cl_vis(l->data));
  for (GList *l = o->vis2List; l; l = l->next)
    add_vis2(oi, cl_vis2(l->data));
  for (GList *l = o->t3List; l; l = l->next)
    add_t3(oi, cl_t3(l->data));
  for (GList *l = o->fluxList; l; l = l->next)
    add_flux(oi, cl_flux(l->data));
  return oi;
}

void fr_array(oi_array *a)
{
  free(a->elem);
  free(a);
}
void fr_wave(oi_wavelength *w)
{
  free(w->eff_wave);
  free(w->eff_band);
  free(w);
}
void fr_corr(oi_corr *c)
{
  free(c->iindx);
  free(c->jindx);
  free(c->corr);
  free(c);
}
void fr_inspol(oi_inspol *p)
{
  for (long i = 0; i < p->numrec; i++)
  {
    free(p->record[i].jxx);
    free(p->record[i].jyy);
    free(p->record[i].jxy);
    free(p->record[i].jyx);
  }
  free(p->record);
  free(p);
}
void fr_vis(oi_vis *v)
{
  for (long i = 0; i < v->numrec; i++)
  {
    oi_vis_record *r = &v->record[i];
    free(r->visamp), free(r->visamperr), free(r->visphi), free(r->visphierr);
    if (v->usevisrefmap) free(r->visrefmap);
    if (v->usecomplex)
      free(r->rvis), free(r->rviserr), free(r->ivis), free(r->iviserr);
    free(r->flag);
  }
  free(v->record);
  free(v);
}
void fr_vis2(oi_vis2 *v)
{
  for (long i = 0; i < v->numrec; i++)
  {
    oi_vis2_record *r = &v->record[i];
    free(r->vis2data), free(r->vis2err), free(r->flag);
  }
  free(v->record);
  free(v);
}
void fr_t3(oi_t3 *v)
{
  for (long i = 0; i < v->numrec; i++)
  {
    oi_t3_record *r = &v->record[i];
    free(r->t3amp), free(r->t3amperr), free(r->t3phi), free(r->t3phierr),
        free(r->flag);
  }
  free(v->record);
  free(v);
}
void fr_flux(oi_flux *v)
{
  for (long i = 0; i < v->numrec; i++)
  {
    oi_flux_record *r = &v->record[i];
    free(r->fluxdata), free(r->fluxerr), free(r->flag);
  }
  free(v->record);
  free(v);
}
void ds_free(oi_fits *oi)
{
  ds_keep(oi);
  g_hash_table_destroy(oi->arrayHash);
  g_hash_table_destroy(oi->wavelengthHash);
  g_hash_table_destroy(oi->corrHash);
  free(oi->targets.targ);
  g_list_free_full(oi->arrayList, (GDestroyNotify)fr_array);
  g_list_free_full(oi->wavelengthList, (GDestroyNotify)fr_wave);
  g_list_free_full(oi->corrList, (GDestroyNotify)fr_corr);
  g_list_free_full(oi->inspolList, (GDestroyNotify)fr_inspol);
  g_list_free_full(oi->visList, (GDestroyNotify)fr_vis);
  g_list_free_full(oi->vis2List, (GDestroyNotify)fr_vis2);
  g_list_free_full(oi->t3List, (GDestroyNotify)fr_t3);
  g_list_free_full(oi->fluxList, (GDestroyNotify)fr_flux);
  free(oi);
}

/* ------------------------------------------------------------------ */
void ser_init(ser *s, int text)
{
  memset(s, 0, sizeof(*s));
  s->text = text;
}
void ser_done(ser *s)
{
  free(s->w);
  free(s->txt);
}
static void put(ser *s, uint64_t v)
{
  if (s->n == s->cap)
  {
    s->cap = s->cap ? 2 * s->cap : 4096;
    s->w = realloc(s->w, s->cap * sizeof(uint64_t));
  }
  s->w[s->n++] = v;
}
static void line(ser *s, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
static void line(ser *s, const char *fmt, ...)
{
  char b[1200];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof(b) - 2) n = sizeof(b) - 2;
  b[n++] = '\n';
  if (s->tn + n + 1 > s->tcap)
  {
    s->tcap = s->tcap ? 2 * s->tcap + n : 65536;
    s->txt = realloc(s->txt, s->tcap);
  }
  memcpy(s->txt + s->tn, b, n);
  s->tn += n;
  s->txt[s->tn] = 0;
}
static const char *pfx = "";
static int pi1;
static void sI(ser *s, const char *f, long rec, int ch, long v)
{
  put(s, (uint64_t)v);
  if (s->text)
    line(s, "%s[%d].rec%ld.%s[%d] = %ld", pfx, pi1, rec, f, ch, v);
}
static void sD(ser *s, const char *f, long rec, int ch, double v)
{
  uint64_t u;
  if (v != v)
    u = 0x7ff8000000000000ULL;
  else
    memcpy(&u, &v, 8);
  put(s, u);
  if (s->text)
    line(s, "%s[%d].rec%ld.%s[%d] = %.17g", pfx, pi1, rec, f, ch, v);
}
static void sK(ser *s, const char *f, double v, int flags)
{ /* keyword double */
  if ((flags & SER_KW15) && v == v && !isinf(v))
  {
    char b[64];
    snprintf(b, sizeof(b), "%.14E", v);
    v = strtod(b, NULL);
    if (v == 0) v = 0.0; /* sign of zero is not kept in a keyword */
  }
  sD(s, f, -1, 0, v);
}
static void sS(ser *s, const char *f, long rec, const char *v)
{
  size_t n = strlen(v);
  while (n > 0 && v[n - 1] == ' ')
    n--; /* trailing blanks are not significant in FITS */
  put(s, n);
  for (size_t i = 0; i < n; i += 8)
  {
    uint64_t u = 0;
    memcpy(&u, v + i, n - i < 8 ? n - i : 8);
    put(s, u);
  }
  if (s->text) line(s, "%s[%d].rec%ld.%s = '%.*s'", pfx, pi1, rec, f, (int)n, v);
}
static void sRev(ser *s, int rev, int flags)
{
  if (!(flags & SER_NOREV)) sI(s, "OI_REVN", -1, 0, rev);
}
void ser_header(ser *s, const oi_header *h, int flags)
{
  pfx = "PRIMARY";
  pi1 = 0;
  sS(s, "ORIGIN", -1, h->origin);
  if (!(flags & SER_NODATE)) sS(s, "DATE", -1, h->date);
  sS(s, "DATE-OBS", -1, h->date_obs);
  sS(s, "CONTENT", -1, h->content);
  sS(s, "TELESCOP", -1, h->telescop);
  sS(s, "INSTRUME", -1, h->instrume);
  sS(s, "OBSERVER", -1, h->observer);
  sS(s, "INSMODE", -1, h->insmode);
  sS(s, "OBJECT", -1, h->object);
  sS(s, "REFERENC", -1, h->referenc);
  sS(s, "AUTHOR", -1, h->author);
  sS(s, "PROG_ID", -1, h->prog_id);
  sS(s, "PROCSOFT", -1, h->procsoft);
  sS(s, "OBSTECH", -1, h->obstech);
}
void ser_target(ser *s, const oi_target *t, int flags)
{
  pfx = "OI_TARGET";
  pi1 = 0;
  sRev(s, t->revision, flags);
  sI(s, "ntarget", -1, 0, t->ntarget);
  if (t->ntarget > 0) sI(s, "usecategory", -1, 0, t->usecategory != 0);
  for (int i = 0; i < t->ntarget; i++)
  {
    const target *g = &t->targ[i];
    sI(s, "TARGET_ID", i, 0, g->target_id);
    sS(s, "TARGET", i, g->target);
    sD(s, "RAEP0", i, 0, g->raep0);
    sD(s, "DECEP0", i, 0, g->decep0);
    sD(s, "EQUINOX", i, 0, g->equinox);
    sD(s, "RA_ERR", i, 0, g->ra_err);
    sD(s, "DEC_ERR", i, 0, g->dec_err);
    sD(s, "SYSVEL", i, 0, g->sysvel);
    sS(s, "VELTYP", i, g->veltyp);
    sS(s, "VELDEF", i, g->veldef);
    sD(s, "PMRA", i, 0, g->pmra);
    sD(s, "PMDEC", i, 0, g->pmdec);
    sD(s, "PMRA_ERR", i, 0, g->pmra_err);
    sD(s, "PMDEC_ERR", i, 0, g->pmdec_err);
    sD(s, "PARALLAX", i, 0, g->parallax);
    sD(s, "PARA_ERR", i, 0, g->para_err);
    sS(s, "SPECTYP", i, g->spectyp);
    if (t->usecategory) sS(s, "CATEGORY", i, g->category);
  }
}
void ser_array(ser *s, const oi_array *a, int idx, int flags)
{
  pfx = "OI_ARRAY";
  pi1 = idx;
  sRev(s, a->revision, flags);
  sS(s, "ARRNAME", -1, a->arrname);
  sS(s, "FRAME", -1, a->frame);
  sK(s, "ARRAYX", a->arrayx, flags);
  sK(s, "ARRAYY", a->arrayy, flags);
  sK(s, "ARRAYZ", a->arrayz, flags);
  sI(s, "nelement", -1, 0, a->nelement);
  for (int i = 0; i < a->nelement; i++)
  {
    const element *e = &a->elem[i];
    sS(s, "TEL_NAME", i, e->tel_name);
    sS(s, "STA_NAME", i, e->sta_name);
    sI(s, "STA_INDEX", i, 0, e->sta_index);
    sD(s, "DIAMETER", i, 0, e->diameter);
    for (int k = 0; k < 3; k++)
      sD(s, "STAXYZ", i, k, e->staxyz[k]);
    sD(s, "FOV", i, 0, e->fov);
    sS(s, "FOVTYPE", i, e->fovtype);
  }
}
void ser_wave(ser *s, const oi_wavelength *w, int idx, int flags)
{
  pfx = "OI_WAVELENGTH";
  pi1 = idx;
  sRev(s, w->revision, flags);
  sS(s, "INSNAME", -1, w->insname);
  sI(s, "nwave", -1, 0, w->nwave);
  for (int i = 0; i < w->nwave; i++)
  {
    sD(s, "EFF_WAVE", i, 0, w->eff_wave[i]);
    sD(s, "EFF_BAND", i, 0, w->eff_band[i]);
  }
}
void ser_corr(ser *s, const oi_corr *c, int idx, int flags)
{
  pfx = "OI_CORR";
  pi1 = idx;
  sRev(s, c->revision, flags);
  sS(s, "CORRNAME", -1, c->corrname);
  sI(s, "NDATA", -1, 0, c->ndata);
  sI(s, "ncorr", -1, 0, c->ncorr);
  for (int i = 0; i < c->ncorr; i++)
  {
    sI(s, "IINDX", i, 0, c->iindx[i]);
    sI(s, "JINDX", i, 0, c->jindx[i]);
    sD(s, "CORR", i, 0, c->corr[i]);
  }
}
static void sC(ser *s, const char *f, long rec, int ch, float complex z)
{
  char b[32];
  sD(s, f, rec, ch, crealf(z));
  snprintf(b, sizeof(b), "%s.im", f);
  sD(s, b, rec, ch, cimagf(z));
}
void ser_inspol(ser *s, const oi_inspol *p, int idx, int flags)
{
  pfx = "OI_INSPOL";
  pi1 = idx;
  sRev(s, p->revision, flags);
  sS(s, "DATE-OBS", -1, p->date_obs);
  sI(s, "NPOL", -1, 0, p->npol);
  if (!(flags & SER_NODATAREF)) sS(s, "ARRNAME", -1, p->arrname);
  sS(s, "ORIENT", -1, p->orient);
  sS(s, "MODEL", -1, p->model);
  sI(s, "numrec", -1, 0, p->numrec);
  sI(s, "nwave", -1, 0, p->nwave);
  for (long i = 0; i < p->numrec; i++)
  {
    const oi_inspol_record *r = &p->record[i];
    if (!(flags & SER_NODATAREF))
    {
      sI(s, "TARGET_ID", i, 0, r->target_id);
      sS(s, "INSNAME", i, r->insname);
    }
    sD(s, "MJD_OBS", i, 0, r->mjd_obs);
    sD(s, "MJD_END", i, 0, r->mjd_end);
    sI(s, "STA_INDEX", i, 0, r->sta_index);
    for (int k = 0; k < p->nwave; k++)
    {
      sC(s, "JXX", i, k, r->jxx[k]);
      sC(s, "JYY", i, k, r->jyy[k]);
      sC(s, "JXY", i, k, r->jxy[k]);
      sC(s, "JYX", i, k, r->jyx[k]);
    }
  }
}
#define HEAD(t)                                                                \
  sRev(s, (t)->revision, flags);                                               \
  sS(s, "DATE-OBS", -1, (t)->date_obs);                                        \
  if (!(flags & SER_NODATAREF))                                                \
  {                                                                            \
    sS(s, "ARRNAME", -1, (t)->arrname);                                        \
    sS(s, "INSNAME", -1, (t)->insname);                                        \
    sS(s, "CORRNAME", -1, (t)->corrname);                                      \
  }                                                                            \
  bool cu = (t)->corrname[0] != 0;                                             \
  sI(s, "numrec", -1, 0, (t)->numrec);                                         \
  sI(s, "nwave", -1, 0, (t)->nwave);                                           \
  (void)cu
#define COL(F, f)                                                              \
  for (int k = 0; k < v->nwave; k++)                                           \
  sD(s, F, i, k, r->f[k])
#define RECHEAD                                                                \
  if (!(flags & SER_NODATAREF)) sI(s, "TARGET_ID", i, 0, r->target_id)

void ser_vis(ser *s, const oi_vis *v, int idx, int flags)
{
  pfx = "OI_VIS";
  pi1 = idx;
  HEAD(v);
  sS(s, "AMPTYP", -1, v->amptyp);
  sS(s, "PHITYP", -1, v->phityp);
  sI(s, "AMPORDER", -1, 0, v->amporder);
  sI(s, "PHIORDER", -1, 0, v->phiorder);
  sI(s, "usevisrefmap", -1, 0, v->usevisrefmap != 0);
  sI(s, "usecomplex", -1, 0, v->usecomplex != 0);
  if (v->usecomplex) sS(s, "complexunit", -1, v->complexunit);
  sS(s, "ampunit", -1, v->ampunit);
  for (long i = 0; i < v->numrec; i++)
  {
    const oi_vis_record *r = &v->record[i];
    RECHEAD;
    if (!(flags & SER_NOTIME)) sD(s, "TIME", i, 0, r->time);
    sD(s, "MJD", i, 0, r->mjd);
    sD(s, "INT_TIME", i, 0, r->int_time);
    COL("VISAMP", visamp);
    COL("VISAMPERR", visamperr);
    COL("VISPHI", visphi);
    COL("VISPHIERR", visphierr);
    if (cu)
    {
      sI(s, "CORRINDX_VISAMP", i, 0, r->corrindx_visamp);
      sI(s, "CORRINDX_VISPHI", i, 0, r->corrindx_visphi);
      if (v->usecomplex)
      {
        sI(s, "CORRINDX_RVIS", i, 0, r->corrindx_rvis);
        sI(s, "CORRINDX_IVIS", i, 0, r->corrindx_ivis);
      }
    }
    if (v->usevisrefmap)
      for (int k = 0; k < v->nwave * v->nwave; k++)
        sI(s, "VISREFMAP", i, k, r->visrefmap[k] != 0);
    if (v->usecomplex)
    {
      COL("RVIS", rvis);
      COL("RVISERR", rviserr);
      COL("IVIS", ivis);
      COL("IVISERR", iviserr);
    }
    sD(s, "UCOORD", i, 0, r->ucoord);
    sD(s, "VCOORD", i, 0, r->vcoord);
    sI(s, "STA_INDEX", i, 0, r->sta_index[0]);
    sI(s, "STA_INDEX", i, 1, r->sta_index[1]);
    for (int k = 0; k < v->nwave; k++)
      sI(s, "FLAG", i, k, r->flag[k] != 0);
  }
}
void ser_vis2(ser *s, const oi_vis2 *v, int idx, int flags)
{
  pfx = "OI_VIS2";
  pi1 = idx;
  HEAD(v);
  for (long i = 0; i < v->numrec; i++)
  {
    const oi_vis2_record *r = &v->record[i];
    RECHEAD;
    if (!(flags & SER_NOTIME)) sD(s, "TIME", i, 0, r->time);
    sD(s, "MJD", i, 0, r->mjd);
    sD(s, "INT_TIME", i, 0, r->int_time);
    COL("VIS2DATA", vis2data);
    COL("VIS2ERR", vis2err);
    if (cu) sI(s, "CORRINDX_VIS2DATA", i, 0, r->corrindx_vis2data);
    sD(s, "UCOORD", i, 0, r->ucoord);
    sD(s, "VCOORD", i, 0, r->vcoord);
    sI(s, "STA_INDEX", i, 0, r->sta_index[0]);
    sI(s, "STA_INDEX", i, 1, r->sta_index[1]);
    for (int k = 0; k < v->nwave; k++)
      sI(s, "FLAG", i, k, r->flag[k] != 0);
  }
}
void ser_t3(ser *s, const oi_t3 *v, int idx, int flags)
{
  pfx = "OI_T3";
  pi1 = idx;
  HEAD(v);
  for (long i = 0; i < v->numrec; i++)
  {
    const oi_t3_record *r = &v->record[i];
    RECHEAD;
    if (!(flags & SER_NOTIME)) sD(s, "TIME", i, 0, r->time);
    sD(s, "MJD", i, 0, r->mjd);
    sD(s, "INT_TIME", i, 0, r->int_time);
    COL("T3AMP", t3amp);
    COL("T3AMPERR", t3amperr);
    COL("T3PHI", t3phi);
    COL("T3PHIERR", t3phierr);
    if (cu)
    {
      sI(s, "CORRINDX_T3AMP", i, 0, r->corrindx_t3amp);
      sI(s, "CORRINDX_T3PHI", i, 0, r->corrindx_t3phi);
    }
    sD(s, "U1COORD", i, 0, r->u1coord);
    sD(s, "V1COORD", i, 0, r->v1coord);
    sD(s, "U2COORD", i, 0, r->u2coord);
    sD(s, "V2COORD", i, 0, r->v2coord);
    for (int k = 0; k < 3; k++)
      sI(s, "STA_INDEX", i, k, r->sta_index[k]);
    for (int k = 0; k < v->nwave; k++)
      sI(s, "FLAG", i, k, r->flag[k] != 0);
  }
}
void ser_flux(ser *s, const oi_flux *v, int idx, int flags)
{
  pfx = "OI_FLUX";
  pi1 = idx;
  HEAD(v);
  sK(s, "FOV", v->fov, flags);
  sS(s, "FOVTYPE", -1, v->fovtype);
  sI(s, "CALSTAT", -1, 0, v->calstat);
  sS(s, "fluxunit", -1, v->fluxunit);
  for (long i = 0; i < v->numrec; i++)
  {
    const oi_flux_record *r = &v->record[i];
    RECHEAD;
    sD(s, "MJD", i, 0, r->mjd);
    sD(s, "INT_TIME", i, 0, r->int_time);
    COL("FLUXDATA", fluxdata);
    COL("FLUXERR", fluxerr);
    if (cu) sI(s, "CORRINDX_FLUXDATA", i, 0, r->corrindx_fluxdata);
    sI(s, "STA_INDEX", i, 0, r->sta_index);
    for (int k = 0; k < v->nwave; k++)
      sI(s, "FLAG", i, k, r->flag[k] != 0);
  }
}
static void count(ser *s, const char *f, int n)
{
  pfx = f;
  pi1 = -1;
  sI(s, "count", -1, 0, n);
}
void ser_fits(ser *s, const oi_fits *o, int flags)
{
  GList *l;
  int i;
  if (!(flags & (SER_NOHEADER | SER_ONLYDATA)))
    ser_header(s, &o->header, flags);
  if (!(flags & SER_ONLYDATA))
  {
    ser_target(s, &o->targets, flags);
    count(s, "OI_ARRAY", o->numArray);
    for (l = o->arrayList, i = 0; l; l = l->next, i++)
      ser_array(s, l->data, i, flags);
    count(s, "OI_WAVELENGTH", o->numWavelength);
    for (l = o->wavelengthList, i = 0; l; l = l->next, i++)
      ser_wave(s, l->data, i, flags);
    count(s, "OI_CORR", o->numCorr);
    for (l = o->corrList, i = 0; l; l = l->next, i++)
      ser_corr(s, l->data, i, flags);
    count(s, "OI_INSPOL", o->numInspol);
    for (l = o->inspolList, i = 0; l; l = l->next, i++)
      ser_inspol(s, l->data, i, flags);
  }
  count(s, "OI_VIS", o->numVis);
  for (l = o->visList, i = 0; l; l = l->next, i++)
    ser_vis(s, l->data, i, flags);
  count(s, "OI_VIS2", o->numVis2);
  for (l = o->vis2List, i = 0; l; l = l->next, i++)
    ser_vis2(s, l->data, i, flags);
  count(s, "OI_T3", o->numT3);
  for (l = o->t3List, i = 0; l; l = l->next, i++)
    ser_t3(s, l->data, i, flags);
  count(s, "OI_FLUX", o->numFlux);
  for (l = o->fluxList, i = 0; l; l = l->next, i++)
    ser_flux(s, l->data, i, flags);
}
uint64_t ds_hash(const oi_fits *o, int flags)
{
  ser s;
  ser_init(&s, 0);
  ser_fits(&s, o, flags);
  uint64_t h = mc_hash(s.w, s.n * 8, 1);
  ser_done(&s);
  return h;
}
int ser_same(const ser *a, const ser *b)
{
  return a->n == b->n && memcmp(a->w, b->w, a->n * 8) == 0;
}
void ser_diff(const ser *a, const ser *b, char *out, size_t cap)
{
  const char *p = a->txt ? a->txt : "", *q = b->txt ? b->txt : "";
  while (*p && *q)
  {
    size_t n = strcspn(p, "\n"), m = strcspn(q, "\n");
    if (n != m || memcmp(p, q, n))
    {
      snprintf(out, cap, "expected '%.*s', got '%.*s'", (int)(n > 300 ? 300 : n),
               p, (int)(m > 300 ? 300 : m), q);
      return;
    }
    p += n + 1;
    q += m + 1;
  }
  snprintf(out, cap, "expected '%.*s', got '%.*s' (bits or tail differ)",
           (int)strcspn(p, "\n"), p, (int)strcspn(q, "\n"), q);
}
int ds_equal(const oi_fits *a, const oi_fits *b, int flags, char *diff,
             size_t cap)
{
  ser x, y;
  ser_init(&x, 0), ser_init(&y, 0);
  ser_fits(&x, a, flags), ser_fits(&y, b, flags);
  int r = ser_same(&x, &y);
  ser_done(&x), ser_done(&y);
  if (!r && diff)
  {
    ser_init(&x, 1), ser_init(&y, 1);
    ser_fits(&x, a, flags), ser_fits(&y, b, flags);
    ser_diff(&x, &y, diff, cap);
    ser_done(&x), ser_done(&y);
  }
  return r;
}
void ds_container(const oi_fits *o, const char *ctx)
{
#define CNT(n, l)                                                              \
  if ((int)g_list_length(o->l) != o->n)                                        \
  mc_fail("%s: " #n " is %d but the list has %d entries", ctx, o->n,           \
          (int)g_list_length(o->l))
  CNT(numArray, arrayList);
  CNT(numWavelength, wavelengthList);
  CNT(numCorr, corrList);
  CNT(numInspol, inspolList);
  CNT(numVis, visList);
  CNT(numVis2, vis2List);
  CNT(numT3, t3List);
  CNT(numFlux, fluxList);
}
void ds_expect(const oi_fits *want, const oi_fits *got, int flags,
               const char *ctx)
{
  char d[2000];
  ds_container(got, ctx);
  if (!ds_equal(want, got, flags, d, sizeof(d))) mc_fail("%s: %s", ctx, d);
}

/* ------------------------------------------------------------------ */
const char *mc_path(const char *name)
{
  static char b[8][700];
  static int k;
  k = (k + 1) % 8;
  snprintf(b[k], sizeof(b[k]), "%s/%s", mc_dir, name);
  return b[k];
}
bool file_exists(const char *p)
{
  return access(p, F_OK) == 0;
}
char *slurp(const char *p, size_t *n)
{
  FILE *f = fopen(p, "rb");
  if (!f) return NULL;
  fseek(f, 0, SEEK_END);
  long k = ftell(f);
  rewind(f);
  char *b = malloc(k + 1);
  if (fread(b, 1, k, f) != (size_t)k) abort();
  b[k] = 0;
  fclose(f);
  if (n) *n = k;
  return b;
}
void spew(const char *p, const void *b, size_t n)
{
  FILE *f = fopen(p, "wb");
  if (!f || fwrite(b, 1, n, f) != n) abort();
  fclose(f);
}
