#include "data.h"
#include <float.h>
#include <limits.h>

oi_fits *ds_rich(void)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, true);
  ds_array(oi, "ARR0", 3, 0);
  ds_array(oi, "ARR1", 2, 1);
  ds_wave(oi, "INS0", 2, 0);
  ds_wave(oi, "INS1", 3, 1);
  ds_corr(oi, "COR0", 50, 3, 0);
  ds_corr(oi, "COR1", 60, 2, 1);
  ds_inspol(oi, "ARR0", "INS0", 2, 2, 0);
  ds_inspol(oi, "ARR1", "INS1", 1, 3, 1);
  oi_vis *v = ds_vis(oi, "ARR0", "INS0", "COR0", 2, 2, 1);
  SETS(v->amptyp, "correlated flux");
  SETS(v->phityp, "differential");
  SETS(v->ampunit, "Jy");
  v->amporder = 2;
  v->phiorder = 3;
  vis_refmap(v, 1);
  vis_complex(v, "Jy", 1);
  v->record[1].target_id = 2;
  v = ds_vis(oi, "ARR1", "INS1", "", 1, 3, 2);
  SETS(v->amptyp, "absolute");
  SETS(v->phityp, "absolute");
  ds_vis2(oi, "ARR0", "INS0", "COR0", 2, 2, 3);
  ds_vis2(oi, "ARR1", "INS1", "", 1, 3, 4);
  ds_t3(oi, "ARR0", "INS0", "COR1", 2, 2, 5);
  ds_t3(oi, "ARR1", "INS1", "", 1, 3, 6);
  ds_flux(oi, "ARR0", "INS0", "COR1", 2, 2, 7);
  ds_flux(oi, "", "INS1", "", 1, 3, 8);
  return oi;
}

oi_fits *ds_small(void)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, false);
  ds_array(oi, "ARR0", 3, 0);
  ds_wave(oi, "INS0", 2, 0);
  ds_corr(oi, "COR0", 50, 3, 0);
  ds_inspol(oi, "ARR0", "INS0", 2, 2, 0);
  ds_vis(oi, "ARR0", "INS0", "", 2, 2, 1);
  ds_vis2(oi, "ARR0", "INS0", "", 2, 2, 3);
  ds_t3(oi, "ARR0", "INS0", "", 2, 2, 5);
  ds_flux(oi, "ARR0", "INS0", "", 2, 2, 7);
  return oi;
}

static const char *const amptyps[] = {"absolute", "", "differential",
                                      "correlated flux", "not standard", "correlated"};
static const char *const phityps[] = {"differential", "", "absolute",
                                      "not standard"};

/* table names of a few, one or the greatest number of characters */
static void table_name(char *b, size_t cap, int style, const char *prefix, int i)
{
  if (style == 1) snprintf(b, cap, "%c", prefix[0] + i);
  else if (style == 2)
    snprintf(b, cap, "%s b-c.d_e f-g.h_i j-k.l_m n-o.p_q r-s.t_u v-w.x_y z-A.B_C D-E.F-G%d", prefix, i);
  else snprintf(b, cap, "%s%d", prefix, i);
}

oi_fits *ds_gen(bool zeros)
{
  static const int nrecs[] = {2, 1, 3, 7, 0};
  static const int nwaves[] = {2, 1, 3, 11};
  static const int ntab[] = {1, 0, 2, 3};
  char b[80];
  int z = zeros ? 5 : 4;
  oi_fits *oi = ds_new();
  /* targets */
  static const int ntg[] = {2, 1, 3, 12, 0};
  ds_targets(oi, ntg[mc_dev(z, "ntarget")], mc_dev(2, "category"));
  if (oi->targets.ntarget && mc_dev(2, "target-ids"))
    for (int i = 0; i < oi->targets.ntarget; i++)
      oi->targets.targ[i].target_id = 32767 - 3 * i;
  int tid = oi->targets.ntarget
                ? oi->targets.targ[oi->targets.ntarget - 1].target_id
                : 1;
  /* support tables */
  int style = mc_dev(3, "name-style");
  int nA = ntab[mc_dev(4, "n-array")];
  int nW = 1 + mc_dev(3, "n-wave");
  int nC = ntab[mc_dev(4, "n-corr")];
  int nP = nA ? ntab[mc_dev(4, "n-inspol")] : 0;
  int nw[3];
  for (int i = 0; i < nA; i++)
  {
    static const int ne[] = {3, 1, 9, 2, 0};
    table_name(b, sizeof(b), style, "ARR", i);
    oi_array *a = ds_array(oi, b, ne[mc_dev(z, "nelement")], i);
    if (i == 0 && mc_dev(2, "frame")) SETS(a->frame, "SKY");
  }
  for (int i = 0; i < nW; i++)
  {
    table_name(b, sizeof(b), style, "INS", i);
    nw[i] = nwaves[mc_dev(4, "nwave")];
    ds_wave(oi, b, nw[i], i);
  }
  for (int i = 0; i < nC; i++)
  {
    static const int nc[] = {3, 1, 20, 2, 0};
    table_name(b, sizeof(b), style, "COR", i);
    ds_corr(oi, b, 40 + i, nc[mc_dev(z, "ncorr")], i);
  }
  for (int i = 0; i < nP; i++)
  {
    oi_inspol *p = ds_inspol(oi, ((oi_array *)NTH(oi->arrayList, i % nA))->arrname,
                             ((oi_wavelength *)NTH(oi->wavelengthList, i % nW))
                                 ->insname,
                             nrecs[mc_dev(z, "inspol-rec")], nw[i % nW], i);
    if (p->numrec && mc_dev(2, "inspol-target")) p->record[0].target_id = tid;
  }
  const char *A[3], *W[3], *C[3];
  for (int i = 0; i < 3; i++)
  {
    A[i] = nA ? ((oi_array *)NTH(oi->arrayList, i % nA))->arrname : "";
    W[i] = ((oi_wavelength *)NTH(oi->wavelengthList, i % nW))->insname;
    C[i] = nC ? ((oi_corr *)NTH(oi->corrList, i % nC))->corrname : "";
  }
  int n = ntab[mc_dev(4, "n-vis")];
  for (int i = 0; i < n; i++)
  {
    oi_vis *v = ds_vis(oi, mc_dev(2, "vis-noarr") ? "" : A[i], W[i],
                       mc_dev(2, "vis-corr") ? C[i] : "",
                       nrecs[mc_dev(z, "vis-rec")], nw[i % nW], 10 + i);
    SETS(v->amptyp, amptyps[mc_dev(6, "amptyp")]);
    SETS(v->phityp, phityps[mc_dev(4, "phityp")]);
    int u = mc_dev(3, "ampunit");
    SETS(v->ampunit, u == 0 ? "" : u == 1 ? "Jy" : "erg/s/cm**2/m");
    int o = mc_dev(4, "amporder");
    v->amporder = o == 0 ? -1 : o == 1 ? 0 : o == 2 ? 1 : 99;
    o = mc_dev(4, "phiorder");
    v->phiorder = o == 0 ? -1 : o == 1 ? 0 : o == 2 ? 1 : 99;
    if (mc_dev(2, "visrefmap")) vis_refmap(v, i);
    int c = mc_dev(3, "complex");
    if (c) vis_complex(v, c == 1 ? "Jy" : "", 10 + i);
    if (v->numrec && mc_dev(2, "vis-target")) v->record[v->numrec - 1].target_id = tid;
    if (v->numrec)
    {
      int f = mc_dev(3, "vis-flags");
      if (f)
        for (int k = 0; k < v->nwave; k++)
          v->record[0].flag[k] = f == 1;
    }
  }
  n = ntab[mc_dev(4, "n-vis2")];
  for (int i = 0; i < n; i++)
  {
    oi_vis2 *v = ds_vis2(oi, mc_dev(2, "vis2-noarr") ? "" : A[i], W[i],
                         mc_dev(2, "vis2-corr") ? C[i] : "",
                         nrecs[mc_dev(z, "vis2-rec")], nw[i % nW], 13 + i);
    if (v->numrec && mc_dev(2, "vis2-target")) v->record[v->numrec - 1].target_id = tid;
  }
  n = ntab[mc_dev(4, "n-t3")];
  for (int i = 0; i < n; i++)
  {
    oi_t3 *v = ds_t3(oi, mc_dev(2, "t3-noarr") ? "" : A[i], W[i],
                     mc_dev(2, "t3-corr") ? C[i] : "",
                     nrecs[mc_dev(z, "t3-rec")], nw[i % nW], 16 + i);
    if (v->numrec && mc_dev(2, "t3-target")) v->record[v->numrec - 1].target_id = tid;
  }
  n = ntab[mc_dev(4, "n-flux")];
  for (int i = 0; i < n; i++)
  {
    oi_flux *v = ds_flux(oi, mc_dev(2, "flux-noarr") ? "" : A[i], W[i],
                         mc_dev(2, "flux-corr") ? C[i] : "",
                         nrecs[mc_dev(z, "flux-rec")], nw[i % nW], 19 + i);
    int f = mc_dev(3, "fovtype");
    SETS(v->fovtype, f == 0 ? "FWHM" : f == 1 ? "" : "RADIUS");
    if (mc_dev(2, "calstat")) v->calstat = v->calstat == 'C' ? 'U' : 'C';
    int u = mc_dev(3, "fluxunit");
    SETS(v->fluxunit, u == 0 ? "Jy" : u == 1 ? "" : "photon/s/(m**2)");
    if (v->numrec && mc_dev(2, "flux-target")) v->record[v->numrec - 1].target_id = tid;
  }
  return oi;
}

void ds_as_written(oi_fits *oi)
{
  SETS(oi->header.content, "OIFITS2");
  oi->targets.revision = 2;
  for (GList *l = oi->arrayList; l; l = l->next)
    ((oi_array *)l->data)->revision = 2;
  for (GList *l = oi->wavelengthList; l; l = l->next)
    ((oi_wavelength *)l->data)->revision = 2;
  for (GList *l = oi->corrList; l; l = l->next)
    ((oi_corr *)l->data)->revision = 1;
  for (GList *l = oi->inspolList; l; l = l->next)
    ((oi_inspol *)l->data)->revision = 1;
  for (GList *l = oi->visList; l; l = l->next)
  {
    oi_vis *v = l->data;
    v->revision = 2;
    if (strcmp(v->amptyp, "correlated flux") != 0) SETS(v->ampunit, "");
    if (v->amporder < 0) v->amporder = -1;
    if (v->phiorder < 0) v->phiorder = -1;
    for (long i = 0; i < v->numrec; i++)
      v->record[i].time = 0.0;
  }
  for (GList *l = oi->vis2List; l; l = l->next)
  {
    oi_vis2 *v = l->data;
    v->revision = 2;
    for (long i = 0; i < v->numrec; i++)
      v->record[i].time = 0.0;
  }
  for (GList *l = oi->t3List; l; l = l->next)
  {
    oi_t3 *v = l->data;
    v->revision = 2;
    for (long i = 0; i < v->numrec; i++)
      v->record[i].time = 0.0;
  }
  for (GList *l = oi->fluxList; l; l = l->next)
  {
    oi_flux *v = l->data;
    v->revision = 1;
    if (v->fovtype[0] == 0) v->fov = NAN;
    if (v->arrname[0] == 0)
      for (long i = 0; i < v->numrec; i++)
        v->record[i].sta_index = -1;
  }
}

/* ------------------------------------------------------------------ */
typedef struct
{
  cell *c;
  int n, cap;
  int tab;
} cv;
static void C(cv *v, void *p, int kind, int len, const char *name, long rec,
              int ch)
{
  if (v->n == v->cap)
  {
    v->cap = v->cap ? v->cap * 2 : 1024;
    v->c = realloc(v->c, v->cap * sizeof(cell));
  }
  v->c[v->n++] = (cell){p, kind, len, name, v->tab, rec, ch};
}
#define KWS(f, nm) C(v, (f), K_STR, 68, nm, -1, 0)

static void c_target(cv *v, const oi_target *t)
{
  for (int i = 0; i < t->ntarget; i++)
  {
    target *g = &t->targ[i];
    C(v, &g->target_id, K_I16, 0, "OI_TARGET.TARGET_ID", i, 0);
    C(v, g->target, K_STR, 32, "OI_TARGET.TARGET", i, 0);
    C(v, &g->raep0, K_DBL, 0, "OI_TARGET.RAEP0", i, 0);
    C(v, &g->decep0, K_DBL, 0, "OI_TARGET.DECEP0", i, 0);
    C(v, &g->equinox, K_FLT, 0, "OI_TARGET.EQUINOX", i, 0);
    C(v, &g->ra_err, K_DBL, 0, "OI_TARGET.RA_ERR", i, 0);
    C(v, &g->dec_err, K_DBL, 0, "OI_TARGET.DEC_ERR", i, 0);
    C(v, &g->sysvel, K_DBL, 0, "OI_TARGET.SYSVEL", i, 0);
    C(v, g->veltyp, K_STR, 8, "OI_TARGET.VELTYP", i, 0);
    C(v, g->veldef, K_STR, 8, "OI_TARGET.VELDEF", i, 0);
    C(v, &g->pmra, K_DBL, 0, "OI_TARGET.PMRA", i, 0);
    C(v, &g->pmdec, K_DBL, 0, "OI_TARGET.PMDEC", i, 0);
    C(v, &g->pmra_err, K_DBL, 0, "OI_TARGET.PMRA_ERR", i, 0);
    C(v, &g->pmdec_err, K_DBL, 0, "OI_TARGET.PMDEC_ERR", i, 0);
    C(v, &g->parallax, K_FLT, 0, "OI_TARGET.PARALLAX", i, 0);
    C(v, &g->para_err, K_FLT, 0, "OI_TARGET.PARA_ERR", i, 0);
    C(v, g->spectyp, K_STR, 32, "OI_TARGET.SPECTYP", i, 0);
    if (t->usecategory) C(v, g->category, K_STR, 3, "OI_TARGET.CATEGORY", i, 0);
  }
}
#define COLS(F, f)                                                             \
  for (int k = 0; k < t->nwave; k++)                                           \
  C(v, &r->f[k], K_DBL, 0, F, i, k)

int cells_target(const oi_target *t, cell **out)
{
  cv V = {0};
  c_target(&V, t);
  *out = V.c;
  return V.n;
}

int ds_cells(const oi_fits *oi, cell **out)
{
  cv V = {0}, *v = &V;
  oi_header *h = (oi_header *)&oi->header;
  KWS(h->origin, "ORIGIN");
  KWS(h->date_obs, "DATE-OBS");
  KWS(h->telescop, "TELESCOP");
  KWS(h->instrume, "INSTRUME");
  KWS(h->observer, "OBSERVER");
  KWS(h->insmode, "INSMODE");
  KWS(h->object, "OBJECT");
  KWS(h->referenc, "REFERENC");
  KWS(h->author, "AUTHOR");
  KWS(h->prog_id, "PROG_ID");
  KWS(h->procsoft, "PROCSOFT");
  KWS(h->obstech, "OBSTECH");
  c_target(v, &oi->targets);
  GList *l;
  for (l = oi->arrayList, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_array *a = l->data;
    KWS(a->arrname, "OI_ARRAY.ARRNAME");
    KWS(a->frame, "OI_ARRAY.FRAME");
    C(v, &a->arrayx, K_KWD, 0, "OI_ARRAY.ARRAYX", -1, 0);
    C(v, &a->arrayy, K_KWD, 0, "OI_ARRAY.ARRAYY", -1, 0);
    C(v, &a->arrayz, K_KWD, 0, "OI_ARRAY.ARRAYZ", -1, 0);
    for (int i = 0; i < a->nelement; i++)
    {
      element *e = &a->elem[i];
      C(v, e->tel_name, K_STR, 16, "OI_ARRAY.TEL_NAME", i, 0);
      C(v, e->sta_name, K_STR, 16, "OI_ARRAY.STA_NAME", i, 0);
      C(v, &e->sta_index, K_I16, 0, "OI_ARRAY.STA_INDEX", i, 0);
      C(v, &e->diameter, K_FLT, 0, "OI_ARRAY.DIAMETER", i, 0);
      for (int k = 0; k < 3; k++)
        C(v, &e->staxyz[k], K_DBL, 0, "OI_ARRAY.STAXYZ", i, k);
      C(v, &e->fov, K_DBL, 0, "OI_ARRAY.FOV", i, 0);
      C(v, e->fovtype, K_STR, 6, "OI_ARRAY.FOVTYPE", i, 0);
    }
  }
  for (l = oi->wavelengthList, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_wavelength *w = l->data;
    KWS(w->insname, "OI_WAVELENGTH.INSNAME");
    for (int i = 0; i < w->nwave; i++)
    {
      C(v, &w->eff_wave[i], K_FLT, 0, "OI_WAVELENGTH.EFF_WAVE", i, 0);
      C(v, &w->eff_band[i], K_FLT, 0, "OI_WAVELENGTH.EFF_BAND", i, 0);
    }
  }
  for (l = oi->corrList, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_corr *c = l->data;
    KWS(c->corrname, "OI_CORR.CORRNAME");
    C(v, &c->ndata, K_I32, 0, "OI_CORR.NDATA", -1, 0);
    for (int i = 0; i < c->ncorr; i++)
    {
      C(v, &c->iindx[i], K_I32, 0, "OI_CORR.IINDX", i, 0);
      C(v, &c->jindx[i], K_I32, 0, "OI_CORR.JINDX", i, 0);
      C(v, &c->corr[i], K_DBL, 0, "OI_CORR.CORR", i, 0);
    }
  }
  for (l = oi->inspolList, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_inspol *t = l->data;
    KWS(t->date_obs, "OI_INSPOL.DATE-OBS");
    C(v, &t->npol, K_I32, 0, "OI_INSPOL.NPOL", -1, 0);
    KWS(t->arrname, "OI_INSPOL.ARRNAME");
    KWS(t->orient, "OI_INSPOL.ORIENT");
    KWS(t->model, "OI_INSPOL.MODEL");
    for (long i = 0; i < t->numrec; i++)
    {
      oi_inspol_record *r = &t->record[i];
      C(v, &r->target_id, K_I16, 0, "OI_INSPOL.TARGET_ID", i, 0);
      C(v, r->insname, K_STR, 70, "OI_INSPOL.INSNAME", i, 0);
      C(v, &r->mjd_obs, K_DBL, 0, "OI_INSPOL.MJD_OBS", i, 0);
      C(v, &r->mjd_end, K_DBL, 0, "OI_INSPOL.MJD_END", i, 0);
      C(v, &r->sta_index, K_I16, 0, "OI_INSPOL.STA_INDEX", i, 0);
#define CX(F, f)                                                               \
  for (int k = 0; k < 2 * t->nwave; k++)                                       \
  C(v, (float *)r->f + k, K_FLT, 0, F, i, k)
      CX("OI_INSPOL.JXX", jxx);
      CX("OI_INSPOL.JYY", jyy);
      CX("OI_INSPOL.JXY", jxy);
      CX("OI_INSPOL.JYX", jyx);
    }
  }
#define DHEAD(T)                                                               \
  KWS(t->date_obs, T ".DATE-OBS");                                             \
  KWS(t->arrname, T ".ARRNAME");                                               \
  KWS(t->insname, T ".INSNAME");                                               \
  KWS(t->corrname, T ".CORRNAME")
#define DFLAG(T)                                                               \
  for (int k = 0; k < t->nwave; k++)                                           \
  C(v, &r->flag[k], K_BOOL, 0, T ".FLAG", i, k)
#define DREC(T)                                                                \
  C(v, &r->target_id, K_I16, 0, T ".TARGET_ID", i, 0);                         \
  C(v, &r->mjd, K_DBL, 0, T ".MJD", i, 0);                                     \
  C(v, &r->int_time, K_DBL, 0, T ".INT_TIME", i, 0)
  for (l = oi->visList, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_vis *t = l->data;
    DHEAD("OI_VIS");
    bool cu = t->corrname[0] != 0;
    KWS(t->amptyp, "OI_VIS.AMPTYP");
    KWS(t->phityp, "OI_VIS.PHITYP");
    C(v, &t->amporder, K_ORD, 0, "OI_VIS.AMPORDER", -1, 0);
    C(v, &t->phiorder, K_ORD, 0, "OI_VIS.PHIORDER", -1, 0);
    if (t->usecomplex) KWS(t->complexunit, "OI_VIS.complexunit");
    KWS(t->ampunit, "OI_VIS.ampunit");
    for (long i = 0; i < t->numrec; i++)
    {
      oi_vis_record *r = &t->record[i];
      DREC("OI_VIS");
      C(v, &r->time, K_DBL, 0, "OI_VIS.TIME", i, 0);
      COLS("OI_VIS.VISAMP", visamp);
      COLS("OI_VIS.VISAMPERR", visamperr);
      COLS("OI_VIS.VISPHI", visphi);
      COLS("OI_VIS.VISPHIERR", visphierr);
      if (cu)
      {
        C(v, &r->corrindx_visamp, K_I32, 0, "OI_VIS.CORRINDX_VISAMP", i, 0);
        C(v, &r->corrindx_visphi, K_I32, 0, "OI_VIS.CORRINDX_VISPHI", i, 0);
        if (t->usecomplex)
        {
          C(v, &r->corrindx_rvis, K_I32, 0, "OI_VIS.CORRINDX_RVIS", i, 0);
          C(v, &r->corrindx_ivis, K_I32, 0, "OI_VIS.CORRINDX_IVIS", i, 0);
        }
      }
      if (t->usevisrefmap)
        for (int k = 0; k < t->nwave * t->nwave; k++)
          C(v, &r->visrefmap[k], K_BOOL, 0, "OI_VIS.VISREFMAP", i, k);
      if (t->usecomplex)
      {
        COLS("OI_VIS.RVIS", rvis);
        COLS("OI_VIS.RVISERR", rviserr);
        COLS("OI_VIS.IVIS", ivis);
        COLS("OI_VIS.IVISERR", iviserr);
      }
      C(v, &r->ucoord, K_DBL, 0, "OI_VIS.UCOORD", i, 0);
      C(v, &r->vcoord, K_DBL, 0, "OI_VIS.VCOORD", i, 0);
      C(v, &r->sta_index[0], K_I16, 0, "OI_VIS.STA_INDEX", i, 0);
      C(v, &r->sta_index[1], K_I16, 0, "OI_VIS.STA_INDEX", i, 1);
      DFLAG("OI_VIS");
    }
  }
  for (l = oi->vis2List, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_vis2 *t = l->data;
    DHEAD("OI_VIS2");
    for (long i = 0; i < t->numrec; i++)
    {
      oi_vis2_record *r = &t->record[i];
      DREC("OI_VIS2");
      C(v, &r->time, K_DBL, 0, "OI_VIS2.TIME", i, 0);
      COLS("OI_VIS2.VIS2DATA", vis2data);
      COLS("OI_VIS2.VIS2ERR", vis2err);
      if (t->corrname[0])
        C(v, &r->corrindx_vis2data, K_I32, 0, "OI_VIS2.CORRINDX_VIS2DATA", i, 0);
      C(v, &r->ucoord, K_DBL, 0, "OI_VIS2.UCOORD", i, 0);
      C(v, &r->vcoord, K_DBL, 0, "OI_VIS2.VCOORD", i, 0);
      C(v, &r->sta_index[0], K_I16, 0, "OI_VIS2.STA_INDEX", i, 0);
      C(v, &r->sta_index[1], K_I16, 0, "OI_VIS2.STA_INDEX", i, 1);
      DFLAG("OI_VIS2");
    }
  }
  for (l = oi->t3List, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_t3 *t = l->data;
    DHEAD("OI_T3");
    for (long i = 0; i < t->numrec; i++)
    {
      oi_t3_record *r = &t->record[i];
      DREC("OI_T3");
      C(v, &r->time, K_DBL, 0, "OI_T3.TIME", i, 0);
      COLS("OI_T3.T3AMP", t3amp);
      COLS("OI_T3.T3AMPERR", t3amperr);
      COLS("OI_T3.T3PHI", t3phi);
      COLS("OI_T3.T3PHIERR", t3phierr);
      if (t->corrname[0])
      {
        C(v, &r->corrindx_t3amp, K_I32, 0, "OI_T3.CORRINDX_T3AMP", i, 0);
        C(v, &r->corrindx_t3phi, K_I32, 0, "OI_T3.CORRINDX_T3PHI", i, 0);
      }
      C(v, &r->u1coord, K_DBL, 0, "OI_T3.U1COORD", i, 0);
      C(v, &r->v1coord, K_DBL, 0, "OI_T3.V1COORD", i, 0);
      C(v, &r->u2coord, K_DBL, 0, "OI_T3.U2COORD", i, 0);
      C(v, &r->v2coord, K_DBL, 0, "OI_T3.V2COORD", i, 0);
      for (int k = 0; k < 3; k++)
        C(v, &r->sta_index[k], K_I16, 0, "OI_T3.STA_INDEX", i, k);
      DFLAG("OI_T3");
    }
  }
  for (l = oi->fluxList, v->tab = 0; l; l = l->next, v->tab++)
  {
    oi_flux *t = l->data;
    DHEAD("OI_FLUX");
    C(v, &t->fov, K_KWD, 0, "OI_FLUX.FOV", -1, 0);
    KWS(t->fovtype, "OI_FLUX.FOVTYPE");
    C(v, &t->calstat, K_CAL, 0, "OI_FLUX.CALSTAT", -1, 0);
    KWS(t->fluxunit, "OI_FLUX.fluxunit");
    for (long i = 0; i < t->numrec; i++)
    {
      oi_flux_record *r = &t->record[i];
      DREC("OI_FLUX");
      COLS("OI_FLUX.FLUXDATA", fluxdata);
      COLS("OI_FLUX.FLUXERR", fluxerr);
      if (t->corrname[0])
        C(v, &r->corrindx_fluxdata, K_I32, 0, "OI_FLUX.CORRINDX_FLUXDATA", i, 0);
      if (t->arrname[0])
        C(v, &r->sta_index, K_I16, 0, "OI_FLUX.STA_INDEX", i, 0);
      DFLAG("OI_FLUX");
    }
  }
  *out = V.c;
  return V.n;
}

static const double dvals[] = {0.0,     -0.0,     NAN,     INFINITY, -INFINITY,
                               DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, 1.0 / 3,
                               -1.5,    1e300};
static const float fvals[] = {0.0f,    -0.0f,   NAN,   INFINITY, -INFINITY,
                              FLT_MAX, FLT_MIN, 1e-45f, 1.0f / 3, -1.5f};
static const double kvals[] = {0.0, -1.5, 1e300, 1e-300, 123456789.12345,
                               -6378137.125, 1.0 / 3, 2.0 / 3e-7};
static const int i16[] = {0, -1, 1, 2, 32767, -32768, 255, 256};
static const int i32[] = {0, -1, 2147483647, INT_MIN, 32768, 65536, 40000};
static const int ords[] = {-1, 0, 1, 7, 2147483647};
static const char cals[] = {'C', 'U', 'X'};
/* strings; NULL = longest possible; "\1" = one less than the longest */
static const char *const strs[] = {"", "x", NULL, "it's", " lead", "1234",
                                   "T", "a / b", "\1", "''", "A  B",
                                   "9.5E3", "tail&", "\2"};

int cell_nvalues(const cell *c)
{
  switch (c->kind)
  {
  case K_I16:
    return sizeof(i16) / sizeof(*i16);
  case K_I32:
    return sizeof(i32) / sizeof(*i32);
  case K_DBL:
    return sizeof(dvals) / sizeof(*dvals);
  case K_FLT:
    return sizeof(fvals) / sizeof(*fvals);
  case K_KWD:
    return sizeof(kvals) / sizeof(*kvals);
  case K_STR:
    return sizeof(strs) / sizeof(*strs);
  case K_ORD:
    return sizeof(ords) / sizeof(*ords);
  case K_CAL:
    return sizeof(cals);
  default:
    return 2;
  }
}

bool cell_set(const cell *c, int v)
{
  switch (c->kind)
  {
  case K_I16:
    *(int *)c->p = i16[v];
    return true;
  case K_I32:
    *(int *)c->p = i32[v];
    return true;
  case K_DBL:
    *(double *)c->p = dvals[v];
    return true;
  case K_FLT:
    *(float *)c->p = fvals[v];
    return true;
  case K_KWD:
    *(double *)c->p = kvals[v];
    return true;
  case K_ORD:
    *(int *)c->p = ords[v];
    return true;
  case K_CAL:
    *(char *)c->p = cals[v];
    return true;
  case K_BOOL:
    *(BOOL *)c->p = v;
    return true;
  case K_STR:
  {
    char *d = c->p;
    const char *s = strs[v];
    memset(d, 0, c->len + 1);
    if (s == NULL || s[0] == '\1' || (s[0] == '\2'))
    {
      int n = s == NULL ? c->len : s[0] == '\1' ? c->len - 1 : c->len / 2;
      for (int i = 0; i < n; i++)
        d[i] = 'a' + i % 26;
    }
    else
    {
      if ((int)strlen(s) > c->len) return false;
      strcpy(d, s);
    }
    return true;
  }
  }
  return false;
}

void cell_flip(const cell *c)
{
  switch (c->kind)
  {
  case K_I16:
  case K_I32:
  case K_ORD:
    *(int *)c->p += 5;
    break;
  case K_DBL:
  case K_KWD:
    *(double *)c->p = *(double *)c->p == 77.25 ? 78.25 : 77.25;
    break;
  case K_FLT:
    *(float *)c->p = *(float *)c->p == 77.25f ? 78.25f : 77.25f;
    break;
  case K_CAL:
    *(char *)c->p = *(char *)c->p == 'C' ? 'U' : 'C';
    break;
  case K_BOOL:
    *(BOOL *)c->p = !*(BOOL *)c->p;
    break;
  case K_STR:
    ((char *)c->p)[0] = ((char *)c->p)[0] == '#' ? '%' : '#';
    break;
  }
}

/* ------------------------------------------------------------------ */
void ds_v1_defaults(oi_fits *oi)
{
  ds_downgrade(oi);
  oi->targets.usecategory = FALSE;
  for (GList *l = oi->arrayList; l; l = l->next)
  {
    oi_array *a = l->data;
    for (int i = 0; i < a->nelement; i++)
    {
      a->elem[i].fov = NAN;
      SETS(a->elem[i].fovtype, "FWHM");
    }
  }
  for (GList *l = oi->visList; l; l = l->next)
  {
    oi_vis *v = l->data;
    v->corrname[0] = v->amptyp[0] = v->phityp[0] = 0;
    v->amporder = v->phiorder = -1;
  }
  for (GList *l = oi->vis2List; l; l = l->next)
    ((oi_vis2 *)l->data)->corrname[0] = 0;
  for (GList *l = oi->t3List; l; l = l->next)
    ((oi_t3 *)l->data)->corrname[0] = 0;
}

oi_fits *ds_gen_v1(void)
{
  static const int nrecs[] = {2, 1, 3, 7, 0};
  static const int nwaves[] = {2, 1, 3, 11};
  static const int ntab[] = {1, 0, 2, 3};
  static const double tms[] = {0, 1, 86399.5, -1};
  char b[80];
  oi_fits *oi = ds_new();
  memset(&oi->header, 0, sizeof(oi->header));
  static const int ntg[] = {2, 1, 3, 12};
  ds_targets(oi, ntg[mc_dev(4, "ntarget")], false);
  if (mc_dev(2, "target-ids"))
    for (int i = 0; i < oi->targets.ntarget; i++)
      oi->targets.targ[i].target_id = 32767 - 3 * i;
  int tid = oi->targets.targ[oi->targets.ntarget - 1].target_id;
  int style = mc_dev(3, "name-style");
  int nA = ntab[mc_dev(4, "n-array")], nW = 1 + mc_dev(3, "n-wave"), nw[3];
  for (int i = 0; i < nA; i++)
  {
    static const int ne[] = {3, 1, 9, 0};
    table_name(b, sizeof(b), style, "ARR", i);
    oi_array *a = ds_array(oi, b, ne[mc_dev(4, "nelement")], i);
    if (i == 0 && mc_dev(2, "frame")) SETS(a->frame, "SKY");
  }
  for (int i = 0; i < nW; i++)
  {
    table_name(b, sizeof(b), style, "INS", i);
    nw[i] = nwaves[mc_dev(4, "nwave")];
    ds_wave(oi, b, nw[i], i);
  }
  const char *A[3], *W[3];
  for (int i = 0; i < 3; i++)
  {
    A[i] = nA ? ((oi_array *)NTH(oi->arrayList, i % nA))->arrname : "";
    W[i] = ((oi_wavelength *)NTH(oi->wavelengthList, i % nW))->insname;
  }
#define V1TAB(type, fn, base)                                                  \
  {                                                                            \
    int n = ntab[mc_dev(4, "n-" #fn)];                                         \
    for (int i = 0; i < n; i++)                                                \
    {                                                                          \
      type *v = ds_##fn(oi, mc_dev(2, #fn "-noarr") ? "" : A[i], W[i], "",     \
                        nrecs[mc_dev(5, #fn "-rec")], nw[i % nW], base + i);   \
      if (!v->numrec) continue;                                                \
      if (mc_dev(2, #fn "-target")) v->record[v->numrec - 1].target_id = tid;  \
      v->record[0].time = tms[mc_dev(4, #fn "-time")];                         \
      int m = mc_dev(5, #fn "-mjd");                                           \
      if (m == 1) v->record[v->numrec - 1].mjd = 50123.75;                     \
      if (m == 2) v->record[0].mjd = 50082.9999;                               \
      if (m == 3) v->record[v->numrec - 1].mjd = 50083;                        \
      if (m == 4)                                                              \
        for (int k = 0; k < v->numrec; k++) v->record[k].mjd += 7000;          \
      if (mc_dev(2, #fn "-flags"))                                             \
        for (int k = 0; k < v->nwave; k++)                                     \
          v->record[0].flag[k] = !v->record[0].flag[k];                        \
    }                                                                          \
  }
  V1TAB(oi_vis, vis, 10)
  V1TAB(oi_vis2, vis2, 13)
  V1TAB(oi_t3, t3, 16)
  ds_v1_defaults(oi);
  return oi;
}

static const int big[SZ_BIG] = {48,  63,   64,   65,   99,   100,  101,  127,   128,  129,
                          200, 255,  256,  257,  300,  511,  512,  513,   999,  1000,
                          1001, 1023, 1024, 1025, 2000, 4096, 9999, 10000, 10001};
int sz_pick(int dim, int lim, int max)
{
  if (dim >= SZ_NVIS && dim < SZ_REFMAP && max > 300) max = 300;
  if (dim == SZ_REFMAP && max > 257) max = 257;
  int k = mc_pick(lim + SZ_BIG, "size");
  int n = k < lim ? k + 1 : big[k - lim];
  if ((k >= lim && n <= lim) || n > max) mc_skip();
  return n;
}

oi_fits *ds_sized(int dim, int n, int tag, bool v1)
{
  int sz[SZ_DIMS];
  for (int i = 0; i < SZ_DIMS; i++) sz[i] = i < SZ_NVIS ? 2 : 1;
  sz[SZ_STATIONS] = 3;
  sz[dim] = n;
  if (dim == SZ_REFMAP) sz[SZ_CHANNELS] = n;
  int nt = sz[SZ_TARGETS], ne = sz[SZ_STATIONS], nw = sz[SZ_CHANNELS];
  oi_fits *oi = ds_new();
  ds_targets(oi, nt, v1 ? false : n % 2);
  char a[24], w[24], c[24];
#define NAMES(i)                                                               \
  snprintf(a, sizeof(a), "ARR%d", (i) % sz[SZ_NARRAY]),                        \
      snprintf(w, sizeof(w), "INS%d", (i) % sz[SZ_NWAVE]),                     \
      snprintf(c, sizeof(c), v1 ? "" : "COR%d", (i) % sz[SZ_NCORR])
  int most = 1;
  for (int i = SZ_NVIS; i < SZ_REFMAP; i++)
    if (sz[i] > most) most = sz[i];
  for (int i = 0; i < most; i++)
  {
    NAMES(i);
    if (i < sz[SZ_NARRAY]) ds_array(oi, a, ne, tag + i);
    if (i < sz[SZ_NWAVE]) ds_wave(oi, w, nw, tag + i);
    if (i < sz[SZ_NCORR] && !v1) ds_corr(oi, c, 40, sz[SZ_CORRS], tag + i);
  }
  /* records enough to refer to every target and every station */
  int many = nt > ne ? nt : ne;
#define REFS(nsta)                                                             \
  for (long r = 0; r < t->numrec; r++)                                         \
  {                                                                            \
    t->record[r].target_id = 1 + (int)((r * 7 + i) % nt);                      \
    for (int s = 0; s < nsta; s++)                                             \
      ((int *)&t->record[r].sta_index)[s] = 1 + (int)((r * 3 + s + i) % ne);   \
  }
  for (int i = 0; i < (v1 ? 0 : most); i++)
    if (i < sz[SZ_NPOL] || (dim == SZ_NARRAY && i % 3 == 0))
    {
      NAMES(i);
      oi_inspol *t = ds_inspol(oi, a, w, sz[SZ_POLREC], nw, tag + i);
      REFS(1)
      if (dim == SZ_NWAVE) /* instruments of all tables */
        for (long r = 0; r < t->numrec; r++)
          snprintf(t->record[r].insname, sizeof(t->record[r].insname), "INS%d", (int)(r * 5 + i) % n);
    }
  int refs = dim >= SZ_NARRAY && dim <= SZ_NCORR ? n : 1; /* a data table per support table */
  for (int i = 0; i < sz[SZ_NVIS]; i++)
  {
    NAMES(i);
    oi_vis *t = ds_vis(oi, a, w, c, sz[SZ_VISREC], nw, tag + 10 + i);
    REFS(2)
    if (dim == SZ_VISREC || dim == SZ_CHANNELS || dim == SZ_REFMAP)
      if (!v1) vis_complex(t, "Jy", 3);
    if (dim == SZ_REFMAP && !v1) vis_refmap(t, 3);
  }
  int n2 = sz[SZ_NVIS2] > refs ? sz[SZ_NVIS2] : refs;
  for (int i = 0; i < n2; i++)
  {
    NAMES(i);
    oi_vis2 *t = ds_vis2(oi, a, w, c, many > 3 ? many + 1 : sz[SZ_VIS2REC], nw, tag + 10 + i);
    REFS(2)
  }
  for (int i = 0; i < sz[SZ_NT3]; i++)
  {
    NAMES(i);
    oi_t3 *t = ds_t3(oi, a, w, c, sz[SZ_T3REC], nw, tag + 10 + i);
    REFS(3)
  }
  for (int i = 0; i < (v1 ? 0 : sz[SZ_NFLUX]); i++)
  {
    NAMES(i);
    oi_flux *t = ds_flux(oi, a, w, c, sz[SZ_FLUXREC], nw, tag + 10 + i);
    REFS(1)
  }
  if (v1)
  {
    memset(&oi->header, 0, sizeof(oi->header));
    ds_v1_defaults(oi);
  }
  return oi;
}
