#include "oif.h"
#include <time.h>

static rf_hdu *H;          /* HDU under inspection */
static char W[100];        /* its description */
static rf_col cols[100];
static int ncols;
static bool used[100];
static uint64_t acc;

static void kw_str(const char *key, const char *want)
{
  char s[81];
  int r = rf_str(H, key, s, sizeof(s));
  MC_CHECK(r == 1, "%s: keyword %s %s", W, key, r ? "is no string" : "missing");
  MC_CHECK(!strcmp(s, want), "%s: %s = '%s', expected '%s'", W, key, s, want);
  acc = mc_hash(key, strlen(key), acc);
}
/* optional: present exactly if want is not empty */
static void kw_opt(const char *key, const char *want)
{
  if (want[0]) kw_str(key, want);
  else MC_CHECK(rf_find(H, key) < 0, "%s: unexpected keyword %s", W, key);
}
static void kw_int(const char *key, long want)
{
  long v;
  int r = rf_int(H, key, &v);
  MC_CHECK(r == 1, "%s: keyword %s %s", W, key,
           r ? "is no integer" : "missing");
  MC_CHECK(v == want, "%s: %s = %ld, expected %ld", W, key, v, want);
  acc = mc_hash(key, strlen(key), acc);
}
static void kw_dbl(const char *key, double want)
{
  double v;
  int r = rf_dbl(H, key, &v);
  MC_CHECK(r == 1, "%s: keyword %s %s", W, key, r ? "is no number" : "missing");
  MC_CHECK(fabs(v - want) <= 1e-14 * fabs(want), "%s: %s = %.17g, expected %.17g",
           W, key, v, want);
}
static void kw_none(const char *key)
{
  MC_CHECK(rf_find(H, key) < 0, "%s: unexpected keyword %s", W, key);
}

static rf_col *col(const char *name, char type, int repeat, const char *unit)
{
  int at = -1;
  for (int i = 0; i < ncols; i++)
    if (!strcmp(cols[i].name, name))
    {
      MC_CHECK(at < 0, "%s: two columns %s", W, name);
      at = i;
    }
  MC_CHECK(at >= 0, "%s: column %s missing", W, name);
  rf_col *c = &cols[at];
  MC_CHECK(c->type == type && c->repeat == repeat,
           "%s: column %s has format %d%c, expected %d%c", W, name, c->repeat,
           c->type, repeat, type);
  MC_CHECK(!strcmp(c->unit, unit), "%s: column %s has unit '%s', expected '%s'",
           W, name, c->unit, unit);
  used[at] = true;
  acc = mc_hash(name, strlen(name), acc) + at;
  return c;
}
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static void val(rf_col *c, long row, int elem, double want)
{
  double v = rf_num(rf_cell(H, c, row), c->type, elem);
  MC_CHECK(same(v, want), "%s: %s row %ld element %d is %.17g, expected %.17g",
           W, c->name, row + 1, elem + 1, v, want);
}
static void txt(rf_col *c, long row, const char *want)
{
  char s[200];
  rf_text(rf_cell(H, c, row), c->width, s);
  /* trailing blanks are not significant in FITS; too long values are cut */
  size_t n = strlen(want);
  if (n > c->width) n = c->width;
  while (n > 0 && want[n - 1] == ' ') n--;
  MC_CHECK(strlen(s) == n && !memcmp(s, want, n),
           "%s: %s row %ld is '%s', expected '%s'", W, c->name, row + 1, s,
           want);
}

static void begin(rf_file *f, const char *extname, int n, int extver, int revn,
                  long rows)
{
  int i = rf_nth(f, extname, n);
  MC_CHECK(i >= 0, "table %s number %d missing", extname, n + 1);
  H = &f->h[i];
  snprintf(W, sizeof(W), "%s #%d", extname, n + 1);
  char s[81];
  MC_CHECK(rf_str(H, "XTENSION", s, sizeof(s)) == 1 && !strcmp(s, "BINTABLE"),
           "%s: not a binary table", W);
  kw_int("OI_REVN", revn);
  if (extver) kw_int("EXTVER", extver);
  kw_int("NAXIS2", rows);
  kw_int("PCOUNT", 0);
  ncols = rf_cols(H, cols, 100);
  MC_CHECK(ncols > 0, "%s: malformed column descriptions", W);
  long len;
  MC_CHECK(rf_int(H, "NAXIS1", &len) == 1 &&
               (size_t)len == cols[ncols - 1].off + cols[ncols - 1].width,
           "%s: NAXIS1 does not match the columns", W);
  memset(used, 0, sizeof(used));
}
static void end(void)
{
  for (int i = 0; i < ncols; i++)
  {
    MC_CHECK(used[i], "%s: unexpected column %s", W, cols[i].name);
    char k[20];
    if (strcmp(cols[i].name, "VISREFMAP"))
      MC_CHECK(cols[i].dim[0] == 0, "%s: column %s has dimensions %s", W,
               cols[i].name, cols[i].dim);
    for (int j = 0; j < 2; j++)
    {
      snprintf(k, sizeof(k), "%s%d", j ? "TSCAL" : "TZERO", i + 1);
      kw_none(k);
    }
  }
}

static void data_kw(const char *date_obs, const char *arrname,
                    const char *insname, const char *corrname)
{
  kw_str("DATE-OBS", date_obs);
  kw_opt("ARRNAME", arrname);
  kw_str("INSNAME", insname);
  kw_opt("CORRNAME", corrname);
}

uint64_t oif_verify(const char *path, const oi_fits *oi)
{
  rf_file *f = rf_read(path);
  acc = 7;
  /* every HDU */
  int ntab = 0;
  for (int i = 0; i < f->nhdu; i++)
  {
    const char *what;
    snprintf(W, sizeof(W), "HDU %d (%s)", i + 1, rf_extname(&f->h[i]));
    MC_CHECK(rf_sums_ok(&f->h[i], &what), "%s: %s", W, what);
    for (int k = 0; k < f->h[i].ncard; k++)
    {
      char key[9];
      memcpy(key, f->h[i].card[k], 8);
      key[8] = 0;
      for (int j = 7; j >= 0 && key[j] == ' '; j--) key[j] = 0;
      if (!key[0] || !strcmp(key, "COMMENT") || !strcmp(key, "HISTORY"))
        continue;
      MC_CHECK(rf_count(&f->h[i], key) == 1, "%s: keyword %s repeated", W, key);
    }
    if (i > 0) ntab++;
  }
  MC_CHECK(ntab == 1 + oi->numArray + oi->numWavelength + oi->numCorr +
                       oi->numInspol + oi->numVis + oi->numVis2 + oi->numT3 +
                       oi->numFlux,
           "%d tables in the file", ntab);

  /* primary header */
  H = &f->h[0];
  strcpy(W, "primary header");
  kw_int("NAXIS", 0);
  int e = rf_find(H, "EXTEND");
  MC_CHECK(e > 0 && H->card[e][29] == 'T', "EXTEND not set");
  kw_str("CONTENT", "OIFITS2");
  kw_str("ORIGIN", oi->header.origin);
  kw_str("DATE-OBS", oi->header.date_obs);
  kw_str("TELESCOP", oi->header.telescop);
  kw_str("INSTRUME", oi->header.instrume);
  kw_str("OBSERVER", oi->header.observer);
  kw_str("INSMODE", oi->header.insmode);
  kw_str("OBJECT", oi->header.object);
  kw_opt("REFERENC", oi->header.referenc);
  kw_opt("AUTHOR", oi->header.author);
  kw_opt("PROG_ID", oi->header.prog_id);
  kw_opt("PROCSOFT", oi->header.procsoft);
  kw_opt("OBSTECH", oi->header.obstech);
  char date[81];
  int y, mo, d, hh, mm, ss, n = 0;
  MC_CHECK(rf_str(H, "DATE", date, sizeof(date)) == 1, "DATE missing");
  MC_CHECK(sscanf(date, "%4d-%2d-%2d%n", &y, &mo, &d, &n) == 3 && n == 10,
           "DATE = '%s'", date);
  if (date[n])
    MC_CHECK(sscanf(date + n, "T%2d:%2d:%2d", &hh, &mm, &ss) == 3,
             "DATE = '%s'", date);
  struct tm tm = {.tm_year = y - 1900, .tm_mon = mo - 1, .tm_mday = d};
  MC_CHECK(fabs(difftime(timegm(&tm), time(NULL))) < 2 * 86400.,
           "DATE = '%s' is not the date of writing", date);

  /* OI_TARGET */
  begin(f, "OI_TARGET", 0, 0, 2, oi->targets.ntarget);
  {
    rf_col *id = col("TARGET_ID", 'I', 1, ""), *nm = col("TARGET", 'A', 32, ""),
           *ra = col("RAEP0", 'D', 1, "deg"), *de = col("DECEP0", 'D', 1, "deg"),
           *eq = col("EQUINOX", 'E', 1, "yr"), *rae = col("RA_ERR", 'D', 1, "deg"),
           *dee = col("DEC_ERR", 'D', 1, "deg"),
           *sv = col("SYSVEL", 'D', 1, "m/s"), *vt = col("VELTYP", 'A', 8, ""),
           *vd = col("VELDEF", 'A', 8, ""), *pr = col("PMRA", 'D', 1, "deg/yr"),
           *pd = col("PMDEC", 'D', 1, "deg/yr"),
           *pre = col("PMRA_ERR", 'D', 1, "deg/yr"),
           *pde = col("PMDEC_ERR", 'D', 1, "deg/yr"),
           *px = col("PARALLAX", 'E', 1, "deg"),
           *pxe = col("PARA_ERR", 'E', 1, "deg"),
           *sp = col("SPECTYP", 'A', 32, "");
    rf_col *ca = oi->targets.usecategory ? col("CATEGORY", 'A', 3, "") : NULL;
    for (int i = 0; i < oi->targets.ntarget; i++)
    {
      const target *t = &oi->targets.targ[i];
      val(id, i, 0, t->target_id), txt(nm, i, t->target);
      val(ra, i, 0, t->raep0), val(de, i, 0, t->decep0);
      val(eq, i, 0, t->equinox), val(rae, i, 0, t->ra_err);
      val(dee, i, 0, t->dec_err), val(sv, i, 0, t->sysvel);
      txt(vt, i, t->veltyp), txt(vd, i, t->veldef);
      val(pr, i, 0, t->pmra), val(pd, i, 0, t->pmdec);
      val(pre, i, 0, t->pmra_err), val(pde, i, 0, t->pmdec_err);
      val(px, i, 0, t->parallax), val(pxe, i, 0, t->para_err);
      txt(sp, i, t->spectyp);
      if (ca) txt(ca, i, t->category);
    }
    end();
  }
  MC_CHECK(rf_nth(f, "OI_TARGET", 1) < 0, "more than one OI_TARGET");

  int k = 0;
  for (GList *l = oi->arrayList; l; l = l->next, k++)
  {
    const oi_array *a = l->data;
    begin(f, "OI_ARRAY", k, k + 1, 2, a->nelement);
    kw_str("ARRNAME", a->arrname), kw_str("FRAME", a->frame);
    kw_dbl("ARRAYX", a->arrayx), kw_dbl("ARRAYY", a->arrayy);
    kw_dbl("ARRAYZ", a->arrayz);
    rf_col *tn = col("TEL_NAME", 'A', 16, ""), *sn = col("STA_NAME", 'A', 16, ""),
           *si = col("STA_INDEX", 'I', 1, ""), *di = col("DIAMETER", 'E', 1, "m"),
           *xyz = col("STAXYZ", 'D', 3, "m"), *fv = col("FOV", 'D', 1, "arcsec"),
           *ft = col("FOVTYPE", 'A', 6, "");
    for (int i = 0; i < a->nelement; i++)
    {
      const element *t = &a->elem[i];
      txt(tn, i, t->tel_name), txt(sn, i, t->sta_name);
      val(si, i, 0, t->sta_index), val(di, i, 0, t->diameter);
      for (int j = 0; j < 3; j++) val(xyz, i, j, t->staxyz[j]);
      val(fv, i, 0, t->fov), txt(ft, i, t->fovtype);
    }
    end();
  }
  k = 0;
  for (GList *l = oi->wavelengthList; l; l = l->next, k++)
  {
    const oi_wavelength *w = l->data;
    begin(f, "OI_WAVELENGTH", k, k + 1, 2, w->nwave);
    kw_str("INSNAME", w->insname);
    rf_col *ew = col("EFF_WAVE", 'E', 1, "m"), *eb = col("EFF_BAND", 'E', 1, "m");
    for (int i = 0; i < w->nwave; i++)
      val(ew, i, 0, w->eff_wave[i]), val(eb, i, 0, w->eff_band[i]);
    end();
  }
  k = 0;
  for (GList *l = oi->corrList; l; l = l->next, k++)
  {
    const oi_corr *c = l->data;
    begin(f, "OI_CORR", k, k + 1, 1, c->ncorr);
    kw_str("CORRNAME", c->corrname), kw_int("NDATA", c->ndata);
    rf_col *ci = col("IINDX", 'J', 1, ""), *cj = col("JINDX", 'J', 1, ""),
           *cc = col("CORR", 'D', 1, "");
    for (int i = 0; i < c->ncorr; i++)
      val(ci, i, 0, c->iindx[i]), val(cj, i, 0, c->jindx[i]),
          val(cc, i, 0, c->corr[i]);
    end();
  }
  k = 0;
  for (GList *l = oi->inspolList; l; l = l->next, k++)
  {
    const oi_inspol *p = l->data;
    int nw = p->nwave;
    begin(f, "OI_INSPOL", k, k + 1, 1, p->numrec);
    kw_str("DATE-OBS", p->date_obs), kw_int("NPOL", p->npol);
    kw_str("ARRNAME", p->arrname), kw_str("ORIENT", p->orient);
    kw_str("MODEL", p->model);
    rf_col *id = col("TARGET_ID", 'I', 1, ""), *in = col("INSNAME", 'A', 70, ""),
           *mo_ = col("MJD_OBS", 'D', 1, "day"), *me = col("MJD_END", 'D', 1, "day"),
           *xx = col("JXX", 'C', nw, ""), *yy = col("JYY", 'C', nw, ""),
           *xy = col("JXY", 'C', nw, ""), *yx = col("JYX", 'C', nw, ""),
           *si = col("STA_INDEX", 'I', 1, "");
    for (long i = 0; i < p->numrec; i++)
    {
      const oi_inspol_record *r = &p->record[i];
      val(id, i, 0, r->target_id), txt(in, i, r->insname);
      val(mo_, i, 0, r->mjd_obs), val(me, i, 0, r->mjd_end);
      for (int j = 0; j < nw; j++)
      {
        val(xx, i, 2 * j, crealf(r->jxx[j])), val(xx, i, 2 * j + 1, cimagf(r->jxx[j]));
        val(yy, i, 2 * j, crealf(r->jyy[j])), val(yy, i, 2 * j + 1, cimagf(r->jyy[j]));
        val(xy, i, 2 * j, crealf(r->jxy[j])), val(xy, i, 2 * j + 1, cimagf(r->jxy[j]));
        val(yx, i, 2 * j, crealf(r->jyx[j])), val(yx, i, 2 * j + 1, cimagf(r->jyx[j]));
      }
      val(si, i, 0, r->sta_index);
    }
    end();
  }
  k = 0;
  for (GList *l = oi->visList; l; l = l->next, k++)
  {
    const oi_vis *v = l->data;
    int nw = v->nwave;
    bool corr = v->corrname[0] != 0;
    const char *au = strcmp(v->amptyp, "correlated flux") ? "" : v->ampunit;
    begin(f, "OI_VIS", k, k + 1, 2, v->numrec);
    data_kw(v->date_obs, v->arrname, v->insname, v->corrname);
    kw_opt("AMPTYP", v->amptyp), kw_opt("PHITYP", v->phityp);
    if (v->amporder >= 0) kw_int("AMPORDER", v->amporder);
    else kw_none("AMPORDER");
    if (v->phiorder >= 0) kw_int("PHIORDER", v->phiorder);
    else kw_none("PHIORDER");
    rf_col *id = col("TARGET_ID", 'I', 1, ""), *ti = col("TIME", 'D', 1, "s"),
           *mj = col("MJD", 'D', 1, "day"), *it = col("INT_TIME", 'D', 1, "s"),
           *am = col("VISAMP", 'D', nw, au), *ae = col("VISAMPERR", 'D', nw, au),
           *ph = col("VISPHI", 'D', nw, "deg"), *pe = col("VISPHIERR", 'D', nw, "deg"),
           *u = col("UCOORD", 'D', 1, "m"), *vv = col("VCOORD", 'D', 1, "m"),
           *si = col("STA_INDEX", 'I', 2, ""), *fl = col("FLAG", 'L', nw, "");
    rf_col *ca = corr ? col("CORRINDX_VISAMP", 'J', 1, "") : NULL,
           *cp = corr ? col("CORRINDX_VISPHI", 'J', 1, "") : NULL;
    rf_col *rm = v->usevisrefmap ? col("VISREFMAP", 'L', nw * nw, "") : NULL;
    if (rm)
    {
      char dim[40];
      snprintf(dim, sizeof(dim), "(%d,%d)", nw, nw);
      MC_CHECK(!strcmp(rm->dim, dim), "%s: VISREFMAP has dimensions '%s'", W,
               rm->dim);
    }
    rf_col *re = NULL, *ree = NULL, *im = NULL, *ime = NULL, *cr = NULL, *ci = NULL;
    if (v->usecomplex)
    {
      re = col("RVIS", 'D', nw, v->complexunit);
      ree = col("RVISERR", 'D', nw, v->complexunit);
      im = col("IVIS", 'D', nw, v->complexunit);
      ime = col("IVISERR", 'D', nw, v->complexunit);
      if (corr)
        cr = col("CORRINDX_RVIS", 'J', 1, ""), ci = col("CORRINDX_IVIS", 'J', 1, "");
    }
    for (long i = 0; i < v->numrec; i++)
    {
      const oi_vis_record *r = &v->record[i];
      val(id, i, 0, r->target_id), val(ti, i, 0, 0), val(mj, i, 0, r->mjd);
      val(it, i, 0, r->int_time), val(u, i, 0, r->ucoord), val(vv, i, 0, r->vcoord);
      val(si, i, 0, r->sta_index[0]), val(si, i, 1, r->sta_index[1]);
      if (corr) val(ca, i, 0, r->corrindx_visamp), val(cp, i, 0, r->corrindx_visphi);
      if (cr) val(cr, i, 0, r->corrindx_rvis), val(ci, i, 0, r->corrindx_ivis);
      for (int j = 0; j < nw; j++)
      {
        val(am, i, j, r->visamp[j]), val(ae, i, j, r->visamperr[j]);
        val(ph, i, j, r->visphi[j]), val(pe, i, j, r->visphierr[j]);
        val(fl, i, j, r->flag[j] ? 1 : 0);
        if (re)
          val(re, i, j, r->rvis[j]), val(ree, i, j, r->rviserr[j]),
              val(im, i, j, r->ivis[j]), val(ime, i, j, r->iviserr[j]);
      }
      if (rm)
        for (int j = 0; j < nw * nw; j++)
          val(rm, i, j, r->visrefmap[j] ? 1 : 0);
    }
    end();
  }
  k = 0;
  for (GList *l = oi->vis2List; l; l = l->next, k++)
  {
    const oi_vis2 *v = l->data;
    int nw = v->nwave;
    bool corr = v->corrname[0] != 0;
    begin(f, "OI_VIS2", k, k + 1, 2, v->numrec);
    data_kw(v->date_obs, v->arrname, v->insname, v->corrname);
    rf_col *id = col("TARGET_ID", 'I', 1, ""), *ti = col("TIME", 'D', 1, "s"),
           *mj = col("MJD", 'D', 1, "day"), *it = col("INT_TIME", 'D', 1, "s"),
           *am = col("VIS2DATA", 'D', nw, ""), *ae = col("VIS2ERR", 'D', nw, ""),
           *u = col("UCOORD", 'D', 1, "m"), *vv = col("VCOORD", 'D', 1, "m"),
           *si = col("STA_INDEX", 'I', 2, ""), *fl = col("FLAG", 'L', nw, "");
    rf_col *ca = corr ? col("CORRINDX_VIS2DATA", 'J', 1, "") : NULL;
    for (long i = 0; i < v->numrec; i++)
    {
      const oi_vis2_record *r = &v->record[i];
      val(id, i, 0, r->target_id), val(ti, i, 0, 0), val(mj, i, 0, r->mjd);
      val(it, i, 0, r->int_time), val(u, i, 0, r->ucoord), val(vv, i, 0, r->vcoord);
      val(si, i, 0, r->sta_index[0]), val(si, i, 1, r->sta_index[1]);
      if (corr) val(ca, i, 0, r->corrindx_vis2data);
      for (int j = 0; j < nw; j++)
        val(am, i, j, r->vis2data[j]), val(ae, i, j, r->vis2err[j]),
            val(fl, i, j, r->flag[j] ? 1 : 0);
    }
    end();
  }
  k = 0;
  for (GList *l = oi->t3List; l; l = l->next, k++)
  {
    const oi_t3 *v = l->data;
    int nw = v->nwave;
    bool corr = v->corrname[0] != 0;
    begin(f, "OI_T3", k, k + 1, 2, v->numrec);
    data_kw(v->date_obs, v->arrname, v->insname, v->corrname);
    rf_col *id = col("TARGET_ID", 'I', 1, ""), *ti = col("TIME", 'D', 1, "s"),
           *mj = col("MJD", 'D', 1, "day"), *it = col("INT_TIME", 'D', 1, "s"),
           *am = col("T3AMP", 'D', nw, ""), *ae = col("T3AMPERR", 'D', nw, ""),
           *ph = col("T3PHI", 'D', nw, "deg"), *pe = col("T3PHIERR", 'D', nw, "deg"),
           *u1 = col("U1COORD", 'D', 1, "m"), *v1 = col("V1COORD", 'D', 1, "m"),
           *u2 = col("U2COORD", 'D', 1, "m"), *v2 = col("V2COORD", 'D', 1, "m"),
           *si = col("STA_INDEX", 'I', 3, ""), *fl = col("FLAG", 'L', nw, "");
    rf_col *ca = corr ? col("CORRINDX_T3AMP", 'J', 1, "") : NULL,
           *cp = corr ? col("CORRINDX_T3PHI", 'J', 1, "") : NULL;
    for (long i = 0; i < v->numrec; i++)
    {
      const oi_t3_record *r = &v->record[i];
      val(id, i, 0, r->target_id), val(ti, i, 0, 0), val(mj, i, 0, r->mjd);
      val(it, i, 0, r->int_time), val(u1, i, 0, r->u1coord), val(v1, i, 0, r->v1coord);
      val(u2, i, 0, r->u2coord), val(v2, i, 0, r->v2coord);
      for (int j = 0; j < 3; j++) val(si, i, j, r->sta_index[j]);
      if (corr) val(ca, i, 0, r->corrindx_t3amp), val(cp, i, 0, r->corrindx_t3phi);
      for (int j = 0; j < nw; j++)
        val(am, i, j, r->t3amp[j]), val(ae, i, j, r->t3amperr[j]),
            val(ph, i, j, r->t3phi[j]), val(pe, i, j, r->t3phierr[j]),
            val(fl, i, j, r->flag[j] ? 1 : 0);
    }
    end();
  }
  k = 0;
  for (GList *l = oi->fluxList; l; l = l->next, k++)
  {
    const oi_flux *v = l->data;
    int nw = v->nwave;
    bool corr = v->corrname[0] != 0, arr = v->arrname[0] != 0;
    begin(f, "OI_FLUX", k, k + 1, 1, v->numrec);
    data_kw(v->date_obs, v->arrname, v->insname, v->corrname);
    char cs[2] = {v->calstat, 0};
    kw_str("CALSTAT", cs);
    kw_opt("FOVTYPE", v->fovtype);
    if (v->fovtype[0]) kw_dbl("FOV", v->fov);
    else kw_none("FOV");
    rf_col *id = col("TARGET_ID", 'I', 1, ""), *mj = col("MJD", 'D', 1, "day"),
           *it = col("INT_TIME", 'D', 1, "s"),
           *am = col("FLUXDATA", 'D', nw, v->fluxunit),
           *ae = col("FLUXERR", 'D', nw, v->fluxunit), *fl = col("FLAG", 'L', nw, "");
    rf_col *si = arr ? col("STA_INDEX", 'I', 1, "") : NULL;
    rf_col *ca = corr ? col("CORRINDX_FLUXDATA", 'J', 1, "") : NULL;
    for (long i = 0; i < v->numrec; i++)
    {
      const oi_flux_record *r = &v->record[i];
      val(id, i, 0, r->target_id), val(mj, i, 0, r->mjd), val(it, i, 0, r->int_time);
      if (si) val(si, i, 0, r->sta_index);
      if (corr) val(ca, i, 0, r->corrindx_fluxdata);
      for (int j = 0; j < nw; j++)
        val(am, i, j, r->fluxdata[j]), val(ae, i, j, r->fluxerr[j]),
            val(fl, i, j, r->flag[j] ? 1 : 0);
    }
    end();
  }
  rf_free(f);
  return acc;
}

/* ------------------------------------------------------- version 1 files */
static const v1opt *O;
static rf_hdu T;
static struct
{
  const char *name, *unit;
  char form[20];
} spec[40];
static int nspec;

static void t_col(const char *name, char type, int repeat, const char *unit)
{
  spec[nspec].name = name;
  spec[nspec].unit = unit;
  snprintf(spec[nspec++].form, 20, "%d%c", repeat, type);
}
static rf_col t_cols[100];
static int t_ncol;
static long t_len;
static void t_begin(const char *extname)
{
  T = rf_table(extname);
  rf_setint(&T, "OI_REVN", 1);
  nspec = 0;
}
static const char *cname(const char *name)
{
  static char b[80];
  int i;
  for (i = 0; name[i]; i++)
    b[i] = O->lower && name[i] >= 'A' && name[i] <= 'Z' ? name[i] + 32 : name[i];
  b[i] = 0;
  return b;
}
static void t_rows(long n)
{
  if (O->extra) rf_addcol(&T, "EXTRA", "3J", NULL);
  for (int k = 0; k < nspec; k++)
  {
    int i = O->reverse ? nspec - 1 - k : k;
    rf_addcol(&T, cname(spec[i].name), spec[i].form,
              O->units && spec[i].unit[0] ? spec[i].unit : NULL);
  }
  rf_addrows(&T, n);
  t_ncol = rf_cols(&T, t_cols, 100);
  if (rf_int(&T, "NAXIS1", &t_len) != 1) abort();
}
static rf_col *t_cell(const char *name, long row, unsigned char **cell)
{
  name = cname(name);
  for (int i = 0; i < t_ncol; i++)
    if (!strcmp(t_cols[i].name, name))
    {
      *cell = T.data + row * t_len + t_cols[i].off;
      return &t_cols[i];
    }
  abort();
}
static void put(const char *name, long row, int elem, double v)
{
  unsigned char *p;
  rf_col *c = t_cell(name, row, &p);
  rf_putnum(p, c->type, elem, v);
}
static void puts_(const char *name, long row, const char *v)
{
  unsigned char *p;
  rf_col *c = t_cell(name, row, &p);
  rf_puttext(p, c->width, v);
}
static void putv(const char *name, long row, int n, const double *v)
{
  for (int i = 0; i < n; i++) put(name, row, i, v[i]);
}
static void putb(const char *name, long row, int n, const BOOL *v)
{
  for (int i = 0; i < n; i++) put(name, row, i, v[i] != 0);
}
static void t_end(rf_file *f)
{
  if (O->sums) rf_seal(&T);
  rf_inshdu(f, -1, T);
}
static void t_data(const char *date_obs, const char *arr, const char *ins)
{
  rf_setstr(&T, "DATE-OBS", date_obs);
  if (arr[0]) rf_setstr(&T, "ARRNAME", arr);
  rf_setstr(&T, "INSNAME", ins);
}

rf_file *oif_v1(const oi_fits *oi, const v1opt *o)
{
  O = o;
  char I_ = o->ints ? 'J' : 'I', D = o->floats ? 'E' : 'D';
  rf_file *f = calloc(1, sizeof(*f));
  rf_inshdu(f, 0, rf_primary());
#define HK(key, field)                                                         \
  if (oi->header.field[0]) rf_setstr(&f->h[0], key, oi->header.field)
  HK("ORIGIN", origin);
  HK("DATE", date);
  HK("DATE-OBS", date_obs);
  HK("CONTENT", content);
  HK("TELESCOP", telescop);
  HK("INSTRUME", instrume);
  HK("OBSERVER", observer);
  HK("INSMODE", insmode);
  HK("OBJECT", object);
  HK("REFERENC", referenc);
  HK("AUTHOR", author);
  HK("PROG_ID", prog_id);
  HK("PROCSOFT", procsoft);
  HK("OBSTECH", obstech);
  if (o->sums) rf_seal(&f->h[0]);

  t_begin("OI_TARGET");
  t_col("TARGET_ID", I_, 1, ""), t_col("TARGET", 'A', 16, "");
  t_col("RAEP0", 'D', 1, "deg"), t_col("DECEP0", 'D', 1, "deg");
  t_col("EQUINOX", 'E', 1, "yr"), t_col("RA_ERR", 'D', 1, "deg");
  t_col("DEC_ERR", 'D', 1, "deg"), t_col("SYSVEL", 'D', 1, "m/s");
  t_col("VELTYP", 'A', 8, ""), t_col("VELDEF", 'A', 8, "");
  t_col("PMRA", 'D', 1, "deg/yr"), t_col("PMDEC", 'D', 1, "deg/yr");
  t_col("PMRA_ERR", 'D', 1, "deg/yr"), t_col("PMDEC_ERR", 'D', 1, "deg/yr");
  t_col("PARALLAX", 'E', 1, "deg"), t_col("PARA_ERR", 'E', 1, "deg");
  t_col("SPECTYP", 'A', 16, "");
  t_rows(oi->targets.ntarget);
  for (int i = 0; i < oi->targets.ntarget; i++)
  {
    const target *t = &oi->targets.targ[i];
    put("TARGET_ID", i, 0, t->target_id), puts_("TARGET", i, t->target);
    put("RAEP0", i, 0, t->raep0), put("DECEP0", i, 0, t->decep0);
    put("EQUINOX", i, 0, t->equinox), put("RA_ERR", i, 0, t->ra_err);
    put("DEC_ERR", i, 0, t->dec_err), put("SYSVEL", i, 0, t->sysvel);
    puts_("VELTYP", i, t->veltyp), puts_("VELDEF", i, t->veldef);
    put("PMRA", i, 0, t->pmra), put("PMDEC", i, 0, t->pmdec);
    put("PMRA_ERR", i, 0, t->pmra_err), put("PMDEC_ERR", i, 0, t->pmdec_err);
    put("PARALLAX", i, 0, t->parallax), put("PARA_ERR", i, 0, t->para_err);
    puts_("SPECTYP", i, t->spectyp);
  }
  t_end(f);
  for (GList *l = oi->arrayList; l; l = l->next)
  {
    const oi_array *a = l->data;
    t_begin("OI_ARRAY");
    rf_setstr(&T, "ARRNAME", a->arrname), rf_setstr(&T, "FRAME", a->frame);
    rf_setdbl(&T, "ARRAYX", a->arrayx), rf_setdbl(&T, "ARRAYY", a->arrayy);
    rf_setdbl(&T, "ARRAYZ", a->arrayz);
    t_col("TEL_NAME", 'A', 16, ""), t_col("STA_NAME", 'A', 16, "");
    t_col("STA_INDEX", I_, 1, ""), t_col("DIAMETER", 'E', 1, "m");
    t_col("STAXYZ", 'D', 3, "m");
    t_rows(a->nelement);
    for (int i = 0; i < a->nelement; i++)
    {
      puts_("TEL_NAME", i, a->elem[i].tel_name);
      puts_("STA_NAME", i, a->elem[i].sta_name);
      put("STA_INDEX", i, 0, a->elem[i].sta_index);
      put("DIAMETER", i, 0, a->elem[i].diameter);
      putv("STAXYZ", i, 3, a->elem[i].staxyz);
    }
    t_end(f);
  }
  for (GList *l = oi->wavelengthList; l; l = l->next)
  {
    const oi_wavelength *w = l->data;
    t_begin("OI_WAVELENGTH");
    rf_setstr(&T, "INSNAME", w->insname);
    t_col("EFF_WAVE", 'E', 1, "m"), t_col("EFF_BAND", 'E', 1, "m");
    t_rows(w->nwave);
    for (int i = 0; i < w->nwave; i++)
      put("EFF_WAVE", i, 0, w->eff_wave[i]), put("EFF_BAND", i, 0, w->eff_band[i]);
    t_end(f);
  }
  for (GList *l = oi->visList; l; l = l->next)
  {
    const oi_vis *v = l->data;
    int nw = v->nwave;
    t_begin("OI_VIS");
    t_data(v->date_obs, v->arrname, v->insname);
    t_col("TARGET_ID", I_, 1, ""), t_col("TIME", 'D', 1, "s");
    t_col("MJD", 'D', 1, "day"), t_col("INT_TIME", 'D', 1, "s");
    t_col("VISAMP", D, nw, ""), t_col("VISAMPERR", D, nw, "");
    t_col("VISPHI", D, nw, "deg"), t_col("VISPHIERR", D, nw, "deg");
    t_col("UCOORD", 'D', 1, "m"), t_col("VCOORD", 'D', 1, "m");
    t_col("STA_INDEX", I_, 2, ""), t_col("FLAG", 'L', nw, "");
    t_rows(v->numrec);
    for (long i = 0; i < v->numrec; i++)
    {
      const oi_vis_record *r = &v->record[i];
      put("TARGET_ID", i, 0, r->target_id), put("TIME", i, 0, r->time);
      put("MJD", i, 0, r->mjd), put("INT_TIME", i, 0, r->int_time);
      putv("VISAMP", i, nw, r->visamp), putv("VISAMPERR", i, nw, r->visamperr);
      putv("VISPHI", i, nw, r->visphi), putv("VISPHIERR", i, nw, r->visphierr);
      put("UCOORD", i, 0, r->ucoord), put("VCOORD", i, 0, r->vcoord);
      put("STA_INDEX", i, 0, r->sta_index[0]), put("STA_INDEX", i, 1, r->sta_index[1]);
      putb("FLAG", i, nw, r->flag);
    }
    t_end(f);
  }
  for (GList *l = oi->vis2List; l; l = l->next)
  {
    const oi_vis2 *v = l->data;
    int nw = v->nwave;
    t_begin("OI_VIS2");
    t_data(v->date_obs, v->arrname, v->insname);
    t_col("TARGET_ID", I_, 1, ""), t_col("TIME", 'D', 1, "s");
    t_col("MJD", 'D', 1, "day"), t_col("INT_TIME", 'D', 1, "s");
    t_col("VIS2DATA", D, nw, ""), t_col("VIS2ERR", D, nw, "");
    t_col("UCOORD", 'D', 1, "m"), t_col("VCOORD", 'D', 1, "m");
    t_col("STA_INDEX", I_, 2, ""), t_col("FLAG", 'L', nw, "");
    t_rows(v->numrec);
    for (long i = 0; i < v->numrec; i++)
    {
      const oi_vis2_record *r = &v->record[i];
      put("TARGET_ID", i, 0, r->target_id), put("TIME", i, 0, r->time);
      put("MJD", i, 0, r->mjd), put("INT_TIME", i, 0, r->int_time);
      putv("VIS2DATA", i, nw, r->vis2data), putv("VIS2ERR", i, nw, r->vis2err);
      put("UCOORD", i, 0, r->ucoord), put("VCOORD", i, 0, r->vcoord);
      put("STA_INDEX", i, 0, r->sta_index[0]), put("STA_INDEX", i, 1, r->sta_index[1]);
      putb("FLAG", i, nw, r->flag);
    }
    t_end(f);
  }
  for (GList *l = oi->t3List; l; l = l->next)
  {
    const oi_t3 *v = l->data;
    int nw = v->nwave;
    t_begin("OI_T3");
    t_data(v->date_obs, v->arrname, v->insname);
    t_col("TARGET_ID", I_, 1, ""), t_col("TIME", 'D', 1, "s");
    t_col("MJD", 'D', 1, "day"), t_col("INT_TIME", 'D', 1, "s");
    t_col("T3AMP", D, nw, ""), t_col("T3AMPERR", D, nw, "");
    t_col("T3PHI", D, nw, "deg"), t_col("T3PHIERR", D, nw, "deg");
    t_col("U1COORD", 'D', 1, "m"), t_col("V1COORD", 'D', 1, "m");
    t_col("U2COORD", 'D', 1, "m"), t_col("V2COORD", 'D', 1, "m");
    t_col("STA_INDEX", I_, 3, ""), t_col("FLAG", 'L', nw, "");
    t_rows(v->numrec);
    for (long i = 0; i < v->numrec; i++)
    {
      const oi_t3_record *r = &v->record[i];
      put("TARGET_ID", i, 0, r->target_id), put("TIME", i, 0, r->time);
      put("MJD", i, 0, r->mjd), put("INT_TIME", i, 0, r->int_time);
      putv("T3AMP", i, nw, r->t3amp), putv("T3AMPERR", i, nw, r->t3amperr);
      putv("T3PHI", i, nw, r->t3phi), putv("T3PHIERR", i, nw, r->t3phierr);
      put("U1COORD", i, 0, r->u1coord), put("V1COORD", i, 0, r->v1coord);
      put("U2COORD", i, 0, r->u2coord), put("V2COORD", i, 0, r->v2coord);
      for (int k = 0; k < 3; k++) put("STA_INDEX", i, k, r->sta_index[k]);
      putb("FLAG", i, nw, r->flag);
    }
    t_end(f);
  }
  return f;
}
