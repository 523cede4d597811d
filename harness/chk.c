#include "chk.h"
#include <stdarg.h>

const check_func chk_fn[NCHECK] = {
    check_tables,          check_header,   check_keywords,
    check_visrefmap,       check_unique_targets,
    check_targets_present, check_arrname,  check_elements_present,
    check_corr_present,    check_flagging, check_t3amp,
    check_waveorder,       check_time,     check_flux};
const char *const chk_name[NCHECK] = {
    "check_tables",          "check_header",   "check_keywords",
    "check_visrefmap",       "check_unique_targets",
    "check_targets_present", "check_arrname",  "check_elements_present",
    "check_corr_present",    "check_flagging", "check_t3amp",
    "check_waveorder",       "check_time",     "check_flux"};

static void hit(chk_res *r, int level, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
static void hit(chk_res *r, int level, const char *fmt, ...)
{
  if (level > r->level) r->level = level;
  r->n++;
  if (r->n < MAX_REPORT)
  {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(r->loc[r->n - 1], FLEN_VALUE, fmt, ap);
    va_end(ap);
  }
}
#define W OI_BREACH_WARNING
#define N OI_BREACH_NOT_OIFITS

static bool has_target(const oi_fits *oi, int id)
{
  for (int i = 0; i < oi->targets.ntarget; i++)
    if (oi->targets.targ[i].target_id == id) return true;
  return false;
}
static bool has_station(const oi_fits *oi, const char *arr, int sta)
{
  for (GList *l = oi->arrayList; l; l = l->next)
  {
    oi_array *a = l->data;
    if (strcmp(a->arrname, arr) != 0) continue;
    for (int i = 0; i < a->nelement; i++)
      if (a->elem[i].sta_index == sta) return true;
    return false; /* the first of that name counts */
  }
  return false;
}
static bool has_corr(const oi_fits *oi, const char *n)
{
  for (GList *l = oi->corrList; l; l = l->next)
    if (strcmp(((oi_corr *)l->data)->corrname, n) == 0) return true;
  return false;
}
static bool in(const char *s, const char *const *set)
{
  for (; *set; set++)
    if (strcmp(s, *set) == 0) return true;
  return false;
}
#define EACH(T, list, v, k)                                                    \
  for (GList *l_ = oi->list; l_; l_ = NULL)                                    \
    for (int k = 1; l_; l_ = l_->next, k++)                                    \
      for (T *v = l_->data; v; v = NULL)

static void tables(const oi_fits *oi, bool v2, chk_res *r)
{
  static const char d2[] = "at least one OI_VIS/VIS2/T3/FLUX required";
  static const char d1[] = "at least one OI_VIS/VIS2/T3 required";
  if (v2 && !oi->arrayList)
    hit(r, N, "No OI_ARRAY table - at least one required");
  if (!oi->wavelengthList)
    hit(r, N, "No OI_WAVELENGTH table - at least one required");
  if (!oi->visList && !oi->vis2List && !oi->t3List && !(v2 && oi->fluxList))
    hit(r, N, "No data table - %s", v2 ? d2 : d1);
  int want = v2 ? 2 : 1;
  if (oi->targets.revision != want) hit(r, N, "OI_TARGET");
#define REV(T, list, name, rev)                                                \
  EACH(T, list, t, k) if (t->revision != (rev)) hit(r, N, name " #%d", k)
  REV(oi_array, arrayList, "OI_ARRAY", want);
  REV(oi_wavelength, wavelengthList, "OI_WAVELENGTH", want);
  REV(oi_vis, visList, "OI_VIS", want);
  REV(oi_vis2, vis2List, "OI_VIS2", want);
  REV(oi_t3, t3List, "OI_T3", want);
  if (v2)
  {
    REV(oi_flux, fluxList, "OI_FLUX", 1);
    REV(oi_corr, corrList, "OI_CORR", 1);
    REV(oi_inspol, inspolList, "OI_INSPOL", 1);
  }
}
static void header(const oi_fits *oi, bool v2, chk_res *r)
{
  if (!v2) return;
  const oi_header *h = &oi->header;
#define H(f, n)                                                                \
  if (!h->f[0]) hit(r, N, n " value missing from primary header")
  H(origin, "ORIGIN");
  H(date, "DATE");
  H(date_obs, "DATE-OBS");
  H(telescop, "TELESCOP");
  H(instrume, "INSTRUME");
  H(observer, "OBSERVER");
  H(insmode, "INSMODE");
  H(object, "OBJECT");
}
static void keywords(const oi_fits *oi, bool v2, chk_res *r)
{
  static const char *const fr[] = {"GEOCENTRIC", "SKY", NULL};
  static const char *const am[] = {"", "absolute", "differential",
                                   "correlated flux", NULL};
  static const char *const ph[] = {"", "absolute", "differential", NULL};
  static const char *const fo[] = {"", "FWHM", "RADIUS", NULL};
  EACH(oi_array, arrayList, t, k)
  if (!in(t->frame, fr))
    hit(r, N, "OI_ARRAY #%d FRAME='%s' ('GEOCENTRIC'/'SKY')", k, t->frame);
  EACH(oi_vis, visList, t, k)
  {
    if (v2 && !in(t->amptyp, am))
      hit(r, N,
          "OI_VIS #%d AMPTYP='%s' ('absolute'/'differential'/'correlated "
          "flux')",
          k, t->amptyp);
    if (v2 && !in(t->phityp, ph))
      hit(r, N, "OI_VIS #%d PHITYP='%s' ('absolute'/'differential')", k,
          t->phityp);
  }
  EACH(oi_flux, fluxList, t, k)
  {
    if (t->calstat != 'C' && t->calstat != 'U')
      hit(r, N, "OI_FLUX #%d CALSTAT='%c' ('C'/'U')", k, t->calstat);
    if (!in(t->fovtype, fo))
      hit(r, N, "OI_FLUX #%d FOVTYPE='%s' ('FWHM', 'RADIUS')", k, t->fovtype);
  }
}
static void visrefmap(const oi_fits *oi, chk_res *r)
{
  EACH(oi_vis, visList, t, k)
  {
    bool diff = !strcmp(t->amptyp, "differential") ||
                !strcmp(t->phityp, "differential");
    if (diff && !t->usevisrefmap)
      hit(r, N, "OI_VIS #%d AMPTYP='%s' PHITYP='%s' has no VISREFMAP", k,
          t->amptyp, t->phityp);
    if (!diff && t->usevisrefmap)
      hit(r, W, "OI_VIS #%d AMPTYP='%s' PHITYP='%s' has VISREFMAP", k,
          t->amptyp, t->phityp);
  }
}
static void unique_targets(const oi_fits *oi, chk_res *r)
{
  for (int i = 0; i < oi->targets.ntarget; i++)
    for (int j = 0; j < i; j++)
      if (!strcmp(oi->targets.targ[i].target, oi->targets.targ[j].target))
      {
        hit(r, W, "TARGET_ID=%d  TARGET='%s'", oi->targets.targ[i].target_id,
            oi->targets.targ[i].target);
        break;
      }
}
static void targets_present(const oi_fits *oi, chk_res *r)
{
#define TGT(T, list, name)                                                     \
  EACH(T, list, t, k)                                                          \
  for (long i = 0; i < t->numrec; i++)                                         \
    if (!has_target(oi, t->record[i].target_id))                               \
  hit(r, N, name " #%d record %ld", k, i + 1)
  TGT(oi_inspol, inspolList, "OI_INSPOL");
  TGT(oi_vis, visList, "OI_VIS");
  TGT(oi_vis2, vis2List, "OI_VIS2");
  TGT(oi_t3, t3List, "OI_T3");
  TGT(oi_flux, fluxList, "OI_FLUX");
}
static void arrname(const oi_fits *oi, bool v2, chk_res *r)
{
  if (!v2) return;
#define ARRN(T, list, name, cond)                                              \
  EACH(T, list, t, k) if (!t->arrname[0] && (cond)) hit(r, N, name " #%d", k)
  ARRN(oi_inspol, inspolList, "OI_INSPOL", 1);
  ARRN(oi_vis, visList, "OI_VIS", 1);
  ARRN(oi_vis2, vis2List, "OI_VIS2", 1);
  ARRN(oi_t3, t3List, "OI_T3", 1);
  ARRN(oi_flux, fluxList, "OI_FLUX", t->calstat == 'U');
}
static void elements(const oi_fits *oi, chk_res *r)
{
  EACH(oi_inspol, inspolList, t, k)
  {
    if (!t->arrname[0])
      hit(r, N, "OI_INSPOL #%d", k);
    else
      for (long i = 0; i < t->numrec; i++)
        if (!has_station(oi, t->arrname, t->record[i].sta_index))
          hit(r, N, "OI_INSPOL #%d record %ld", k, i + 1);
  }
#define ELEM(T, list, name, n)                                                 \
  EACH(T, list, t, k)                                                          \
  if (t->arrname[0])                                                           \
    for (long i = 0; i < t->numrec; i++)                                       \
      for (int j = 0; j < n; j++)                                              \
        if (!has_station(oi, t->arrname, t->record[i].sta_index[j]))           \
  hit(r, N, name " #%d record %ld", k, i + 1)
  ELEM(oi_vis, visList, "OI_VIS", 2);
  ELEM(oi_vis2, vis2List, "OI_VIS2", 2);
  ELEM(oi_t3, t3List, "OI_T3", 3);
  EACH(oi_flux, fluxList, t, k)
  if (t->arrname[0])
    for (long i = 0; i < t->numrec; i++)
      if (t->record[i].sta_index != -1 &&
          !has_station(oi, t->arrname, t->record[i].sta_index))
        hit(r, N, "OI_FLUX #%d record %ld", k, i + 1);
}
static void corr_present(const oi_fits *oi, chk_res *r)
{
#define CORRP(T, list, name)                                                   \
  EACH(T, list, t, k)                                                          \
  if (t->corrname[0] && !has_corr(oi, t->corrname)) hit(r, N, name " #%d", k)
  CORRP(oi_vis, visList, "OI_VIS");
  CORRP(oi_vis2, vis2List, "OI_VIS2");
  CORRP(oi_t3, t3List, "OI_T3");
  CORRP(oi_flux, fluxList, "OI_FLUX");
}
static void flagging(const oi_fits *oi, chk_res *r)
{
#define NEG(T, list, name, cond)                                               \
  EACH(T, list, t, k)                                                          \
  for (long i = 0; i < t->numrec; i++)                                         \
    for (int j = 0; j < t->nwave; j++)                                         \
      if (!t->record[i].flag[j] && (cond))                                     \
  hit(r, N, name " #%d record %ld channel %d", k, i + 1, j + 1)
  NEG(oi_vis, visList, "OI_VIS",
      t->record[i].visamperr[j] < 0 || t->record[i].visphierr[j] < 0);
  NEG(oi_vis2, vis2List, "OI_VIS2", t->record[i].vis2err[j] < 0);
  NEG(oi_t3, t3List, "OI_T3",
      t->record[i].t3amperr[j] < 0 || t->record[i].t3phierr[j] < 0);
}
static void t3amp(const oi_fits *oi, chk_res *r)
{
  NEG(oi_t3, t3List, "OI_T3",
      t->record[i].t3amp[j] - 1.0 > t->record[i].t3amperr[j]);
}
static void waveorder(const oi_fits *oi, chk_res *r)
{
  EACH(oi_wavelength, wavelengthList, t, k)
  for (int i = 1; i < t->nwave; i++)
  {
    bool down = t->eff_wave[i] < t->eff_wave[i - 1];
    bool before = i + 1 < t->nwave && t->eff_wave[i] > t->eff_wave[i + 1];
    if (down || before)
      hit(r, W, "OI_WAVELENGTH INSNAME=%s channel %d", t->insname, i + 1);
  }
}
static void timecol(const oi_fits *oi, bool v2, chk_res *r)
{
  if (!v2) return;
#define TIM(T, list, name)                                                     \
  EACH(T, list, t, k)                                                          \
  for (long i = 0; i < t->numrec; i++)                                         \
    if (t->record[i].time > 1e-10 || t->record[i].time < -1e-10)               \
  hit(r, W, name " #%d record %ld", k, i + 1)
  TIM(oi_vis, visList, "OI_VIS");
  TIM(oi_vis2, vis2List, "OI_VIS2");
  TIM(oi_t3, t3List, "OI_T3");
}
static void flux(const oi_fits *oi, chk_res *r)
{
  EACH(oi_flux, fluxList, t, k)
  {
    bool sta = t->numrec > 0 && t->record[0].sta_index != -1;
    bool nosta = t->numrec > 0 && t->record[0].sta_index == -1;
    if (t->calstat == 'C')
    {
      if (t->arrname[0])
        hit(r, N, "OI_FLUX #%d Calibrated but ARRNAME='%s'", k, t->arrname);
      if (sta) hit(r, N, "OI_FLUX #%d Calibrated but STA_INDEX present", k);
    }
    if (t->calstat == 'U')
    {
      if (!t->arrname[0])
        hit(r, N, "OI_FLUX #%d Uncalibrated but ARRNAME missing", k);
      if (nosta)
        hit(r, N, "OI_FLUX #%d Uncalibrated but STA_INDEX missing", k);
      if (t->fovtype[0])
        hit(r, N, "OI_FLUX #%d Uncalibrated but FOVTYPE present", k);
    }
  }
}

void chk_oracle(const oi_fits *oi, int k, chk_res *r)
{
  memset(r, 0, sizeof(*r));
  bool v2 = strcmp(oi->header.content, "OIFITS2") == 0;
  switch (k)
  {
  case 0: tables(oi, v2, r); break;
  case 1: header(oi, v2, r); break;
  case 2: keywords(oi, v2, r); break;
  case 3: visrefmap(oi, r); break;
  case 4: unique_targets(oi, r); break;
  case 5: targets_present(oi, r); break;
  case 6: arrname(oi, v2, r); break;
  case 7: elements(oi, r); break;
  case 8: corr_present(oi, r); break;
  case 9: flagging(oi, r); break;
  case 10: t3amp(oi, r); break;
  case 11: waveorder(oi, r); break;
  case 12: timecol(oi, v2, r); break;
  case 13: flux(oi, r); break;
  }
}

static int cmploc(const void *a, const void *b)
{
  return strcmp(*(char *const *)a, *(char *const *)b);
}

int chk_run(const oi_fits *oi)
{
  int worst = 0;
  static char firstdesc[NCHECK][200];
  for (int k = 0; k < NCHECK; k++)
  {
    chk_res w;
    chk_oracle(oi, k, &w);
    oi_check_result g;
    memset(&g, 0x5a, sizeof(g));
    int lev = chk_fn[k](oi, &g);
    MC_CHECK(lev == w.level && (int)g.level == w.level,
             "%s: severity %d/%d, should be %d (%s)", chk_name[k], lev, g.level,
             w.level, w.n ? w.loc[0] : "no breach");
    MC_CHECK(g.numBreach == w.n, "%s: %d occurrences reported, should be %d (%s)",
             chk_name[k], g.numBreach, w.n,
             w.n ? w.loc[0] : g.numBreach ? g.location[0] : "");
    int nl = w.n < MAX_REPORT ? w.n : MAX_REPORT - 1;
    for (int i = 0; i < nl; i++)
      MC_CHECK(g.location[i] != NULL, "%s: location %d missing", chk_name[k], i);
    if (w.n < MAX_REPORT)
    {
      /* all are listed: the order is not part of the property */
      char *a[MAX_REPORT], *b[MAX_REPORT];
      for (int i = 0; i < nl; i++)
        a[i] = g.location[i], b[i] = w.loc[i];
      qsort(a, nl, sizeof(*a), cmploc);
      qsort(b, nl, sizeof(*b), cmploc);
      for (int i = 0; i < nl; i++)
        MC_CHECK(strcmp(a[i], b[i]) == 0, "%s: location '%s', should be '%s'",
                 chk_name[k], a[i], b[i]);
    }
    else
      for (int i = 0; i < nl; i++)
        MC_CHECK(strcmp(g.location[i], w.loc[i]) == 0,
                 "%s: location #%d '%s', should be '%s'", chk_name[k], i,
                 g.location[i], w.loc[i]);
    char *txt = format_check_result(&g);
    if (w.n == 0)
      MC_CHECK(txt == NULL, "%s: text for no breach", chk_name[k]);
    else
    {
      MC_CHECK(g.description && g.description[0], "%s: no description",
               chk_name[k]);
      if (!firstdesc[k][0])
        snprintf(firstdesc[k], sizeof(firstdesc[k]), "%s", g.description);
      MC_CHECK(txt && strstr(txt, g.description), "%s: text lacks description",
               chk_name[k]);
      MC_CHECK(strstr(txt, oi_breach_level_desc[w.level]),
               "%s: text lacks the severity", chk_name[k]);
      char num[40];
      snprintf(num, sizeof(num), " %d occurrences", w.n);
      MC_CHECK(strstr(txt, num), "%s: text lacks '%s'", chk_name[k], num);
      for (int i = 0; i < nl; i++)
        MC_CHECK(strstr(txt, g.location[i]), "%s: text lacks location '%s'",
                 chk_name[k], g.location[i]);
    }
    free_check_result(&g);
    if (w.level > worst) worst = w.level;
    mc_outcome((uint64_t)k * 1000003 + w.n * 8 + w.level +
               (w.n ? mc_hash(w.loc[0], strlen(w.loc[0]), k) : 0));
  }
  mc_evals(NCHECK);
  return worst;
}

oi_fits *chk_base(int v, int nrec, int nwave)
{
  oi_fits *oi = ds_new();
  char b[20];
  ds_targets(oi, 2, v == 2);
  for (int i = 0; i < 2; i++)
  {
    snprintf(b, sizeof(b), "ARR%d", i);
    ds_array(oi, b, 3, i);
    snprintf(b, sizeof(b), "INS%d", i);
    ds_wave(oi, b, nwave, i);
    if (v == 2)
    {
      snprintf(b, sizeof(b), "COR%d", i);
      ds_corr(oi, b, 50, 3, i);
    }
  }
  for (int i = 0; i < 2; i++)
  {
    const char *A = i ? "ARR1" : "ARR0", *I0 = i ? "INS1" : "INS0";
    const char *C = v == 1 ? "" : i ? "COR1" : "COR0";
    if (v == 2) ds_inspol(oi, A, I0, nrec, nwave, i);
    oi_vis *t = ds_vis(oi, A, I0, C, nrec, nwave, i);
    if (v == 2)
    {
      SETS(t->amptyp, i ? "absolute" : "correlated flux");
      SETS(t->phityp, i ? "absolute" : "differential");
      if (!i) vis_refmap(t, i);
    }
    ds_vis2(oi, A, I0, C, nrec, nwave, i);
    oi_t3 *p = ds_t3(oi, A, I0, C, nrec, nwave, i);
    for (int k = 0; k < nrec; k++)
      for (int j = 0; j < nwave; j++)
        p->record[k].t3amp[j] = 0.5 + 0.125 * j, p->record[k].t3amperr[j] = 0.25;
    if (v == 2)
    {
      oi_flux *f = ds_flux(oi, i ? "" : A, I0, C, nrec, nwave, i);
      SETS(f->fovtype, i ? "FWHM" : "");
    }
  }
  if (v == 1)
  {
    ds_downgrade(oi);
    SETS(oi->header.content, "");
    for (GList *l = oi->visList; l; l = l->next)
      ((oi_vis *)l->data)->record[0].time = 10.0;
  }
  return oi;
}
