/* C11: conformity checker */
#include "chk.h"

/* ---- catalogue of changes, addressed by number ---- */
typedef struct
{
  int want; /* the one to apply; -1: count only */
  int n;
  bool done;
} cat;
#define M(stmt)                                                                \
  do                                                                           \
  {                                                                            \
    if (c->n++ == c->want)                                                     \
    {                                                                          \
      stmt;                                                                    \
      c->done = true;                                                          \
    }                                                                          \
  } while (0)

static void drop(oi_fits *oi, int what)
{
#define DROP(list, num, fr, T)                                                 \
  while (oi->list)                                                             \
  {                                                                            \
    T *t = oi->list->data;                                                     \
    oi->list = g_list_delete_link(oi->list, oi->list);                         \
    fr(t);                                                                     \
  }                                                                            \
  oi->num = 0
  if (what & 1)
  {
    g_hash_table_remove_all(oi->arrayHash);
    DROP(arrayList, numArray, fr_array, oi_array);
  }
  if (what & 2)
  {
    g_hash_table_remove_all(oi->wavelengthHash);
    DROP(wavelengthList, numWavelength, fr_wave, oi_wavelength);
  }
  if (what & 4)
  {
    g_hash_table_remove_all(oi->corrHash);
    DROP(corrList, numCorr, fr_corr, oi_corr);
  }
  if (what & 8)
  {
    DROP(visList, numVis, fr_vis, oi_vis);
  }
  if (what & 16)
  {
    DROP(vis2List, numVis2, fr_vis2, oi_vis2);
  }
  if (what & 32)
  {
    DROP(t3List, numT3, fr_t3, oi_t3);
  }
  if (what & 64)
  {
    DROP(fluxList, numFlux, fr_flux, oi_flux);
  }
  if (what & 128)
  {
    DROP(inspolList, numInspol, fr_inspol, oi_inspol);
  }
}

static const double times[] = {1e-10, 1.0000001e-10, -2e-10, 5.0};

static void catalogue(oi_fits *oi, cat *c)
{
  GList *l;
  oi_header *h = &oi->header;
  M(SETS(h->origin, ""));
  M(SETS(h->date, ""));
  M(SETS(h->date_obs, ""));
  M(SETS(h->telescop, ""));
  M(SETS(h->instrume, ""));
  M(SETS(h->observer, ""));
  M(SETS(h->insmode, ""));
  M(SETS(h->object, ""));
  M(SETS(h->content, "OIFITS2"));
  M(SETS(h->content, "OIFITS1"));
  M(SETS(h->content, ""));
  M(oi->targets.revision = 1);
  M(oi->targets.revision = 2);
  M(oi->targets.revision = 3);
  for (int k = 0; k < 8; k++)
    M(drop(oi, 1 << k));
  M(drop(oi, 8 + 16 + 32));
  M(drop(oi, 8 + 16 + 32 + 64));
  M(drop(oi, 255));
  for (int i = 0; i < oi->targets.ntarget; i++)
  {
    M(oi->targets.targ[i].target_id = 1);
    M(oi->targets.targ[i].target_id = 9);
    M(SETS(oi->targets.targ[i].target, "TGT_1"));
    M(SETS(oi->targets.targ[i].target, "TGT_2"));
    M(SETS(oi->targets.targ[i].target, "TGT"));
  }
  for (l = oi->arrayList; l; l = l->next)
  {
    oi_array *t = l->data;
    M(t->revision = 1);
    M(t->revision = 2);
    M(t->revision = 0);
    M(SETS(t->frame, "SKY"));
    M(SETS(t->frame, ""));
    M(SETS(t->frame, "GEO"));
    M(SETS(t->frame, "SKYLINE"));
    M(SETS(t->arrname, "ARR1"));
    M(SETS(t->arrname, "OTHER"));
    for (int i = 0; i < t->nelement; i++)
      M(t->elem[i].sta_index = 44);
    M(t->nelement = 2);
    M(t->nelement = 0);
  }
  for (l = oi->wavelengthList; l; l = l->next)
  {
    oi_wavelength *t = l->data;
    M(t->revision = 1);
    M(t->revision = 2);
    M(t->revision = 7);
    M(SETS(t->insname, "OTHER"));
    for (int i = 0; i < t->nwave; i++)
    {
      M(t->eff_wave[i] = 1e-9f);
      M(t->eff_wave[i] = 1.0f);
      M(t->eff_wave[i] = t->eff_wave[i ? i - 1 : t->nwave - 1]);
      M(t->eff_wave[i] = NAN);
    }
  }
  for (l = oi->corrList; l; l = l->next)
  {
    oi_corr *t = l->data;
    M(t->revision = 2);
    M(SETS(t->corrname, "OTHER"));
  }
  for (l = oi->inspolList; l; l = l->next)
  {
    oi_inspol *t = l->data;
    M(t->revision = 2);
    M(SETS(t->arrname, ""));
    M(SETS(t->arrname, "MISSING"));
    for (long i = 0; i < t->numrec; i++)
    {
      M(t->record[i].sta_index = 44);
      M(t->record[i].target_id = 9);
    }
  }
#define DATA(nsta)                                                             \
  M(t->revision = 1);                                                          \
  M(t->revision = 2);                                                          \
  M(t->revision = 3);                                                          \
  M(SETS(t->arrname, ""));                                                     \
  M(SETS(t->arrname, "MISSING"));                                              \
  M(SETS(t->corrname, ""));                                                    \
  M(SETS(t->corrname, "MISSING"));                                             \
  for (long i = 0; i < t->numrec; i++)                                         \
  {                                                                            \
    M(t->record[i].target_id = 2);                                             \
    M(t->record[i].target_id = 9);                                             \
    for (int j = 0; j < nsta; j++)                                             \
    {                                                                          \
      M(((int *)&t->record[i].sta_index)[j] = 44);                             \
      M(((int *)&t->record[i].sta_index)[j] = -1);                             \
    }                                                                          \
    for (int j = 0; j < t->nwave; j++)                                         \
      M(t->record[i].flag[j] = !t->record[i].flag[j]);                         \
  }
#define TIMES                                                                  \
  for (long i = 0; i < t->numrec; i++)                                         \
    for (int j = 0; j < 4; j++)                                                \
  M(t->record[i].time = times[j])
#define ERR(f)                                                                 \
  for (long i = 0; i < t->numrec; i++)                                         \
    for (int j = 0; j < t->nwave; j++)                                         \
    {                                                                          \
      M(t->record[i].f[j] = -0.5);                                             \
      M(t->record[i].f[j] = -0.0);                                             \
      M(t->record[i].f[j] = NAN);                                              \
    }
  for (l = oi->visList; l; l = l->next)
  {
    oi_vis *t = l->data;
    DATA(2)
    TIMES;
    ERR(visamperr)
    ERR(visphierr)
    static const char *const ty[] = {"", "absolute", "differential",
                                     "correlated flux", "bad", "Absolute"};
    for (int j = 0; j < 6; j++)
    {
      M(SETS(t->amptyp, ty[j]));
      M(SETS(t->phityp, ty[j]));
    }
    M(if (!t->usevisrefmap) vis_refmap(t, 0));
    M(t->usevisrefmap = FALSE);
  }
  for (l = oi->vis2List; l; l = l->next)
  {
    oi_vis2 *t = l->data;
    DATA(2)
    TIMES;
    ERR(vis2err)
  }
  for (l = oi->t3List; l; l = l->next)
  {
    oi_t3 *t = l->data;
    DATA(3)
    TIMES;
    ERR(t3amperr)
    ERR(t3phierr)
    for (long i = 0; i < t->numrec; i++)
      for (int j = 0; j < t->nwave; j++)
      {
        M(t->record[i].t3amp[j] = 1.25);
        M(t->record[i].t3amp[j] = 1.25 + 1.0 / 65536);
        M(t->record[i].t3amp[j] = NAN);
        M(t->record[i].t3amp[j] = 5.0);
      }
  }
  for (l = oi->fluxList; l; l = l->next)
  {
    oi_flux *t = l->data;
    DATA(1)
    ERR(fluxerr)
    M(t->calstat = 'C');
    M(t->calstat = 'U');
    M(t->calstat = 'X');
    M(SETS(t->fovtype, ""));
    M(SETS(t->fovtype, "FWHM"));
    M(SETS(t->fovtype, "RADIUS"));
    M(SETS(t->fovtype, "FW"));
    M(for (long i = 0; i < t->numrec; i++) t->record[i].sta_index = -1);
    M(for (long i = 0; i < t->numrec; i++) t->record[i].sta_index = 1);
    M(SETS(t->arrname, "ARR0"));
  }
  M((void)0); /* nothing */
}

static int cat_size(int v, int nrec, int nwave)
{
  static int memo[3][4][4];
  int *m = &memo[v][nrec][nwave];
  if (!*m)
  {
    oi_fits *b = chk_base(v, nrec, nwave);
    cat c = {-1, 0, false};
    catalogue(b, &c);
    *m = c.n;
    ds_free(b);
  }
  return *m;
}

static void check_all(oi_fits *oi)
{
  oi_fits *work = ds_clone(oi); /* with fresh lookup tables */
  chk_run(work);
  ds_expect(oi, work, SER_RAW, "checking modified the dataset");
}

static void c11_pairs(void)
{
  int v = 1 + mc_pick(2, "version-1");
  int nrec = 2, nwave = mc_thorough ? 3 : 2;
  int n = cat_size(v, nrec, nwave);
  int a = mc_pick(n, "first");
  int b = mc_pick(n, "second");
  if (b < a) mc_skip();
  mc_mine();
  oi_fits *oi = chk_base(v, nrec, nwave);
  cat c = {a, 0, false};
  catalogue(oi, &c);
  if (b != a)
  {
    cat d = {b, 0, false};
    catalogue(oi, &d);
  }
  check_all(oi);
}

static void c11_base(void)
{
  int v = 1 + mc_pick(2, "version-1");
  int nrec = mc_pick(4, "records");
  int nwave = 1 + mc_pick(3, "channels-1");
  mc_mine();
  oi_fits *oi = chk_base(v, nrec ? nrec : 1, nwave);
  if (nrec == 0)
  {
    /* tables without rows */
    for (GList *l = oi->visList; l; l = l->next)
    {
      oi_vis *t = l->data;
      t->numrec = 0;
    }
    for (GList *l = oi->fluxList; l; l = l->next)
    {
      oi_flux *t = l->data;
      t->numrec = 0;
    }
  }
  int w = chk_run(oi);
  MC_CHECK(w == 0, "conforming dataset is at fault with the oracle");
}

/* single changes at every position of larger datasets */
static void c11_single(void)
{
  int v = 1 + mc_pick(2, "version-1");
  int nrec = 1 + mc_pick(3, "records-1"), nwave = 1 + mc_pick(3, "channels-1");
  int n = cat_size(v, nrec, nwave);
  int a = mc_pick(n, "change");
  mc_mine();
  oi_fits *oi = chk_base(v, nrec, nwave);
  cat c = {a, 0, false};
  catalogue(oi, &c);
  check_all(oi);
}

static void c11_cells(void)
{
  static oi_fits *base[2];
  static cell *cells[2];
  static int n[2];
  int v = mc_pick(2, "version-1");
  if (!base[v])
  {
    base[v] = chk_base(v + 1, 2, 2);
    ds_keep(base[v]);
    n[v] = ds_cells(base[v], &cells[v]);
  }
  int i = mc_pick(n[v], "cell");
  int x = mc_pick(cell_nvalues(&cells[v][i]), "value");
  mc_mine();
  oi_fits *oi = ds_clone(base[v]);
  cell *c;
  ds_cells(oi, &c);
  bool ok = cell_set(&c[i], x);
  free(c);
  if (!ok) return;
  check_all(oi);
}

static void c11_shape(void)
{
  oi_fits *oi = ds_gen(true);
  int v1 = mc_dev(3, "version");
  mc_mine();
  if (v1) SETS(oi->header.content, "");
  if (v1 == 2) ds_downgrade(oi);
  check_all(oi);
}

/* occurrences in any number: beyond the reporting limit */
static void c11_counts(void)
{
  int rule = mc_pick(17, "rule");
  int n = mc_pick(mc_thorough ? 120 : 30, "occurrences");
  int where = mc_pick(2, "table");
  mc_mine();
  int nrec = n + 2;
  oi_fits *oi = chk_base(2, nrec, 2);
#define TAB(T, list) T *t = NTH(oi->list, where)
#define REC(T, list, stmt)                                                     \
  {                                                                            \
    TAB(T, list);                                                              \
    for (int i = 0; i < n; i++)                                                \
    {                                                                          \
      stmt;                                                                    \
    }                                                                          \
  }
  switch (rule)
  {
  case 0: REC(oi_vis, visList, t->record[i].target_id = 99) break;
  case 1: REC(oi_vis2, vis2List, t->record[i + 1].target_id = 99) break;
  case 2: REC(oi_t3, t3List, t->record[i].target_id = 99) break;
  case 3: REC(oi_flux, fluxList, t->record[i].target_id = 99) break;
  case 4: REC(oi_inspol, inspolList, t->record[i].target_id = 99) break;
  case 5: REC(oi_vis, visList, t->record[i].sta_index[1] = 99) break;
  case 6: REC(oi_t3, t3List, t->record[i].sta_index[2] = 99) break;
  case 7: REC(oi_inspol, inspolList, t->record[i].sta_index = 99) break;
  case 8: REC(oi_vis, visList, (t->record[i].flag[0] = 0, t->record[i].visamperr[0] = -1)) break;
  case 9: REC(oi_vis2, vis2List, (t->record[i].flag[1] = 0, t->record[i].vis2err[1] = -1)) break;
  case 10: REC(oi_t3, t3List, (t->record[i].flag[1] = 0, t->record[i].t3amp[1] = 9)) break;
  case 11: REC(oi_vis, visList, t->record[i].time = i + 1) break;
  case 12: REC(oi_t3, t3List, t->record[i].time = i + 1) break;
  case 13: /* duplicate targets */
    free(oi->targets.targ);
    ds_targets(oi, n + 2, false);
    for (int i = 0; i < n; i++)
      SETS(oi->targets.targ[i + 2].target, where ? "TGT_1" : "TGT_2");
    break;
  case 14: /* many tables without ARRNAME */
    for (int i = 0; i < n; i++)
      ds_vis2(oi, "", "INS0", "", 1, 2, i);
    break;
  case 15: /* many tables with a bad revision and a missing OI_CORR */
    for (int i = 0; i < n; i++)
    {
      oi_t3 *t = ds_t3(oi, "ARR0", "INS0", "LOST", 1, 2, i);
      t->record[0].t3amp[0] = 0;
      t->revision = 1;
    }
    break;
  case 16: /* decreasing wavelengths */
  {
    char b[] = "INSX";
    oi_wavelength *t = ds_wave(oi, b, n + 2, 0);
    for (int i = 0; i < n + 2; i++)
      t->eff_wave[i] = where ? (n + 5 - i) * 1e-6f : (1 + i % 2) * 1e-6f;
    break;
  }
  }
  check_all(oi);
}

/* small tables with every combination of the values a check looks at */
static void c11_products(void)
{
  static const int sta[] = {-1, -2, 0, 1, 3, 32767, -32768};
  static const double val[] = {-INFINITY, -1, -0.0, 0, 0.5, 1, 1.25, 1.5, 2, INFINITY, NAN};
  static const char *const ty[] = {"",    "absolute",  "differential", "correlated flux",
                                   "bad", "Absolute",  "absolut",      "absolutely",
                                   " ",   "correlated", "differentia", "DIFFERENTIAL"};
  static const char *const con[] = {"", "OIFITS1", "OIFITS2", "OIFITS2X", "oifits2"};
  int kind = mc_pick(9, "check");
  oi_fits *oi;
#define BASE(tabs)                                                             \
  mc_mine();                                                                   \
  oi = ds_new();                                                               \
  ds_targets(oi, 2, false);                                                    \
  ds_array(oi, "ARR0", 3, 0), ds_wave(oi, "INS0", 2, 0);                       \
  tabs;
  if (kind == 0) /* fluxes */
  {
    int cs = mc_pick(4, "calstat"), ar = mc_pick(3, "array"), nr = mc_pick(3, "records"), at = mc_pick(2, "table");
    int s0 = nr > 0 ? mc_pick(7, "station") : 0, s1 = nr > 1 ? mc_pick(7, "station") : 0, fo = mc_pick(3, "fovtype");
    BASE()
    oi_flux *t = NULL;
    for (int i = 0; i <= at; i++)
      t = ds_flux(oi, i == at ? ar == 0 ? "" : ar == 1 ? "ARR0" : "LOST" : "ARR0", "INS0", "", i == at ? nr : 1, 2, i);
    t->calstat = "CUX"[cs]; /* and NUL */
    SETS(t->fovtype, fo == 0 ? "" : fo == 1 ? "FWHM" : "FW");
    if (nr > 0) t->record[0].sta_index = sta[s0];
    if (nr > 1) t->record[1].sta_index = sta[s1];
  }
  else if (kind == 1) /* kinds of visibility */
  {
    int am = mc_pick(12, "amptyp"), ph = mc_pick(12, "phityp"), rm = mc_pick(2, "refmap"), c = mc_pick(5, "content");
    BASE(ds_vis(oi, "ARR0", "INS0", "", 1, 2, 0))
    oi_vis *t = ds_vis(oi, "ARR0", "INS0", "", 1, 2, 1);
    SETS(t->amptyp, ty[am]), SETS(t->phityp, ty[ph]);
    if (rm) vis_refmap(t, 0);
    SETS(oi->header.content, con[c]);
  }
  else if (kind == 2) /* stations */
  {
    int n = mc_pick(4, "stations"), s[3], q[2];
    for (int i = 0; i < n; i++)
      s[i] = sta[mc_pick(7, "station")];
    for (int i = 0; i < 2; i++)
      q[i] = sta[mc_pick(7, "wanted")];
    mc_mine();
    oi = ds_new();
    ds_targets(oi, 1, false), ds_wave(oi, "INS0", 2, 0), ds_array(oi, "ARR1", 3, 0);
    oi_array *a = ds_array(oi, "ARR0", n, 1);
    for (int i = 0; i < n; i++)
      a->elem[i].sta_index = s[i];
    oi_vis *v = ds_vis(oi, "ARR0", "INS0", "", 2, 2, 0);
    oi_vis2 *w = ds_vis2(oi, "ARR0", "INS0", "", 2, 2, 0);
    oi_t3 *t = ds_t3(oi, "ARR0", "INS0", "", 2, 2, 0);
    oi_flux *f = ds_flux(oi, "ARR0", "INS0", "", 2, 2, 0);
    oi_inspol *p = ds_inspol(oi, "ARR0", "INS0", 2, 2, 0);
    for (int i = 0; i < 2; i++)
    {
      v->record[1].sta_index[i] = q[i], w->record[0].sta_index[i] = q[i];
      t->record[1].sta_index[1 + i] = q[i];
      f->record[i].sta_index = q[i], p->record[i].sta_index = q[i];
    }
  }
  else if (kind == 3) /* targets */
  {
    static const int id[] = {-1, 0, 1, 2, 32767};
    int n = mc_pick(4, "targets"), s[3], q[2];
    for (int i = 0; i < n; i++)
      s[i] = id[mc_pick(5, "target")];
    for (int i = 0; i < 2; i++)
      q[i] = id[mc_pick(5, "wanted")];
    mc_mine();
    oi = ds_new();
    ds_targets(oi, n, false), ds_wave(oi, "INS0", 2, 0), ds_array(oi, "ARR0", 3, 1);
    for (int i = 0; i < n; i++)
      oi->targets.targ[i].target_id = s[i];
    for (int i = 0; i < 2; i++)
    {
      ds_vis(oi, "ARR0", "INS0", "", 2, 2, 0)->record[1].target_id = q[i];
      ds_vis2(oi, "ARR0", "INS0", "", 2, 2, 0)->record[i].target_id = q[i];
      ds_t3(oi, "ARR0", "INS0", "", 2, 2, 0)->record[0].target_id = q[i];
      ds_flux(oi, "ARR0", "INS0", "", 2, 2, 0)->record[1 - i].target_id = q[i];
      ds_inspol(oi, "ARR0", "INS0", 2, 2, 0)->record[i].target_id = q[i];
    }
  }
  else if (kind == 4) /* equal targets, in every arrangement */
  {
    int n = 1 + mc_pick(mc_thorough ? 7 : 6, "targets"), s[8];
    for (int i = 0; i < n; i++)
      s[i] = mc_pick(i < 3 ? i + 1 : 4, "name");
    BASE(ds_vis2(oi, "ARR0", "INS0", "", 1, 2, 0))
    free(oi->targets.targ);
    ds_targets(oi, n, false);
    static const char *const nm[] = {"", "T", "TT", "t"};
    for (int i = 0; i < n; i++)
      SETS(oi->targets.targ[i].target, nm[s[i]]);
  }
  else if (kind == 5) /* orders of wavelengths */
  {
    int n = 1 + mc_pick(mc_thorough ? 7 : 6, "channels"), s[8];
    for (int i = 0; i < n; i++)
      s[i] = mc_pick(4, "wavelength");
    BASE()
    oi_wavelength *w = ds_wave(oi, "INS1", n, 0);
    static const float ev[] = {1e-6f, 1.0000001e-6f, 2e-6f, NAN};
    for (int i = 0; i < n; i++)
      w->eff_wave[i] = ev[s[i]];
    ds_wave(oi, "INS2", n, 0);
  }
  else if (kind == 6) /* errors and flags */
  {
    int fl = mc_pick(4, "flags"), v0 = mc_pick(11, "value"), e0 = mc_pick(11, "error"), e1 = mc_pick(11, "error");
    BASE()
    oi_vis *v = ds_vis(oi, "ARR0", "INS0", "", 2, 2, 0);
    oi_vis2 *w = ds_vis2(oi, "ARR0", "INS0", "", 2, 2, 0);
    oi_t3 *t = ds_t3(oi, "ARR0", "INS0", "", 2, 2, 0);
    for (int k = 0; k < 2; k++)
    {
      v->record[1].flag[k] = w->record[0].flag[k] = t->record[1].flag[k] = fl >> k & 1;
      v->record[1].visamp[k] = w->record[0].vis2data[k] = t->record[1].t3amp[k] = val[v0];
      v->record[1].visamperr[k] = w->record[0].vis2err[k] = t->record[1].t3amperr[k] = val[k ? e1 : e0];
      v->record[1].visphierr[k] = t->record[1].t3phierr[k] = val[k ? e0 : e1];
    }
  }
  else if (kind == 7) /* mandatory primary keywords, in datasets that lack tables */
  {
    int h = mc_pick(256, "keywords without value"), n = mc_pick(3, "targets"), tabs = mc_pick(8, "tables"), c = mc_pick(3, "content");
    mc_mine();
    oi = ds_new();
    if (n) ds_targets(oi, n, false);
    if (tabs & 1) ds_array(oi, "ARR0", 3, 0);
    if (tabs & 2) ds_wave(oi, "INS0", 2, 0);
    if (tabs & 4) ds_vis2(oi, "ARR0", "INS0", "", 1, 2, 0);
    SETS(oi->header.content, con[c]);
    char *f[] = {oi->header.origin, oi->header.date, oi->header.date_obs, oi->header.telescop,
                 oi->header.instrume, oi->header.observer, oi->header.insmode, oi->header.object};
    for (int i = 0; i < 8; i++)
      if (h >> i & 1) *f[i] = 0;
  }
  else /* times */
  {
    static const double tm[] = {0, -0.0, 1e-10, -1e-10, 1.0000001e-10, -1.0000001e-10, 1, -1, INFINITY, -INFINITY, NAN};
    int x[3], c = mc_pick(5, "content");
    for (int i = 0; i < 3; i++)
      x[i] = mc_pick(11, "time");
    BASE()
    oi_vis *v = ds_vis(oi, "ARR0", "INS0", "", 3, 2, 0);
    oi_vis2 *w = ds_vis2(oi, "ARR0", "INS0", "", 3, 2, 0);
    oi_t3 *t = ds_t3(oi, "ARR0", "INS0", "", 3, 2, 0);
    for (int i = 0; i < 3; i++)
      v->record[i].time = tm[x[i]], w->record[i].time = tm[x[2 - i]], t->record[i].time = tm[x[(i + 1) % 3]];
    SETS(oi->header.content, con[c]);
  }
  check_all(oi);
  mc_outcome(kind);
}

/* a result object is reused for a sequence of checks */
static void c11_reuse(void)
{
  int v = 1 + mc_pick(2, "version-1");
  int a = mc_pick(NCHECK, "first check"), b = mc_pick(NCHECK, "second check");
  int bad = mc_pick(2, "breaches");
  mc_mine();
  oi_fits *oi = chk_base(v, 3, 3);
  if (bad)
  {
    /* one breach of everything */
    SETS(((oi_vis *)oi->visList->data)->amptyp, "differential");
    ((oi_vis *)oi->visList->data)->usevisrefmap = FALSE;
    ((oi_vis *)oi->visList->data)->record[1].time = 3;
    ((oi_vis *)oi->visList->data)->record[1].target_id = 77;
    ((oi_vis *)oi->visList->data)->revision = 5;
    SETS(((oi_t3 *)oi->t3List->data)->corrname, "GONE");
  }
  oi_check_result g;
  chk_res w;
  for (int k = 0; k < 2; k++)
  {
    int f = k ? b : a;
    int lev = chk_fn[f](oi, &g);
    chk_oracle(oi, f, &w);
    MC_CHECK(lev == w.level && g.numBreach == w.n,
             "%s after %s: level %d count %d, should be %d and %d", chk_name[f],
             chk_name[a], lev, g.numBreach, w.level, w.n);
    for (int i = w.n; i < MAX_REPORT; i++)
      MC_CHECK(g.location[i] == NULL, "stale location");
    free_check_result(&g);
  }
  mc_outcome(a * 100 + b);
}

/* one dimension at a time over a long range: as it is, and with one breach at
 * the end, in the middle or at the start of it */
static void c11_sweep(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 120 : 24, mc_thorough ? 4096 : 513);
  int breach = mc_pick(9, "breach"), pos = mc_pick(breach ? 3 : 1, "position");
  mc_mine();
  oi_fits *oi = ds_sized(dim, n, 0, false);
#define AT(len) (pos == 0 ? (len) - 1 : pos == 1 ? (len) / 2 : 0)
  for (GList *l = oi->t3List; l; l = l->next)
    for (long i = 0; i < ((oi_t3 *)l->data)->numrec; i++)
      for (int k = 0; k < ((oi_t3 *)l->data)->nwave; k++)
        ((oi_t3 *)l->data)->record[i].t3amp[k] = 0.5;
  oi_vis *v = NTH(oi->visList, AT(oi->numVis));
  oi_vis2 *v2 = NTH(oi->vis2List, AT(oi->numVis2));
  oi_t3 *t3 = NTH(oi->t3List, AT(oi->numT3));
  oi_flux *fx = NTH(oi->fluxList, AT(oi->numFlux));
  oi_inspol *ip = NTH(oi->inspolList, AT(oi->numInspol));
  oi_array *ar = NTH(oi->arrayList, AT(oi->numArray));
  oi_wavelength *wl = NTH(oi->wavelengthList, AT(oi->numWavelength));
#define FORALL(stmt)                                                           \
  {                                                                            \
    { oi_vis *t = v; stmt; }                                                   \
    { oi_vis2 *t = v2; stmt; }                                                 \
    { oi_t3 *t = t3; stmt; }                                                   \
    { oi_flux *t = fx; stmt; }                                                 \
  }
  switch (breach)
  {
  case 1:
    FORALL(t->record[AT(t->numrec)].target_id = 30000)
    ip->record[AT(ip->numrec)].target_id = 30000;
    break;
  case 2:
    FORALL(((int *)&t->record[AT(t->numrec)].sta_index)[0] = 30000)
    ip->record[AT(ip->numrec)].sta_index = 30000;
    break;
  case 3:
    v->record[AT(v->numrec)].time = v2->record[AT(v2->numrec)].time = t3->record[AT(t3->numrec)].time = 5;
    break;
  case 4:
    FORALL(t->record[AT(t->numrec)].flag[AT(t->nwave)] = 0)
    v->record[AT(v->numrec)].visamperr[AT(v->nwave)] = v2->record[AT(v2->numrec)].vis2err[AT(v2->nwave)] = -1;
    t3->record[AT(t3->numrec)].t3phierr[AT(t3->nwave)] = fx->record[AT(fx->numrec)].fluxerr[AT(fx->nwave)] = -1;
    t3->record[AT(t3->numrec)].t3amp[AT(t3->nwave)] = 3;
    break;
  case 5:
    FORALL(t->revision = 9)
    ip->revision = ar->revision = wl->revision = 9;
    break;
  case 6:
    oi->targets.targ[AT(oi->targets.ntarget)].target_id = oi->targets.targ[pos == 2 ? oi->targets.ntarget - 1 : 0].target_id;
    SETS(oi->targets.targ[AT(oi->targets.ntarget)].target, oi->targets.targ[pos == 2 ? oi->targets.ntarget - 1 : 0].target);
    ar->elem[AT(ar->nelement)].sta_index = ar->elem[pos == 2 ? ar->nelement - 1 : 0].sta_index;
    break;
  case 7:
    wl->eff_wave[AT(wl->nwave)] = 2;
    SETS(ar->frame, "SOMEWHERE");
    break;
  case 8:
    FORALL(SETS(t->arrname, ""))
    FORALL(SETS(t->corrname, "LOST"))
    break;
  }
  check_all(oi);
}

const mc_scope scopes_check[] = {
    {"C11", "conforming", c11_base, 0, 0, 0,
     "conforming datasets of both versions and all sizes: no breach reported"},
    {"C11", "single", c11_single, 0, 0, 0,
     "every change of the catalogue at every position, 1-3 records, 1-3 channels, both versions"},
    {"C11", "cells", c11_cells, 0, 0, 0,
     "every scalar cell set to every special value, both versions"},
    {"C11", "products", c11_products, 0, 0, 0,
     "small tables with all combinations of what one check looks at: calibration of fluxes, kinds of visibility, station and target numbers, equal targets, orders of wavelengths, errors and flags, times"},
    {"C11", "counts", c11_counts, 0, 0, 0,
     "0 to 29 (thorough 119) occurrences of each rule"},
    {"C11", "shapes", c11_shape, 2, 3, 0,
     "all datasets within the deviation bound, three states of the version keywords"},
    {"C11", "reuse", c11_reuse, 0, 0, 0,
     "all pairs of checks on one result object"},
    {"C11", "pairs", c11_pairs, 0, 0, 0,
     "all pairs of changes of the catalogue, both versions"},
    {"C11", "sweep", c11_sweep, 0, 0, 0,
     "each of 18 dimensions over a contiguous range and boundary sizes, with no breach or one of eight at the end, in the middle or at the start"},
    {0}};
