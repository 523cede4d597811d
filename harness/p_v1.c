/* C03: OIFITS version 1 files and version queries */
#include "oif.h"
#include "data.h"
#include <time.h>
#include <unistd.h>

static void civil(double mjd, char *out, size_t cap)
{
  time_t t = ((time_t)floor(mjd) - 40587) * 86400;
  struct tm tm;
  gmtime_r(&t, &tm);
  snprintf(out, cap, "%4d-%02d-%02d", tm.tm_year + 1900, tm.tm_mon + 1,
           tm.tm_mday);
}

/* what reading the file must give, as far as the primary header goes */
static bool v1_header(oi_fits *oi)
{
  double min = 1e30;
  SETS(oi->header.telescop,
       oi->numArray == 0 ? "UNKNOWN"
       : oi->numArray == 1 ? ((oi_array *)oi->arrayList->data)->arrname
                           : "MULTIPLE");
  SETS(oi->header.instrume,
       oi->numWavelength == 1
           ? ((oi_wavelength *)oi->wavelengthList->data)->insname
           : "MULTIPLE");
  SETS(oi->header.object, oi->targets.ntarget == 1 ? oi->targets.targ[0].target
                                                   : "MULTIPLE");
  SETS(oi->header.origin, "UNKNOWN");
  SETS(oi->header.observer, "UNKNOWN");
  SETS(oi->header.insmode, "UNKNOWN");
#define MINMJD(list, type)                                                     \
  for (GList *l = oi->list; l; l = l->next)                                    \
    for (long i = 0; i < ((type *)l->data)->numrec; i++)                       \
      if (((type *)l->data)->record[i].mjd < min)                              \
        min = ((type *)l->data)->record[i].mjd;
  MINMJD(visList, oi_vis)
  MINMJD(vis2List, oi_vis2)
  MINMJD(t3List, oi_t3)
  /* the date functions cover 1901 to 2099 */
  bool ok = min >= 15385 && min < 88069;
  if (ok) civil(min, oi->header.date_obs, sizeof(oi->header.date_obs));
  return ok;
}

static void round_floats(oi_fits *oi)
{
#define RF(r, f)                                                               \
  for (int k = 0; k < v->nwave; k++) r->f[k] = (float)r->f[k];
  for (GList *l = oi->visList; l; l = l->next)
  {
    oi_vis *v = l->data;
    for (long i = 0; i < v->numrec; i++)
    {
      oi_vis_record *r = &v->record[i];
      RF(r, visamp) RF(r, visamperr) RF(r, visphi) RF(r, visphierr)
    }
  }
  for (GList *l = oi->vis2List; l; l = l->next)
  {
    oi_vis2 *v = l->data;
    for (long i = 0; i < v->numrec; i++)
    {
      oi_vis2_record *r = &v->record[i];
      RF(r, vis2data) RF(r, vis2err)
    }
  }
  for (GList *l = oi->t3List; l; l = l->next)
  {
    oi_t3 *v = l->data;
    for (long i = 0; i < v->numrec; i++)
    {
      oi_t3_record *r = &v->record[i];
      RF(r, t3amp) RF(r, t3amperr) RF(r, t3phi) RF(r, t3phierr)
    }
  }
}

static void permute(rf_file *f, int how)
{
  /* how: 0 as is, 1 reversed, 2 data first, 3 interleaved from both ends */
  int n = f->nhdu - 1;
  rf_hdu *h = malloc((n + 1) * sizeof(*h));
  if (how == 0) return;
  int k = 0;
  if (how == 1)
    for (int i = n; i >= 1; i--) h[k++] = f->h[i];
  else if (how == 2)
  {
    for (int i = n / 2 + 1; i <= n; i++) h[k++] = f->h[i];
    for (int i = 1; i <= n / 2; i++) h[k++] = f->h[i];
  }
  else
    for (int i = 1, j = n; i <= j;)
    {
      h[k++] = f->h[j--];
      if (i <= j) h[k++] = f->h[i++];
    }
  memcpy(f->h + 1, h, n * sizeof(*h));
  free(h);
}

/* lists of the same type in the order of the permuted file */
#define REORDER(list, extname)                                                 \
  {                                                                            \
    GList *n = NULL;                                                           \
    for (int i = 1; i < f->nhdu; i++)                                          \
    {                                                                          \
      if (strcmp(rf_extname(&f->h[i]), extname)) continue;                     \
      n = g_list_append(n, g_list_nth_data(oi->list, idx[i]));                 \
    }                                                                          \
    g_list_free(oi->list);                                                     \
    oi->list = n;                                                              \
  }

static void v1_check(oi_fits *oi, const v1opt *o, int perm)
{
  if (o->floats) round_floats(oi);
  rf_file *f = oif_v1(oi, o);
  /* position of each HDU within its type, before and after permuting */
  for (int i = 1; i < f->nhdu; i++)
  {
    int k = 0;
    char nm[81];
    strcpy(nm, rf_extname(&f->h[i]));
    for (int j = 1; j < i; j++)
      if (!strcmp(rf_extname(&f->h[j]), nm)) k++;
    f->h[i].start = k; /* remembered across the permutation */
  }
  permute(f, perm);
  int idx[1000];
  for (int i = 1; i < f->nhdu; i++) idx[i] = f->h[i].start;
  REORDER(arrayList, "OI_ARRAY")
  REORDER(wavelengthList, "OI_WAVELENGTH")
  REORDER(visList, "OI_VIS")
  REORDER(vis2List, "OI_VIS2")
  REORDER(t3List, "OI_T3")
  const char *fn = mc_path("v1.fits");
  rf_write(f, fn);
  rf_free(f);

  oi_fits got;
  memset(&got, 0x5a, sizeof(got));
  int st = 0;
  mc_cap_begin();
  int r = read_oi_fits(fn, &got, &st);
  char *txt = mc_cap_end();
  MC_CHECK(st == 0 && r == 0, "version 1 file not read, status %d/%d: %s", r,
           st, txt);
  MC_CHECK(!strstr(txt, "Skipping"), "table of a version 1 file skipped: %s",
           txt);
  MC_CHECK(!strstr(txt, "checksum verification failed"), "false alarm: %s",
           txt);
  free(txt);
  bool dated = v1_header(oi);
  if (!dated) SETS(oi->header.date_obs, got.header.date_obs);
  ds_expect(oi, &got, SER_KW15, "read from version 1 file");
  ds_container(&got, "read from version 1 file");
  MC_CHECK(is_oi_fits_one(&got) && !is_oi_fits_two(&got),
           "version queries on a version 1 file: one=%d two=%d",
           is_oi_fits_one(&got), is_oi_fits_two(&got));
  mc_outcome(ds_hash(&got, 0));
  /* the same data as version 2 */
  unlink(fn);
  mc_cap_begin();
  r = write_oi_fits(fn, got, &st);
  free(mc_cap_end());
  MC_CHECK(st == 0 && r == 0, "writing failed, status %d/%d", r, st);
  free_oi_fits(&got);
  memset(&got, 0x5a, sizeof(got));
  r = read_oi_fits(fn, &got, &st);
  MC_CHECK(st == 0 && r == 0, "upgraded file not read, status %d/%d", r, st);
  MC_CHECK(!is_oi_fits_one(&got) && is_oi_fits_two(&got),
           "version queries on an upgraded file: one=%d two=%d",
           is_oi_fits_one(&got), is_oi_fits_two(&got));
  ds_as_written(oi);
  ds_expect(oi, &got, SER_KW15 | SER_NODATE, "read from upgraded file");
  free_oi_fits(&got);
  unlink(fn);
}

void v1_judge(oi_fits *oi)
{
  v1opt o = {0};
  v1_check(oi, &o, 0);
}
static void c03_files(void)
{
  oi_fits *oi = ds_gen_v1();
  switch (mc_dev(4, "header"))
  {
  case 1: /* keywords of version 2 in a version 1 file */
    SETS(oi->header.origin, "ORG"), SETS(oi->header.date_obs, "1999-01-01");
    SETS(oi->header.telescop, "TEL"), SETS(oi->header.instrume, "INS");
    SETS(oi->header.observer, "OBS"), SETS(oi->header.insmode, "MODE");
    SETS(oi->header.object, "OBJ");
    break;
  case 2:
    SETS(oi->header.date, "2003-04-05"), SETS(oi->header.author, "AUT");
    SETS(oi->header.referenc, "REF"), SETS(oi->header.procsoft, "SOFT");
    SETS(oi->header.prog_id, "PROG"), SETS(oi->header.obstech, "TECH");
    break;
  case 3:
    SETS(oi->header.content, "OIFITS1");
    break;
  }
  v1opt o = {mc_dev(2, "reverse"), mc_dev(2, "lower"), mc_dev(2, "extra"),
             mc_dev(2, "floats"),  mc_dev(2, "ints"),  mc_dev(2, "sums"),
             mc_dev(2, "units")};
  int perm = mc_dev(4, "hdu-order");
  mc_mine();
  v1_check(oi, &o, perm);
}

static void c03_options(void)
{
  int b = mc_pick(128, "options"), perm = mc_pick(4, "hdu-order");
  int big = mc_pick(2, "dataset");
  mc_mine();
  oi_fits *oi = big ? ds_rich() : ds_small();
  memset(&oi->header, 0, sizeof(oi->header));
  if (big)
  {
    oi_fits *n = ds_new();
    memset(&n->header, 0, sizeof(n->header));
    ds_targets(n, 3, false);
    for (int i = 0; i < 2; i++)
    {
      char a[8], w[8];
      sprintf(a, "ARR%d", i), sprintf(w, "INS%d", i);
      ds_array(n, a, 3 + i, i), ds_wave(n, w, 2 + i, i);
      ds_vis(n, a, w, "", 2, 2 + i, 10 + i);
      ds_vis2(n, a, w, "", 3, 2 + i, 13 + i);
      ds_t3(n, a, w, "", 2, 2 + i, 16 + i);
    }
    oi = n;
  }
  else
  {
    oi_fits *n = ds_new();
    memset(&n->header, 0, sizeof(n->header));
    ds_targets(n, 1, false);
    ds_array(n, "ARR0", 3, 0), ds_wave(n, "INS0", 2, 0);
    ds_vis2(n, "ARR0", "INS0", "", 2, 2, 3);
    oi = n;
  }
  ds_v1_defaults(oi);
  v1opt o = {b & 1, b & 2, b & 4, b & 8, b & 16, b & 32, b & 64};
  v1_check(oi, &o, perm);
}

static void c03_cells(void)
{
  static oi_fits *base;
  static cell *cells;
  static int n;
  if (!base)
  {
    oi_fits *oi = ds_new();
    memset(&oi->header, 0, sizeof(oi->header));
    ds_targets(oi, 2, false);
    ds_array(oi, "ARR0", 3, 0), ds_wave(oi, "INS0", 2, 0);
    ds_vis(oi, "ARR0", "INS0", "", 2, 2, 1);
    ds_vis2(oi, "ARR0", "INS0", "", 2, 2, 3);
    ds_t3(oi, "ARR0", "INS0", "", 2, 2, 5);
    ds_v1_defaults(oi);
    base = oi;
    ds_keep(base);
    n = ds_cells(base, &cells);
  }
  int i = mc_pick(n, "cell");
  int v = mc_pick(cell_nvalues(&cells[i]), "value");
  mc_mine();
  oi_fits *oi = ds_clone(base);
  cell *c;
  ds_cells(oi, &c);
  bool ok = cell_set(&c[i], v);
  free(c);
  if (!ok) return;
  /* what version 1 cannot hold */
  ds_v1_defaults(oi);
  for (int k = 0; k < oi->targets.ntarget; k++)
  {
    oi->targets.targ[k].target[16] = 0;
    oi->targets.targ[k].spectyp[16] = 0;
    /* cut at a blank: not significant */
    for (int j = 15; j >= 0 && oi->targets.targ[k].target[j] == ' '; j--)
      oi->targets.targ[k].target[j] = 0;
    for (int j = 15; j >= 0 && oi->targets.targ[k].spectyp[j] == ' '; j--)
      oi->targets.targ[k].spectyp[j] = 0;
  }
  for (GList *l = oi->visList; l; l = l->next)
    ((oi_vis *)l->data)->ampunit[0] = 0;
  if (!strcmp(oi->header.content, "OIFITS2")) return;
  if (ds_equal(oi, base, 0, NULL, 0)) return;
  v1opt o = {0};
  v1_check(oi, &o, 0);
}

/* version queries */
static void c03_queries(void)
{
  static const char *const ct[] = {"OIFITS2", "", "OIFITS1", "oifits2",
                                   "OIFITS2 "};
  oi_fits *oi = ds_new();
  int c = mc_pick(5, "content"), r[6];
  SETS(oi->header.content, ct[c]);
  ds_targets(oi, 1, false);
  for (int i = 0; i < 6; i++) r[i] = mc_pick(i ? 5 : 3, "revision");
  mc_mine();
  /* 0: revision 1, 1: revision 2, 2: revision 3, 3: no such table,
     4: two tables, revisions 1 and 2 */
  bool one = c != 0;
  oi->targets.revision = r[0] + 1;
  if (r[0] != 0) one = false;
#define QT(k, mk)                                                              \
  if (r[k] != 3)                                                               \
  {                                                                            \
    (mk)->revision = r[k] == 4 ? 1 : r[k] + 1;                                 \
    if (r[k] == 4) (mk)->revision = 2;                                         \
    if (r[k] != 0) one = false;                                                \
  }
  QT(1, ds_array(oi, "A", 1, 0))
  QT(2, ds_wave(oi, "W", 1, 0))
  QT(3, ds_vis(oi, "A", "W", "", 1, 1, 0))
  QT(4, ds_vis2(oi, "A", "W", "", 1, 1, 0))
  QT(5, ds_t3(oi, "A", "W", "", 1, 1, 0))
  int g1 = is_oi_fits_one(oi), g2 = is_oi_fits_two(oi);
  MC_CHECK(!!g1 == one, "is_oi_fits_one() = %d, expected %d", g1, one);
  MC_CHECK(!!g2 == (c == 0), "is_oi_fits_two() = %d, expected %d", g2, c == 0);
  MC_CHECK(!(g1 && g2), "both versions");
  mc_outcome(g1 * 2 + g2);
}

/* one dimension at a time over a long range */
static void c03_sweep(void)
{
  static const int dims[] = {SZ_TARGETS, SZ_STATIONS, SZ_CHANNELS, SZ_VISREC, SZ_VIS2REC, SZ_T3REC,
                             SZ_NVIS, SZ_NVIS2, SZ_NT3, SZ_NARRAY, SZ_NWAVE};
  int dim = dims[mc_pick(11, "dimension")];
  int n = sz_pick(dim, mc_thorough ? 120 : 20, mc_thorough ? 10001 : 2000);
  int opt = mc_pick(3, "layout");
  if (!mc_thorough && dim >= SZ_NVIS && n > 129) mc_skip(); /* slow to read */
  mc_mine();
  v1opt o = {opt & 1, opt & 1, opt & 2, 0, opt & 2, opt & 1, 0};
  v1_check(ds_sized(dim, n, 0, true), &o, opt);
}

const mc_scope scopes_v1[] = {
    {"C03", "files", c03_files, 2, 3, 0,
     "all version 1 files within the deviation bound (numbers of tables, records, channels, dates, column order, formats, HDU order)"},
    {"C03", "options", c03_options, 0, 0, 0,
     "all combinations of file layout options x HDU orders x 2 datasets"},
    {"C03", "cells", c03_cells, 0, 0, 0,
     "every scalar cell of a version 1 file set to every special value"},
    {"C03", "queries", c03_queries, 0, 0, 0,
     "all mixtures of revisions of the six version 1 table types x CONTENT values"},
    {"C03", "sweep", c03_sweep, 0, 0, 0,
     "each of 11 dimensions (rows, channels, tables of each type) over a contiguous range and boundary sizes"},
    {0}};
