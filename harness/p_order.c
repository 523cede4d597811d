/* C18: table-level reads and the order of HDUs */
#include "data.h"
#include "rf.h"
#include <unistd.h>

enum
{
  H_TARGET, H_ARR, H_WAVE, H_CORR, H_POL, H_VIS, H_VIS2, H_T3, H_FLUX,
  H_FOREIGN
};
#define NTYPE 9
static const char *const hname[] = {
    "OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL",
    "OI_VIS",    "OI_VIS2",  "OI_T3",         "OI_FLUX"};
#define NFOREIGN 14

typedef struct
{
  int type, idx; /* idx-th table of the type, or kind of foreign HDU */
} item;

static oi_fits *mast; /* two tables of each type, three of some */
static rf_file *mfile;
typedef struct
{
  char *b;
  size_t n;
} blob;
static blob primary, blobs[NTYPE + 1][16];

static blob emit_one(const rf_hdu *h)
{
  rf_file f = {1, (rf_hdu *)h};
  blob b;
  b.b = rf_emit(&f, &b.n);
  return b;
}

static void setform(rf_hdu *h, const char *xt)
{
  char c[81];
  snprintf(c, sizeof(c), "%-80s", xt);
  memcpy(h->card[0], c, 80);
}

static rf_hdu foreign(int k)
{
  rf_hdu h;
  switch (k)
  {
  case 0: /* binary table of somebody else */
    h = rf_table("FOREIGN");
    rf_addcol(&h, "TARGET_ID", "1I", NULL);
    rf_addrows(&h, 2);
    rf_seal(&h);
    break;
  case 1: /* no name */
    h = rf_table(NULL);
    rf_addcol(&h, "VIS2DATA", "2D", NULL);
    rf_addrows(&h, 1);
    break;
  case 2: /* image whose name is that of a data table */
    h = rf_table("OI_VIS2");
    setform(&h, "XTENSION= 'IMAGE   '");
    rf_del(&h, "TFIELDS");
    rf_setint(&h, "NAXIS1", 3);
    rf_setint(&h, "NAXIS2", 2);
    h.ndata = 2880;
    h.data = calloc(1, 2880);
    break;
  case 3: /* text table with the name of an array table */
    h = rf_table("OI_ARRAY");
    rf_setstr(&h, "ARRNAME", "ARR0");
    setform(&h, "XTENSION= 'TABLE   '");
    rf_setint(&h, "NAXIS1", 5);
    rf_setint(&h, "NAXIS2", 1);
    rf_setint(&h, "TFIELDS", 1);
    rf_setint(&h, "TBCOL1", 1);
    rf_setstr(&h, "TFORM1", "I5");
    rf_setstr(&h, "TTYPE1", "STA_INDEX");
    rf_setint(&h, "OI_REVN", 2);
    h.ndata = 2880;
    h.data = malloc(2880);
    memset(h.data, ' ', 2880);
    break;
  case 4: /* names that contain those of the tables */
    h = rf_table("OI_VIS22");
    rf_setint(&h, "OI_REVN", 2);
    rf_setstr(&h, "INSNAME", "INS0");
    break;
  case 5:
    h = rf_table("OI_");
    rf_setstr(&h, "ARRNAME", "ARR0");
    rf_setstr(&h, "INSNAME", "INS0");
    rf_setstr(&h, "CORRNAME", "COR0");
    break;
  case 6: /* image without pixels */
    h = rf_table(NULL);
    setform(&h, "XTENSION= 'IMAGE   '");
    rf_del(&h, "TFIELDS");
    rf_setint(&h, "NAXIS1", 0);
    rf_setint(&h, "NAXIS2", 0);
    break;
  case 7: /* foreign table holding the names looked for, long header */
    h = rf_table("XOI_WAVELENGTH");
    rf_setstr(&h, "INSNAME", "INS0");
    for (int i = 0; i < 60; i++)
    {
      char key[12];
      sprintf(key, "KEY%d", i);
      rf_setint(&h, key, i);
    }
    break;
  case 9: /* name without a value */
  case 10: /* name that is a number, a logical value, blank */
  case 11:
  case 12:
    h = rf_table("FOREIGN");
    rf_del(&h, "EXTNAME");
    rf_card(&h, -1, k == 9 ? "EXTNAME =                      / undefined"
                   : k == 10 ? "EXTNAME =                   42"
                   : k == 11 ? "EXTNAME =                    T" : "EXTNAME = '        '");
    rf_setint(&h, "OI_REVN", 2);
    rf_setstr(&h, "INSNAME", "INS0");
    rf_addcol(&h, "VIS2DATA", "2D", NULL);
    rf_addrows(&h, 1);
    break;
  case 13: /* variable-length column, table name only in a comment */
    h = rf_table("LONGER_THAN_ANY_NAME_OF_THE_STANDARD_OI_VIS2_OI_TARGET_OI_WAVELENGTH");
    rf_addcol(&h, "OI_VIS2", "2J", NULL);
    rf_addrows(&h, 1);
    rf_card(&h, -1, "COMMENT EXTNAME = 'OI_VIS2'");
    rf_setstr(&h, "HDUNAME", "OI_VIS2");
    rf_seal(&h);
    break;
  default: /* image called OI_TARGET */
    h = rf_table("OI_TARGET");
    setform(&h, "XTENSION= 'IMAGE   '");
    rf_del(&h, "TFIELDS");
    rf_setint(&h, "NAXIS1", 1);
    rf_setint(&h, "NAXIS2", 1);
    h.ndata = 2880;
    h.data = calloc(1, 2880);
    break;
  }
  return h;
}

static void setup(void)
{
  if (mast) return;
  oi_fits *oi = ds_rich();
  ds_vis2(oi, "ARR0", "INS0", "", 3, 2, 14);
  const char *fn = mc_path("master.fits");
  int st = 0;
  unlink(fn);
  if (write_oi_fits(fn, *oi, &st)) mc_fail("write failed");
  mfile = rf_read(fn);
  unlink(fn);
  ds_as_written(oi);
  mast = oi;
  ds_keep(mast);
  primary = emit_one(&mfile->h[0]);
  for (int t = 0; t < NTYPE; t++)
    for (int i = 0; rf_nth(mfile, hname[t], i) >= 0; i++)
    {
      rf_hdu *h = &mfile->h[rf_nth(mfile, hname[t], i)];
      blobs[t][i] = emit_one(h);
      /* the same with an EXTVER that says nothing */
      rf_hdu c = rf_hclone(h);
      if (i == 0)
        rf_setint(&c, "EXTVER", 2);
      else
        rf_del(&c, "EXTVER");
      rf_seal(&c);
      blobs[t][i + 8] = emit_one(&c);
    }
  for (int k = 0; k < NFOREIGN; k++)
  {
    rf_hdu h = foreign(k);
    blobs[H_FOREIGN][k] = emit_one(&h);
  }
}

static void build(const char *fn, const item *it, int n, int extver)
{
  FILE *f = fopen(fn, "wb");
  fwrite(primary.b, 1, primary.n, f);
  for (int i = 0; i < n; i++)
  {
    int k = it[i].idx + (it[i].type != H_FOREIGN && extver ? 8 : 0);
    fwrite(blobs[it[i].type][k].b, 1, blobs[it[i].type][k].n, f);
  }
  fclose(f);
}

static GList *typelist(const oi_fits *oi, int t)
{
  GList *l[] = {NULL,           oi->arrayList, oi->wavelengthList,
                oi->corrList,   oi->inspolList, oi->visList,
                oi->vis2List,   oi->t3List,     oi->fluxList};
  return l[t];
}

static oi_fits *expected(const item *it, int n)
{
  oi_fits *e = ds_new();
  e->header = mast->header;
  cl_target(&mast->targets, &e->targets);
  for (int i = 0; i < n; i++)
  {
    void *t = it[i].type == H_FOREIGN || it[i].type == H_TARGET
                  ? NULL
                  : NTH(typelist(mast, it[i].type), it[i].idx);
    switch (it[i].type)
    {
    case H_ARR: add_array(e, cl_array(t)); break;
    case H_WAVE: add_wave(e, cl_wave(t)); break;
    case H_CORR: add_corr(e, cl_corr(t)); break;
    case H_POL: add_inspol(e, cl_inspol(t)); break;
    case H_VIS: add_vis(e, cl_vis(t)); break;
    case H_VIS2: add_vis2(e, cl_vis2(t)); break;
    case H_T3: add_t3(e, cl_t3(t)); break;
    case H_FLUX: add_flux(e, cl_flux(t)); break;
    }
  }
  return e;
}

/* one call of the next-table reader of a type: END_OF_FILE or the table, which
 * must equal want */
static int next_table(fitsfile *fp, int type, const void *want, char *ctx)
{
  int st = 0, r;
#define NEXT(T, fn, serfn, freefn)                                             \
  {                                                                            \
    T t;                                                                       \
    memset(&t, 0x5a, sizeof(t));                                               \
    r = fn(fp, &t, &st);                                                       \
    if (!st)                                                                   \
    {                                                                          \
      if (!want) mc_fail("%s: unexpected table returned", ctx);                \
      T_EXPECT(serfn, (const T *)want, &t, SER_KW15, ctx);                     \
      freefn(&t);                                                              \
    }                                                                          \
  }
  switch (type)
  {
  case H_ARR:
    NEXT(oi_array, read_next_oi_array, ser_array, free_oi_array) break;
  case H_WAVE:
    NEXT(oi_wavelength, read_next_oi_wavelength, ser_wave, free_oi_wavelength)
    break;
  case H_CORR: NEXT(oi_corr, read_next_oi_corr, ser_corr, free_oi_corr) break;
  case H_POL:
    NEXT(oi_inspol, read_next_oi_inspol, ser_inspol, free_oi_inspol) break;
  case H_VIS: NEXT(oi_vis, read_next_oi_vis, ser_vis, free_oi_vis) break;
  case H_VIS2: NEXT(oi_vis2, read_next_oi_vis2, ser_vis2, free_oi_vis2) break;
  case H_T3: NEXT(oi_t3, read_next_oi_t3, ser_t3, free_oi_t3) break;
  default: NEXT(oi_flux, read_next_oi_flux, ser_flux, free_oi_flux) break;
  }
  MC_CHECK(r == st, "%s: returned %d, status %d", ctx, r, st);
  if (want)
    MC_CHECK(st == 0, "%s: status %d instead of a table", ctx, st);
  else
    MC_CHECK(st == END_OF_FILE, "%s: status %d, expected END_OF_FILE", ctx, st);
  return st;
}

static const char *tabname(const void *t, int type)
{
  return type == H_ARR    ? ((oi_array *)t)->arrname
         : type == H_WAVE ? ((oi_wavelength *)t)->insname
                          : ((oi_corr *)t)->corrname;
}

/* reading by name; want NULL: must fail */
static int by_name(fitsfile *fp, int type, const char *name, const void *want)
{
  char ctx[200], nm[FLEN_VALUE];
  int st = 0, r;
  snprintf(ctx, sizeof(ctx), "reading %s '%s'", hname[type], name);
  SETS(nm, name);
#define BYNAME(T, fn, serfn, freefn)                                           \
  {                                                                            \
    T t;                                                                       \
    memset(&t, 0x5a, sizeof(t));                                               \
    r = fn(fp, nm, &t, &st);                                                   \
    if (!st)                                                                   \
    {                                                                          \
      if (!want) mc_fail("%s: succeeded, no such table", ctx);                 \
      T_EXPECT(serfn, (const T *)want, &t, SER_KW15, ctx);                     \
      freefn(&t);                                                              \
    }                                                                          \
  }
  switch (type)
  {
  case H_ARR: BYNAME(oi_array, read_oi_array, ser_array, free_oi_array) break;
  case H_WAVE:
    BYNAME(oi_wavelength, read_oi_wavelength, ser_wave, free_oi_wavelength)
    break;
  default: BYNAME(oi_corr, read_oi_corr, ser_corr, free_oi_corr) break;
  }
  MC_CHECK(r == st, "%s: returned %d, status %d", ctx, r, st);
  if (want) MC_CHECK(st == 0, "%s: status %d", ctx, st);
  MC_CHECK(!strcmp(nm, name), "%s: name altered", ctx);
  return st;
}

static const void *named(const oi_fits *e, int type, const char *name)
{
  for (GList *l = typelist(e, type); l; l = l->next)
    if (!strcmp(tabname(l->data, type), name)) return l->data;
  return NULL;
}

static void rewind_file(fitsfile *fp)
{
  int st = 0, ty;
  fits_movabs_hdu(fp, 1, &ty, &st);
  if (st) mc_fail("harness: movabs");
}

static const char *const names[] = {"ARR0", "ARR1", "INS0", "INS1",
                                    "COR0", "COR1", "ARR",  "arr0",
                                    "",     "COR0X"};

static void ser_targ(ser *s, const oi_target *t, int i, int fl)
{
  (void)i;
  ser_target(s, t, fl);
}

static void check_file(const item *it, int n, int extver)
{
  const char *fn = mc_path("o.fits");
  build(fn, it, n, extver);
  oi_fits *e = expected(it, n), got;
  memset(&got, 0x5a, sizeof(got));
  int st = 0;
  mc_cap_begin();
  int r = read_oi_fits(fn, &got, &st);
  char *txt = mc_cap_end();
  MC_CHECK(r == 0 && st == 0, "file not read, status %d/%d: %s", r, st, txt);
  MC_CHECK(!strstr(txt, "Skipping bad"), "table skipped: %s", txt);
  free(txt);
  ds_expect(e, &got, SER_KW15 | SER_NODATE, "whole file");
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);

  fitsfile *fp;
  fits_open_file(&fp, fn, READONLY, &st);
  if (st) mc_fail("harness: open");
  mc_cap_begin();
  for (int t = H_ARR; t < NTYPE; t++)
  {
    char ctx[80];
    int k = 0;
    rewind_file(fp);
    for (GList *l = typelist(e, t); l; l = l->next)
    {
      snprintf(ctx, sizeof(ctx), "next %s, number %d", hname[t], ++k);
      next_table(fp, t, l->data, ctx);
    }
    snprintf(ctx, sizeof(ctx), "next %s after the last", hname[t]);
    next_table(fp, t, NULL, ctx);
    next_table(fp, t, NULL, ctx);
  }
  for (int i = 0; i < (int)(sizeof(names) / sizeof(*names)); i++)
    for (int t = H_ARR; t <= H_CORR; t++)
      by_name(fp, t, names[i], named(e, t, names[i]));
  mc_evals(n + 8 + 30);
  oi_target tg;
  read_oi_target(fp, &tg, &st);
  MC_CHECK(st == 0, "target table not read: %d", st);
  T_EXPECT(ser_targ,
           &mast->targets, &tg, SER_KW15, "target table");
  free_oi_target(&tg);
  oi_header hd;
  memset(&hd, 0x5a, sizeof(hd));
  read_oi_header(fp, &hd, &st);
  MC_CHECK(st == 0 && !strcmp(hd.object, mast->header.object) &&
               !strcmp(hd.content, "OIFITS2"),
           "primary header not read: %d", st);
  free(mc_cap_end());
  fits_close_file(fp, &st);
  unlink(fn);
}

static int perm(int *p, int n)
{
  /* all permutations of p[0..n-1] through picks */
  for (int i = 0; i < n - 1; i++)
  {
    int k = i + mc_pick(n - i, "position");
    int t = p[k];
    p[k] = p[i];
    p[i] = t;
  }
  return n;
}

/* target, array, wavelength, two tables of one type and a foreign HDU */
static void c18_orders(void)
{
  int t = mc_pick(NTYPE - 1, "type") + 1;
  int fk = mc_pick(NFOREIGN, "foreign");
  if (!mc_thorough && (fk + t) % 3) mc_skip(); /* each with a third of the types */
  setup();
  item set[7] = {{H_TARGET, 0}, {H_ARR, 0}, {H_WAVE, 0}, {t, 0},
                 {t, 1},        {H_FOREIGN, fk}, {H_VIS2, 2}};
  int n = 6;
  if (t == H_ARR || t == H_WAVE) set[3] = (item){H_VIS, 0};
  if (mc_thorough) n = 7;
  int p[7] = {0, 1, 2, 3, 4, 5, 6};
  perm(p, n);
  mc_mine();
  item it[7];
  for (int i = 0; i < n; i++) it[i] = set[p[i]];
  check_file(it, n, 0);
}

/* every sequence of HDUs over a small alphabet, with repetitions */
static void c18_words(void)
{
  static const item abc[] = {{H_VIS, 0},  {H_VIS2, 0}, {H_VIS2, 1},
                             {H_ARR, 1},  {H_WAVE, 1}, {H_CORR, 1},
                             {H_T3, 0},   {H_FLUX, 0}, {H_POL, 0},
                             {H_FOREIGN, 1}, {H_FOREIGN, 4}};
  int max = mc_thorough ? 5 : 3;
  int n = mc_pick(max + 1, "length"), na = sizeof(abc) / sizeof(*abc);
  item it[8];
  int pos = mc_pick(n + 1, "target at");
  int k = 0;
  for (int i = 0; i <= n; i++)
    it[k++] = i == pos ? (item){H_TARGET, 0} : abc[mc_pick(na, "hdu")];
  mc_mine();
  setup();
  check_file(it, k, 0);
}

/* two foreign HDUs anywhere, EXTVER numbers that are wrong or missing */
static void c18_foreign(void)
{
  int a = mc_pick(NFOREIGN, "foreign");
  int b = mc_thorough ? mc_pick(NFOREIGN, "foreign") : (a + 1) % NFOREIGN;
  setup();
  item base[] = {{H_TARGET, 0}, {H_ARR, 0},  {H_ARR, 1},  {H_WAVE, 0},
                 {H_WAVE, 1},   {H_CORR, 0}, {H_POL, 0},  {H_VIS, 0},
                 {H_VIS, 1},    {H_VIS2, 0}, {H_VIS2, 1}, {H_T3, 0},
                 {H_FLUX, 0},   {H_FLUX, 1}};
  int n = sizeof(base) / sizeof(*base), k = 0;
  int pa = mc_pick(n + 1, "at"), pb = mc_pick(n + 1, "at");
  int ev = mc_pick(2, "extver");
  int rev = mc_pick(2, "reversed");
  if (!mc_thorough && ev && rev) mc_skip();
  mc_mine();
  item it[20];
  for (int i = 0; i <= n; i++)
  {
    if (i == pa) it[k++] = (item){H_FOREIGN, a};
    if (i == pb) it[k++] = (item){H_FOREIGN, b};
    if (i < n) it[k++] = base[rev ? n - 1 - i : i];
  }
  check_file(it, k, ev);
}

/* all sequences of calls on one open file */
static void c18_calls(void)
{
  static const item fa[] = {{H_TARGET, 0}, {H_ARR, 0},  {H_WAVE, 0},
                            {H_FOREIGN, 1}, {H_VIS, 0}, {H_CORR, 0},
                            {H_VIS2, 0},   {H_T3, 0},   {H_FLUX, 0},
                            {H_POL, 0},    {H_VIS2, 1}};
  static const item fb[] = {{H_VIS2, 0},  {H_FOREIGN, 2}, {H_WAVE, 1},
                            {H_ARR, 1},   {H_VIS2, 1},    {H_FLUX, 0},
                            {H_TARGET, 0}, {H_CORR, 1},   {H_ARR, 0},
                            {H_VIS, 1},   {H_T3, 1},      {H_WAVE, 0},
                            {H_VIS, 0}};
  static const struct
  {
    int kind; /* 0 next, 1 by name, 2 target, 3 header */
    int type;
    const char *name;
  } call[] = {{0, H_ARR, 0},       {0, H_WAVE, 0},      {0, H_CORR, 0},
              {0, H_POL, 0},       {0, H_VIS, 0},       {0, H_VIS2, 0},
              {0, H_T3, 0},        {0, H_FLUX, 0},      {1, H_ARR, "ARR0"},
              {1, H_ARR, "ARR1"},  {1, H_WAVE, "INS0"}, {1, H_WAVE, "INS1"},
              {1, H_CORR, "COR0"}, {1, H_CORR, "COR1"}, {2, 0, 0},
              {3, 0, 0}};
  int w = mc_pick(2, "file");
  const item *it = w ? fb : fa;
  int n = w ? sizeof(fb) / sizeof(*fb) : sizeof(fa) / sizeof(*fa);
  int depth = mc_thorough ? 5 : 4, seq[8];
  for (int i = 0; i < depth; i++)
    seq[i] = mc_pick(sizeof(call) / sizeof(*call), "call");
  mc_mine();
  setup();
  static int made;
  const char *fn = mc_path(w ? "cb.fits" : "ca.fits");
  if (!(made & (1 << w))) build(fn, it, n, 0), made |= 1 << w;

  int st = 0;
  fitsfile *fp;
  fits_open_file(&fp, fn, READONLY, &st);
  if (st) mc_fail("harness: open");
  mc_cap_begin();
  int pos = -1;   /* index of the current HDU in it; -1 the primary */
  int ended = -1; /* type whose end was signalled */
  bool lost = false;
  for (int i = 0; i < depth; i++)
  {
    char ctx[80];
    int t = call[seq[i]].type;
    snprintf(ctx, sizeof(ctx), "call %d", i + 1);
    switch (call[seq[i]].kind)
    {
    case 0:
      if (lost || (ended >= 0 && ended != t))
      {
        /* where the file stands after a failure is not specified */
        rewind_file(fp);
        pos = -1;
        lost = false;
      }
      else if (ended == t)
      {
        next_table(fp, t, NULL, ctx);
        break;
      }
      ended = -1;
      int k = pos + 1;
      while (k < n && it[k].type != t) k++;
      next_table(fp, t, k < n ? NTH(typelist(mast, t), it[k].idx) : NULL, ctx);
      if (k < n)
        pos = k;
      else
        ended = t;
      break;
    case 1:
    {
      int k2 = 0;
      while (k2 < n && (it[k2].type != t ||
                        strcmp(tabname(NTH(typelist(mast, t), it[k2].idx), t),
                               call[seq[i]].name)))
        k2++;
      ended = -1;
      by_name(fp, t, call[seq[i]].name,
              k2 < n ? NTH(typelist(mast, t), it[k2].idx) : NULL);
      pos = k2;
      lost = k2 == n;
      break;
    }
    case 2:
    {
      oi_target tg;
      memset(&tg, 0x5a, sizeof(tg));
      read_oi_target(fp, &tg, &st);
      MC_CHECK(st == 0 && tg.ntarget == 2, "%s: target table: %d", ctx, st);
      free_oi_target(&tg);
      for (pos = 0; it[pos].type != H_TARGET;) pos++;
      ended = -1, lost = false;
      break;
    }
    default:
    {
      oi_header hd;
      memset(&hd, 0x5a, sizeof(hd));
      read_oi_header(fp, &hd, &st);
      MC_CHECK(st == 0 && !strcmp(hd.object, mast->header.object),
               "%s: primary header: %d", ctx, st);
      pos = -1, ended = -1, lost = false;
    }
    }
  }
  free(mc_cap_end());
  fits_close_file(fp, &st);
  mc_outcome(pos * 100 + (ended + 1) * 2 + lost);
}

/* tables whose names are nearly the same, read by name and one by one */
void near_names(int maxlen, char *a, char *b, char *c);
static void c18_names(void)
{
  char nm[3][72];
  near_names(67, nm[0], nm[1], nm[2]);
  int rev = mc_pick(2, "order");
  mc_mine();
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, false);
  for (int k = 0; k < 2; k++)
  {
    const char *s = nm[rev ? 1 - k : k];
    ds_array(oi, s, 2 + k, k), ds_wave(oi, s, 2 + k, k), ds_corr(oi, s, 9, 2, k);
    ds_vis2(oi, s, s, s, 2, 2 + k, k);
  }
  const char *fn = mc_path("n.fits");
  int st = 0;
  unlink(fn);
  mc_cap_begin();
  if (write_oi_fits(fn, *oi, &st)) mc_fail("write failed");
  ds_as_written(oi);
  fitsfile *fp;
  fits_open_file(&fp, fn, READONLY, &st);
  if (st) mc_fail("harness: open");
  for (int t = H_ARR; t <= H_CORR; t++)
  {
    rewind_file(fp);
    for (GList *l = typelist(oi, t); l; l = l->next)
      next_table(fp, t, l->data, "next table");
    next_table(fp, t, NULL, "after the last table");
  }
  for (int k = 0; k < 5; k++) /* each one after each other one */
    for (int t = H_ARR; t <= H_CORR; t++)
      by_name(fp, t, nm[(k * 2) % 3], named(oi, t, nm[(k * 2) % 3]));
  free(mc_cap_end());
  fits_close_file(fp, &st);
  unlink(fn);
  mc_evals(24);
  mc_outcome(rev);
}

/* foreign tables that are copies of ours under nearly the same EXTNAME */
static void c18_extnames(void)
{
  int t = mc_pick(NTYPE, "type"), how = mc_pick(4, "difference");
  int len = strlen(hname[t]);
  int p = mc_pick(how == 3 ? 1 : len, "at"), at = mc_pick(3, "place");
  if (how == 1 && p == 0) mc_skip(); /* no name */
  mc_mine();
  setup();
  char nm[72];
  strcpy(nm, hname[t]);
  if (how == 0) nm[p] = 'X';
  if (how == 1) nm[p] = 0;
  if (how == 2) memmove(nm + p + 1, nm + p, len - p + 1), nm[p] = 'X';
  if (how == 3) strcat(nm, "X");
  for (int k = 0; k < NTYPE; k++)
    if (!strcmp(nm, hname[k])) mc_skip();
  item it[NTYPE * 2 + 4];
  int n = 0, fk = NFOREIGN;
  rf_hdu h = rf_hclone(&mfile->h[rf_nth(mfile, hname[t], t == H_TARGET ? 0 : 1)]);
  rf_setstr(&h, "EXTNAME", nm);
  rf_seal(&h);
  if (blobs[H_FOREIGN][fk].b) free(blobs[H_FOREIGN][fk].b);
  blobs[H_FOREIGN][fk] = emit_one(&h);
  /* first of all, just before the one it resembles, last */
  if (at == 0) it[n++] = (item){H_FOREIGN, fk};
  for (int k = 0; k < NTYPE; k++)
  {
    if (at == 1 && k == t) it[n++] = (item){H_FOREIGN, fk};
    it[n++] = (item){k, 0};
  }
  if (at == 2) it[n++] = (item){H_FOREIGN, fk};
  check_file(it, n, 0);
}

const mc_scope scopes_order[] = {
    {"C18", "names", c18_names, 0, 0, 0,
     "two tables of each named type with names that differ in one place: every place, three kinds of difference, both orders"},
    {"C18", "extnames", c18_extnames, 0, 0, 0,
     "a copy of a table of each type under an EXTNAME that differs in one place (character changed, inserted, cut off, added), three places in the file"},
    {"C18", "orders", c18_orders, 0, 0, 0,
     "all permutations of 6 (thorough: 7) HDUs: target, array, wavelength, two tables of each type, each kind of foreign HDU"},
    {"C18", "words", c18_words, 0, 0, 0,
     "all sequences of up to 3 (thorough: 5) HDUs over an alphabet of 11, target table at every position"},
    {"C18", "foreign", c18_foreign, 0, 0, 0,
     "two foreign HDUs (thorough: every pair of kinds; quick: 9 pairs) at every pair of positions in a file with all table types, EXTVER right or wrong, order reversed or not"},
    {"C18", "calls", c18_calls, 0, 0, 0,
     "all sequences of 4 (thorough: 5) table-level calls out of 16 on two files, against a model of the file position"},
    {0}};
