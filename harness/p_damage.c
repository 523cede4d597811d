/* C17: damaged input */
#include "chk.h"
#include "data.h"
#include "fault.h"
#include "filt.h"
#include "mrg.h"
#include "oif.h"
#include <ctype.h>
#include <unistd.h>

enum
{
  INTACT, /* must be returned, equal */
  GONE,   /* must not be returned, must be reported */
  MAYBE,  /* equal; or left out and reported; or changed and warned about */
  OPEN,   /* returned with any content, or left out and reported */
  ANY     /* as MAYBE, or left out without report */
};

typedef struct
{
  oi_fits *oi;  /* what an undamaged file gives */
  rf_file *f;
  char *b; /* bytes of the file */
  size_t n;
  int type[64], idx[64]; /* of each HDU; type -1 for others */
} sample;

static const char *const tname[] = {
    "OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL",
    "OI_VIS",    "OI_VIS2",  "OI_T3",         "OI_FLUX"};

static GList *tlist(const oi_fits *oi, int t)
{
  GList *l[] = {NULL,           oi->arrayList,  oi->wavelengthList,
                oi->corrList,   oi->inspolList, oi->visList,
                oi->vis2List,   oi->t3List,     oi->fluxList};
  return l[t];
}

static bool same(int t, const void *a, const void *b)
{
  ser x, y;
  ser_init(&x, 0), ser_init(&y, 0);
#define SAME(fn) fn(&x, a, 0, SER_KW15), fn(&y, b, 0, SER_KW15)
  switch (t)
  {
  case 0: ser_target(&x, a, SER_KW15), ser_target(&y, b, SER_KW15); break;
  case 1: SAME(ser_array); break;
  case 2: SAME(ser_wave); break;
  case 3: SAME(ser_corr); break;
  case 4: SAME(ser_inspol); break;
  case 5: SAME(ser_vis); break;
  case 6: SAME(ser_vis2); break;
  case 7: SAME(ser_t3); break;
  case 8: SAME(ser_flux); break;
  }
  bool r = ser_same(&x, &y);
  ser_done(&x), ser_done(&y);
  return r;
}

static const sample *cs;
static const int *cstate;
static const char *ctxt;

static bool warned(int hdu)
{
  char s[80];
  snprintf(s, sizeof(s), "checksum verification failed for HDU #%d ", hdu + 1);
  return strstr(ctxt, s) != NULL;
}

static bool reported(int t)
{
  char s[80];
  snprintf(s, sizeof(s), "Skipping bad %s (", tname[t]);
  return strstr(ctxt, s) != NULL;
}

/* can the tables got be what is left of those of type t from HDU h on? */
static bool match(int t, int h, GList *orig, GList *got)
{
  while (h < cs->f->nhdu && cs->type[h] != t) h++;
  if (h == cs->f->nhdu) return got == NULL;
  int st = cstate[h];
  if (got && st != GONE)
  {
    if (same(t, orig->data, got->data) &&
        match(t, h + 1, orig->next, got->next))
      return true;
    if ((st == OPEN || ((st == MAYBE || st == ANY) && warned(h))) &&
        match(t, h + 1, orig->next, got->next))
      return true;
  }
  if (st == ANY || (st != INTACT && t >= 3 && reported(t)))
    return match(t, h + 1, orig->next, got);
  return false;
}

static void exercise(oi_fits *oi)
{
  long a, b, c;
  uint64_t h = ds_hash(oi, SER_RAW);
  mc_cap_begin();
  count_oi_fits_data(oi, &a, &b, &c);
  is_atomic(oi, 0.5);
  print_oi_fits_summary(oi);
  oi_check_result r;
  for (int i = 0; i < 14; i++)
  {
    chk_fn[i](oi, &r);
    free_check_result(&r);
  }
  /* what was read is fit for all other uses */
  oi_fits out, *in[2] = {oi, oi};
  oi_filter_spec f;
  init_oi_filter(&f);
  for (int k = 0; k < 2; k++)
  {
    if (k) f.wave_range[0] = 1.2e-6f, f.target_id = 1;
    apply_oi_filter(oi, &f, &out);
    free_oi_fits(&out);
    oi_vis_iter v;
    oi_vis2_iter v2;
    oi_t3_iter t3;
    double x;
    oi_vis_iter_init(&v, oi, &f);
    while (oi_vis_iter_next(&v, NULL, NULL, NULL, NULL, NULL))
      oi_vis_iter_get_uv(&v, &x, NULL, NULL);
    oi_vis2_iter_init(&v2, oi, &f);
    while (oi_vis2_iter_next(&v2, NULL, NULL, NULL, NULL, NULL))
      oi_vis2_iter_get_uv(&v2, &x, NULL, NULL);
    oi_t3_iter_init(&t3, oi, &f);
    while (oi_t3_iter_next(&t3, NULL, NULL, NULL, NULL, NULL))
      oi_t3_iter_get_uv(&t3, &x, NULL, NULL, NULL, NULL);
  }
  merge_oi_fits_list(&(GList){in[0], &(GList){in[1], NULL, NULL}, NULL}, &out);
  free_oi_fits(&out);
  const char *fn = mc_path("again.fits");
  int st = 0;
  unlink(fn);
  write_oi_fits(fn, *oi, &st);
  unlink(fn);
  free(mc_cap_end());
  MC_CHECK(ds_hash(oi, SER_RAW) == h, "dataset changed by use");
}

/* reads path; state of each HDU in state. Returns true if it was accepted */
static bool verify(const char *path, const sample *s, const int *state)
{
  oi_fits got;
  memset(&got, 0x5a, sizeof(got));
  int st = 0;
  int fds = open_fds();
  mc_cap_begin();
  int r = read_oi_fits(path, &got, &st);
  char *txt = mc_cap_end();
  fault_off();
  MC_CHECK(open_fds() == fds, "descriptor left open by a read with status %d",
           st);
  MC_CHECK(r == st, "returned %d, status %d", r, st);
  mc_outcome(mc_hash(&st, sizeof(st), 1));
  if (st)
  {
    free(txt);
    return false;
  }
  cs = s, cstate = state, ctxt = txt;
  ds_container(&got, "damaged file");
  for (int h = 0; h < s->f->nhdu; h++)
    if (s->type[h] == 0)
    {
      bool eq = same(0, &s->oi->targets, &got.targets);
      MC_CHECK(state[h] != GONE, "accepted without a usable target table");
      MC_CHECK(eq || state[h] == OPEN || (state[h] != INTACT && warned(h)),
               "target table differs, no warning: %s", txt);
    }
    else if (state[h] == GONE && (s->type[h] == 1 || s->type[h] == 2))
      mc_fail("accepted with an unusable %s table: %s", tname[s->type[h]],
              txt);
  for (int t = 1; t < 9; t++)
  {
    GList *l = tlist(&got, t);
    if (!match(t, 0, tlist(s->oi, t), l))
      mc_fail("%s tables returned (%d) are not those of the file (%d) less "
              "what was reported: %s",
              tname[t], g_list_length(l), g_list_length(tlist(s->oi, t)), txt);
  }
  {
    oi_header a = s->oi->header, b = got.header;
    ser x, y;
    ser_init(&x, 0), ser_init(&y, 0);
    ser_header(&x, &a, SER_NODATE), ser_header(&y, &b, SER_NODATE);
    bool eq = ser_same(&x, &y);
    ser_done(&x), ser_done(&y);
    MC_CHECK(eq || state[0] == OPEN || (state[0] != INTACT && warned(0)),
             "primary keywords differ, no warning");
  }
  mc_outcome(ds_hash(&got, SER_NODATE));
  free(txt);
  exercise(&got);
  free_oi_fits(&got);
  return true;
}

static sample *make(oi_fits *oi, rf_file *given, bool sealed)
{
  sample *s = calloc(1, sizeof(*s));
  if (given)
    s->f = given;
  else
  {
    const char *fn = mc_path("sample.fits");
    int st = 0;
    unlink(fn);
    if (write_oi_fits(fn, *oi, &st)) mc_fail("write failed");
    s->f = rf_read(fn);
    unlink(fn);
    ds_as_written(oi);
  }
  if (!sealed)
    for (int i = 0; i < s->f->nhdu; i++) rf_unseal(&s->f->h[i]);
  s->b = rf_emit(s->f, &s->n);
  /* offsets */
  size_t p = 0;
  for (int i = 0; i < s->f->nhdu; i++)
  {
    rf_hdu *h = &s->f->h[i];
    h->start = p;
    p += ((size_t)(h->ncard + 1) * 80 + 2879) / 2880 * 2880;
    h->dstart = p;
    p += h->ndata;
    s->type[i] = -1;
    for (int t = 0; t < 9; t++)
      if (!strcmp(rf_extname(h), tname[t])) s->type[i] = t;
    for (int j = 0; j < i; j++)
      if (s->type[j] == s->type[i]) s->idx[i]++;
  }
  s->oi = oi;
  ds_keep(oi);
  return s;
}

/* one table of each type, one or two records, all options */
static oi_fits *tiny(void)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 1, true);
  ds_array(oi, "ARR0", 2, 0);
  ds_wave(oi, "INS0", 2, 0);
  ds_corr(oi, "COR0", 9, 1, 0);
  ds_inspol(oi, "ARR0", "INS0", 1, 2, 0);
  oi_vis *v = ds_vis(oi, "ARR0", "INS0", "COR0", 1, 2, 1);
  vis_refmap(v, 1);
  vis_complex(v, "Jy", 1);
  ds_vis2(oi, "ARR0", "INS0", "COR0", 1, 2, 3);
  ds_t3(oi, "ARR0", "INS0", "COR0", 1, 2, 5);
  ds_flux(oi, "ARR0", "INS0", "COR0", 1, 2, 7);
  return oi;
}

static oi_fits *v1data(void)
{
  oi_fits *oi = ds_new();
  memset(&oi->header, 0, sizeof(oi->header));
  ds_targets(oi, 1, false);
  ds_array(oi, "ARR0", 2, 0), ds_wave(oi, "INS0", 2, 0);
  ds_vis(oi, "ARR0", "INS0", "", 1, 2, 1);
  ds_vis2(oi, "ARR0", "INS0", "", 1, 2, 3);
  ds_t3(oi, "ARR0", "INS0", "", 1, 2, 5);
  ds_v1_defaults(oi);
  return oi;
}

static sample *get(int which)
{
  static sample *s[10];
  if (s[which]) return s[which];
  switch (which)
  {
  case 0: s[0] = make(tiny(), NULL, true); break;
  case 1: s[1] = make(tiny(), NULL, false); break;
  case 2: s[2] = make(ds_rich(), NULL, true); break;
  case 3: s[3] = make(ds_rich(), NULL, false); break;
  case 4:
  {
    oi_fits *oi = v1data();
    v1opt o = {0};
    rf_file *f = oif_v1(oi, &o);
    /* what reading it gives (C03 decides that this is right) */
    const char *fn = mc_path("v1.fits");
    int st = 0;
    oi_fits got;
    rf_write(f, fn);
    if (read_oi_fits(fn, &got, &st)) mc_fail("version 1 sample not read");
    oi_fits *cl = ds_clone(&got);
    free_oi_fits(&got);
    unlink(fn);
    s[4] = make(cl, f, false);
    break;
  }
  case 8: /* DATASUM but no CHECKSUM */
  case 9: /* CHECKSUM but no DATASUM */
  {
    rf_file *f = rf_clone(get(0)->f);
    for (int i = 0; i < f->nhdu; i++)
      if (which == 8) rf_del(&f->h[i], "CHECKSUM");
      else rf_sealhdu(&f->h[i]);
    s[which] = make(ds_clone(get(0)->oi), f, true);
    break;
  }
  default: /* larger than the buffers of cfitsio */
  {
    oi_fits *oi = ds_new();
    ds_targets(oi, 2, false);
    ds_array(oi, "ARR0", 3, 0);
    ds_wave(oi, "INS0", 80, 0);
    ds_corr(oi, "COR0", 50, 3, 0);
    ds_inspol(oi, "ARR0", "INS0", 30, 80, 0);
    ds_vis(oi, "ARR0", "INS0", "", 20, 80, 1);
    ds_vis2(oi, "ARR0", "INS0", "", 40, 80, 3);
    ds_t3(oi, "ARR0", "INS0", "", 25, 80, 5);
    ds_flux(oi, "ARR0", "INS0", "", 30, 80, 7);
    ds_flux(oi, "ARR0", "INS0", "", 30, 80, 8);
    s[which] = make(oi, NULL, which == 5);
  }
  }
  return s[which];
}

static size_t used(const rf_hdu *h)
{
  long a = 0, b = 0;
  rf_int(h, "NAXIS1", &a), rf_int(h, "NAXIS2", &b);
  return (size_t)a * b;
}

/* ---- truncation ---- */
static void c17_truncate(void)
{
  int w = mc_pick(3, "file");
  sample *s = get(w == 2 ? 4 : w);
  size_t card = mc_pick((s->n + 79) / 80, "card");
  size_t len = card * 80;
  /* position within a header: quick takes the edges */
  int h = 0;
  while (h + 1 < s->f->nhdu && s->f->h[h + 1].start <= len) h++;
  bool head = len < s->f->h[h].dstart;
  bool data = !head && len < s->f->h[h].dstart + used(&s->f->h[h]);
  if (mc_thorough || data)
    len += mc_pick(80, "byte");
  else
  {
    static const int e[] = {0, 1, 40, 79};
    len += e[mc_pick(head ? 4 : 2, "byte")];
  }
  mc_mine();
  if (len >= s->n) return;
  int state[64];
  for (int i = 0; i < s->f->nhdu; i++)
  {
    rf_hdu *hd = &s->f->h[i];
    state[i] = hd->dstart + used(hd) <= len ? MAYBE
               : hd->dstart <= len          ? MAYBE
                                            : ANY;
    if (hd->dstart + hd->ndata <= len) state[i] = INTACT;
  }
  if (w == 2) state[0] = OPEN; /* derived from the tables */
  const char *fn = mc_path("t.fits");
  spew(fn, s->b, len);
  verify(fn, s, state);
  unlink(fn);
}

/* ---- bytes overwritten ---- */
static bool structural(const char *card)
{
  static const char *const k[] = {"SIMPLE  ", "XTENSION", "BITPIX  ",
                                  "PCOUNT  ", "GCOUNT  ", "TFIELDS ",
                                  "EXTEND  ", "GROUPS  ", "END     "};
  for (int i = 0; i < (int)(sizeof(k) / sizeof(*k)); i++)
    if (!strncmp(card, k[i], 8)) return true;
  return !strncmp(card, "NAXIS", 5) || !strncmp(card, "TFORM", 5) ||
         !strncmp(card, "THEAP", 5);
}

static void c17_bytes(void)
{
  sample *s = get(0);
  int hd = mc_pick(s->f->nhdu, "hdu");
  rf_hdu *h = &s->f->h[hd];
  size_t end = h->dstart + h->ndata - h->start;
  size_t at = mc_pick(end / 80, "card") * 80;
  at += mc_pick(80, "byte");
  unsigned char *p = (unsigned char *)s->b + h->start + at, old = *p, c;
  bool head = h->start + at < h->dstart;
  size_t cardno = at / 80;
  if (!mc_thorough && head && cardno > (size_t)h->ncard) mc_skip();
  if (!mc_thorough && head && old == ' ' && at % 80 > 10) mc_skip();
  if (!mc_thorough && !head && at - (h->dstart - h->start) >= used(h))
    mc_skip();
  static const unsigned char hv[] = {'9', ' ', 0, '\'', 0xff, '-'};
  int v = mc_pick(mc_thorough ? 7 : head ? 3 : 2, "value");
  if (head)
    c = v ? hv[v - 1] : old ^ 1;
  else
  {
    static const unsigned char dv[] = {0, 0xff, 0x80, 0x7f, ' ', 1};
    c = v ? dv[v - 1] : old ^ 0x10;
  }
  if (c == old) mc_skip();
  mc_mine();
  int state[64];
  const char *card = cardno < (size_t)h->ncard ? h->card[cardno] : "END     ";
  bool fmt = head && structural(card);
  bool ident = head && (!strncmp(card, "EXTNAME ", 8) ||
                        !strncmp(card, "XTENSION", 8));
  /* a keyword changed into one of the structure */
  char now[81];
  if (head)
  {
    memcpy(now, s->b + h->start + cardno * 80, 80);
    now[80] = 0;
    now[at % 80] = c;
    if (structural(now)) fmt = true;
    if (!strncmp(now, "EXTNAME ", 8)) ident = true;
  }
  for (int i = 0; i < s->f->nhdu; i++)
    state[i] = i == hd ? ident ? ANY : MAYBE : i > hd && fmt ? ANY : INTACT;
  char *b = malloc(s->n);
  memcpy(b, s->b, s->n);
  b[h->start + at] = c;
  const char *fn = mc_path("t.fits");
  spew(fn, b, s->n);
  free(b);
  verify(fn, s, state);
  unlink(fn);
}

/* files with one of the checksums only: values of the data overwritten */
static void c17_onesum(void)
{
  sample *s = get(8 + mc_pick(2, "sum"));
  int hd = 1 + mc_pick(s->f->nhdu - 1, "hdu");
  rf_hdu *h = &s->f->h[hd];
  size_t at = h->dstart + mc_pick(used(h), "byte");
  int v = mc_pick(mc_thorough ? 8 : 2, "bit");
  mc_mine();
  int state[64];
  for (int i = 0; i < s->f->nhdu; i++) state[i] = i == hd ? MAYBE : INTACT;
  char *b = malloc(s->n);
  memcpy(b, s->b, s->n);
  b[at] ^= (char)(1 << (mc_thorough ? v : 4 * v));
  const char *fn = mc_path("t.fits");
  spew(fn, b, s->n);
  free(b);
  verify(fn, s, state);
  spew(fn, s->b, s->n); /* and undamaged */
  for (int i = 0; i < s->f->nhdu; i++) state[i] = INTACT;
  MC_CHECK(verify(fn, s, state), "an undamaged file was refused");
  unlink(fn);
}

/* ---- removal, renaming, mistyping ---- */
static bool in(const char *list, const char *key)
{
  char k[80];
  snprintf(k, sizeof(k), " %s ", key);
  return strstr(list, k) != NULL;
}

static bool mandatory_key(int t, const char *key)
{
  static const char *const m[] = {
      " OI_REVN ",
      " OI_REVN ARRNAME FRAME ARRAYX ARRAYY ARRAYZ ",
      " OI_REVN INSNAME ",
      " OI_REVN CORRNAME NDATA ",
      " OI_REVN DATE-OBS NPOL ARRNAME ORIENT MODEL ",
      " OI_REVN DATE-OBS INSNAME ",
      " OI_REVN DATE-OBS INSNAME ",
      " OI_REVN DATE-OBS INSNAME ",
      " OI_REVN DATE-OBS INSNAME CALSTAT "};
  return t >= 0 && in(m[t], key);
}

static bool optional_key(int t, const char *key)
{
  static const char *const m[] = {
      " ", " ", " ", " ", " ", " ARRNAME CORRNAME AMPTYP PHITYP AMPORDER PHIORDER ",
      " ARRNAME CORRNAME ", " ARRNAME CORRNAME ",
      " ARRNAME CORRNAME FOV FOVTYPE "};
  return t >= 0 && in(m[t], key);
}

/* columns that may be missing; given the options used in the file */
static bool optional_col(int t, const char *name)
{
  static const char *const m[] = {" CATEGORY ", " ", " ", " ", " ",
                                  " VISREFMAP RVIS ", " ", " ",
                                  " STA_INDEX "};
  return in(m[t], name);
}

static int colcount(const rf_hdu *h)
{
  rf_col c[64];
  return rf_cols(h, c, 64);
}

/* applies edit number e to HDU hd of f; sets state. false: not applicable */
enum
{
  E_KEYDEL, E_KEYREN, E_KEYUNDEF, E_KEYTEXT, E_COLDEL, E_COLREN, E_COLBYTE,
  E_COLWIDE, E_HDUDEL, E_HDUREN, E_HDUFORM, NEDIT
};

static int edit_targets(const sample *s, int hd, int kind)
{
  const rf_hdu *h = &s->f->h[hd];
  if (kind <= E_KEYTEXT) return h->ncard;
  if (kind <= E_COLWIDE) return hd ? colcount(h) : 0;
  return hd ? 1 : 0;
}

static void trim(char *s)
{
  for (int i = strlen(s) - 1; i >= 0 && s[i] == ' '; i--) s[i] = 0;
}

static bool edit(const sample *s, rf_file *f, int hd, int kind, int k,
                 int *state)
{
  rf_hdu *h = &f->h[hd];
  int t = s->type[hd];
  if (kind <= E_KEYTEXT)
  {
    char key[9];
    memcpy(key, h->card[k], 8);
    key[8] = 0;
    trim(key);
    if (!*key || structural(h->card[k]) || !strcmp(key, "TTYPE") ||
        h->card[k][8] != '=' || !strncmp(key, "TTYPE", 5))
      return false;
    bool ident = !strcmp(key, "EXTNAME");
    bool mand = mandatory_key(t, key), opt = optional_key(t, key);
    /* units that are mandatory */
    rf_col c;
    char u[20];
    if (t == 8 && rf_colnum(h, "FLUXDATA", &c))
    {
      sprintf(u, "TUNIT%d", c.num);
      if (!strcmp(u, key)) mand = true;
    }
    if (t == 5 && rf_colnum(h, "RVIS", &c))
    {
      sprintf(u, "TUNIT%d", c.num);
      if (!strcmp(u, key)) mand = true;
    }
    if (t == 5 && rf_colnum(h, "VISAMP", &c))
    {
      sprintf(u, "TUNIT%d", c.num);
      if (!strcmp(u, key)) opt = true;
    }
    if (kind == E_KEYDEL)
      rf_delcard(h, k);
    else if (kind == E_KEYREN)
      memcpy(h->card[k], "XRENAMED", 8);
    else if (kind == E_KEYUNDEF)
      memset(h->card[k] + 10, ' ', 70);
    else
    {
      /* text where a number is due */
      if (h->card[k][10] == '\'') return false;
      char n[81];
      snprintf(n, sizeof(n), "%-8s= 'text    '%61s", key, "");
      memcpy(h->card[k], n, 80);
    }
    /* a keyword that the reader has no use for */
    state[hd] = ident ? ANY : mand ? GONE : opt ? OPEN : INTACT;
    if (hd == 0) state[0] = OPEN;
    return true;
  }
  if (kind <= E_COLWIDE)
  {
    rf_col cols[64];
    int n = rf_cols(h, cols, 64);
    if (k >= n) return false;
    rf_col *c = &cols[k];
    char key[20];
    bool opt = optional_col(t, c->name);
    if (kind == E_COLDEL)
      rf_delcol(h, c->num);
    else if (kind == E_COLREN)
    {
      sprintf(key, "TTYPE%d", c->num);
      rf_setstr(h, key, "RENAMED");
    }
    else if (kind == E_COLBYTE)
    {
      if (c->type != 'A') return false;
      char fm[20];
      sprintf(key, "TFORM%d", c->num);
      sprintf(fm, "%dB", c->repeat);
      rf_setstr(h, key, fm);
      opt = false;
    }
    else
    {
      /* text longer than the standard allows: a wider column of the same name
       * at the end */
      if (c->type != 'A') return false;
      char nm[72], fm[20];
      int w = c->repeat + 1 + (k % 3) * 40;
      strcpy(nm, c->name);
      sprintf(key, "TTYPE%d", c->num);
      rf_setstr(h, key, "RENAMED");
      sprintf(fm, "%dA", w);
      rf_addcol(h, nm, fm, NULL);
      rf_col nc;
      rf_colnum(h, nm, &nc);
      char *txt = malloc(w + 1);
      memset(txt, 'x', w), txt[w] = 0;
      for (long i = 0; i < rf_rows(h); i++)
        rf_puttext(rf_cell(h, &nc, i), w, txt);
      free(txt);
      /* TARGET and SPECTYP are cut to 32 characters */
      opt = t == 0 && (!strcmp(nm, "TARGET") || !strcmp(nm, "SPECTYP"));
    }
    state[hd] = opt ? OPEN : GONE;
    return true;
  }
  if (kind == E_HDUDEL)
  {
    state[hd] = t == 0 ? GONE : ANY;
    return true; /* removed by the caller */
  }
  if (kind == E_HDUREN)
  {
    rf_setstr(h, "EXTNAME", "OTHER");
    state[hd] = t == 0 ? GONE : ANY;
    return true;
  }
  /* another kind of HDU: an image of the same size */
  char c[81];
  snprintf(c, sizeof(c), "%-80s", "XTENSION= 'IMAGE   '");
  memcpy(h->card[0], c, 80);
  rf_del(h, "TFIELDS");
  state[hd] = t == 0 ? GONE : ANY;
  return true;
}

static void write_edited(rf_file *f, const bool *drop, const char *fn)
{
  for (int i = f->nhdu - 1; i > 0; i--)
    if (drop[i]) rf_delhdu(f, i);
  rf_write(f, fn);
  rf_free(f);
}

/* correlation, polarisation and data tables without which the rest can be read */
static void judge_edit(const char *fn, const sample *s, const int *state)
{
  bool must = true;
  for (int h = 0; h < s->f->nhdu; h++)
    if (state[h] != INTACT && s->type[h] < 3) must = false;
  bool ok = verify(fn, s, state);
  MC_CHECK(ok || !must, "the file was refused although only optional or data tables are unusable");
}

static void c17_edits(void)
{
  int w = mc_pick(3, "file");
  sample *s = get(w == 0 ? 1 : w == 1 ? 3 : 4);
  int hd = mc_pick(s->f->nhdu, "hdu");
  int kind = mc_pick(NEDIT, "edit");
  int n = edit_targets(s, hd, kind);
  if (!n) mc_skip();
  int k = mc_pick(n, "what");
  mc_mine();
  int state[64] = {0};
  bool drop[64] = {0};
  rf_file *f = rf_clone(s->f);
  if (!edit(s, f, hd, kind, k, state))
  {
    rf_free(f);
    return;
  }
  if (w == 2) state[0] = OPEN; /* derived from the tables */
  drop[hd] = kind == E_HDUDEL;
  const char *fn = mc_path("t.fits");
  write_edited(f, drop, fn);
  judge_edit(fn, s, state);
  unlink(fn);
}

/* two edits in different HDUs */
static void c17_pairs(void)
{
  sample *s = get(3);
  static const int kinds[] = {E_KEYDEL, E_COLDEL, E_COLREN, E_HDUDEL};
  int hd[2], kind[2], k[2];
  for (int i = 0; i < 2; i++)
  {
    hd[i] = i == 0 ? mc_pick(s->f->nhdu - 2, "hdu") + 1
                   : hd[0] + 1 + mc_pick(s->f->nhdu - hd[0] - 1, "hdu");
    if (s->type[hd[i]] < 3) mc_skip();
    kind[i] = kinds[mc_pick(mc_thorough ? 4 : 2, "edit")];
    k[i] = mc_pick(edit_targets(s, hd[i], kind[i]), "what");
    if (!mc_thorough && kind[i] == E_KEYDEL)
    {
      char key[9];
      memcpy(key, s->f->h[hd[i]].card[k[i]], 8);
      key[8] = 0;
      trim(key);
      if (!mandatory_key(s->type[hd[i]], key)) mc_skip();
    }
    else if (!mc_thorough && k[i] % 4)
      mc_skip();
  }
  mc_mine();
  int state[64] = {0};
  bool drop[64] = {0};
  rf_file *f = rf_clone(s->f);
  for (int i = 0; i < 2; i++)
  {
    if (!edit(s, f, hd[i], kind[i], k[i], state))
    {
      rf_free(f);
      return;
    }
    drop[hd[i]] = kind[i] == E_HDUDEL;
  }
  const char *fn = mc_path("t.fits");
  write_edited(f, drop, fn);
  judge_edit(fn, s, state);
  unlink(fn);
}

/* ---- sizes that are not true ---- */
static void c17_sizes(void)
{
  int w = mc_pick(2, "sealed");
  sample *s = get(w == 0 ? 1 : 0);
  int hd = mc_pick(s->f->nhdu - 1, "hdu") + 1;
  static const char *const val[] = {
      "0",          "1",          "3",           "1000",  "1000000",
      "2147483647", "2147483648", "99999999999", "-1",    "1.5",
      "'x'",        "9223372036854775807"};
  static const char *const key[] = {"NAXIS2", "NAXIS1", "TFIELDS",
                                    "PCOUNT", "GCOUNT", "NAXIS", "BITPIX"};
  int what = mc_pick(7 + colcount(&s->f->h[hd]), "what");
  int v = mc_pick(12, "value");
  mc_mine();
  rf_file *f = rf_clone(s->f);
  rf_hdu *h = &f->h[hd];
  int state[64] = {0};
  char name[20], text[81];
  if (what < 7)
    strcpy(name, key[what]);
  else
    sprintf(name, "TFORM%d", what - 6);
  int c = rf_find(h, name);
  if (c < 0)
  {
    rf_free(f);
    return;
  }
  if (what < 7)
    snprintf(text, sizeof(text), "%-8s= %20s%50s", name, val[v], "");
  else
  {
    rf_col cols[64];
    rf_cols(h, cols, 64);
    rf_col *cc = &cols[what - 7];
    if (v == 10)
      snprintf(text, sizeof(text), "%-8s= '%d%c'%70s", name, cc->repeat, 'Z',
               "");
    else if (v == 9)
      snprintf(text, sizeof(text), "%-8s= '1P%c(%d)'%70s", name, cc->type,
               cc->repeat, "");
    else
      snprintf(text, sizeof(text), "%-8s= '%s%c'%70s", name, val[v], cc->type,
               "");
    /* keep the row width right */
    if (v < 9)
    {
      long long wid = strtoll(val[v], NULL, 10) * (cc->width / (cc->repeat ? cc->repeat : 1));
      long long tot = 0;
      for (int i = 0; i < colcount(h); i++)
        tot += i == what - 7 ? wid : (long long)cols[i].width;
      if (tot > 0)
      {
        char t2[81];
        snprintf(t2, sizeof(t2), "%-8s= %20lld%50s", "NAXIS1", tot, "");
        memcpy(h->card[rf_find(h, "NAXIS1")], t2, 80);
      }
    }
  }
  memcpy(h->card[c], text, 80);
  for (int i = hd; i < s->f->nhdu; i++)
    state[i] = i == hd ? w ? MAYBE : OPEN : ANY;
  /* rows and columns that cover other HDUs may hide them */
  const char *fn = mc_path("t.fits");
  rf_write(f, fn);
  rf_free(f);
  verify(fn, s, state);
  unlink(fn);
}

/* ---- storage that fails ---- */
static void c17_faults(void)
{
  int w = mc_pick(5, "file");
  sample *s = get(w < 3 ? (int[]){0, 3, 4}[w] : w + 2);
  const char *fn = mc_path("f.fits");
  static int total[8], made;
  if (!total[w])
  {
    /* number of calls of an undisturbed read */
    oi_fits got;
    int st = 0;
    spew(fn, s->b, s->n);
    fault_on(F_OPEN | F_READ | F_CLOSE, -1, 0, 0);
    mc_cap_begin();
    int r = read_oi_fits(fn, &got, &st);
    free(mc_cap_end());
    total[w] = fault_off();
    if (r) mc_fail("sample not read");
    free_oi_fits(&got);
    unlink(fn);
  }
  int kind = mc_pick(3, "kind"); /* error, partial, from here on */
  int at = mc_pick(total[w], "call");
  int len = kind == 2 ? 1 << 20 : 1;
  int also = -1;
  if (mc_thorough && kind != 2 && w != 3 && w != 4)
    also = at + 1 + mc_pick(total[w] - at + 2, "second");
  mc_mine();
  (void)made;
  spew(fn, s->b, s->n);
  int state[64];
  for (int i = 0; i < s->f->nhdu; i++) state[i] = MAYBE;
  if (w == 2) state[0] = OPEN;
  fault_on(F_OPEN | F_READ | F_CLOSE, at, len, kind == 1);
  if (also >= 0) fault_also(also);
  verify(fn, s, state);
  unlink(fn);
}

/* ---- damaged files for other checks ---- */
bool damage_edited(const char *fn)
{
  sample *s = get((int[]){1, 3, 4}[mc_pick(3, "file")]);
  int hd = mc_pick(s->f->nhdu, "hdu");
  int kind = mc_pick(NEDIT, "edit");
  int n = edit_targets(s, hd, kind);
  if (!n) mc_skip();
  int k = mc_pick(n, "what");
  mc_mine();
  int state[64] = {0};
  bool drop[64] = {0};
  rf_file *f = rf_clone(s->f);
  if (!edit(s, f, hd, kind, k, state))
  {
    rf_free(f);
    return false;
  }
  drop[hd] = kind == E_HDUDEL;
  write_edited(f, drop, fn);
  return true;
}

void damage_cut(const char *fn)
{
  int w = mc_pick(3, "file");
  sample *s = get(w == 2 ? 4 : w);
  size_t len = 80 * (size_t)mc_pick((s->n + 79) / 80, "card");
  mc_mine();
  spew(fn, s->b, len < s->n ? len : s->n);
}

void damage_none(int w, const char *fn)
{
  sample *s = get(w);
  spew(fn, s->b, s->n);
}

const mc_scope scopes_damage[] = {
    {"C17", "truncate", c17_truncate, 0, 0, 0,
     "three files (with and without checksums, version 1) cut at every card boundary and inside (quick: selected bytes of headers, every byte of data; thorough: every byte)"},
    {"C17", "bytes", c17_bytes, 0, 0, 0,
     "every byte of a file with checksums overwritten by each of 3 or 2 (thorough: 7) values (quick: blanks and padding left out)"},
    {"C17", "onesum", c17_onesum, 0, 0, 0,
     "files with only one of the two checksum keywords: two bits (thorough: every bit) of every byte of data inverted"},
    {"C17", "edits", c17_edits, 0, 0, 0,
     "three files without checksums: every keyword and column removed, renamed or mistyped, every HDU removed, renamed or turned into an image"},
    {"C17", "pairs", c17_pairs, 0, 0, 0,
     "two removals or renamings in different optional HDUs (quick: mandatory keywords and every fourth column)"},
    {"C17", "sizes", c17_sizes, 0, 0, 0,
     "every size keyword and column format set to every special value, with and without checksums"},
    {"C17", "faults", c17_faults, 0, 0, 0,
     "every open, read, seek or close call failing once, partially, or from there on (thorough: also any second one)"},
    {0}};
