/* C23: version 2 files as other writers lay them out. A file is written by the
 * library, its tables are taken apart and put together again in another way
 * that holds the same content. */
#include "data.h"
#include "rf.h"
#include <unistd.h>

enum { T_TARGET, T_ARR, T_WAVE, T_CORR, T_POL, T_VIS, T_VIS2, T_T3, T_FLUX, NTAB };
static const char *const tname[] = {"OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL",
                                    "OI_VIS",    "OI_VIS2",  "OI_T3",         "OI_FLUX"};

/* every feature in use; no value needs more precision than a float has */
static oi_fits *base(int variant)
{
  oi_fits *oi = ds_new();
  ds_targets(oi, 2, true);
  ds_array(oi, "ARR0", 3, 0);
  ds_wave(oi, "INS0", 3, 0);
  ds_corr(oi, "COR0", 50, 3, 0);
  ds_inspol(oi, "ARR0", "INS0", 2, 3, 0);
  oi_vis *v = ds_vis(oi, "ARR0", "INS0", "COR0", 3, 3, 1);
  vis_complex(v, "Jy", 2);
  vis_refmap(v, 1);
  v->amporder = 2, v->phiorder = 0;
  SETS(v->amptyp, variant ? "differential" : "correlated flux");
  SETS(v->phityp, "absolute");
  SETS(v->ampunit, variant ? "" : "Jy");
  ds_vis2(oi, "ARR0", "INS0", "COR0", 3, 3, 3);
  ds_t3(oi, "ARR0", "INS0", "COR0", 3, 3, 5);
  ds_flux(oi, "ARR0", "INS0", "COR0", 3, 3, 7);
  if (variant)
  {
    ds_array(oi, "ARR1", 2, 1);
    ds_wave(oi, "INS1", 1, 1);
    ds_corr(oi, "COR1", 60, 2, 1);
    ds_inspol(oi, "ARR1", "INS1", 1, 1, 1);
    ds_vis(oi, "ARR1", "INS1", "", 2, 1, 2);
    ds_vis2(oi, "ARR1", "INS1", "", 2, 1, 4);
    ds_t3(oi, "", "INS1", "", 2, 1, 6);
    ds_flux(oi, "", "INS1", "", 2, 1, 8);
    ds_vis2(oi, "ARR0", "INS0", "", 1, 3, 9);
  }
  if (variant) /* text that fills its field */
  {
    target *t = &oi->targets.targ[0];
    SETS(t->target, "Target-name-of-thirty-two-chars!");
    SETS(t->spectyp, "Spectral-type-of-32-characters-!");
    SETS(t->veltyp, "HELIOCEN"), SETS(t->veldef, "RELATIVE"), SETS(t->category, "SCI");
    element *e = &((oi_array *)oi->arrayList->data)->elem[1];
    SETS(e->tel_name, "Telescope-name-!"), SETS(e->sta_name, "Name-of-station!"), SETS(e->fovtype, "RADIUS");
  }
  if (variant) /* more than a signed 16-bit column holds */
  {
    oi_vis2 *w = oi->vis2List->data;
    for (int i = 0; i < w->numrec; i++) w->record[i].corrindx_vis2data += 40000;
    oi_t3 *t = oi->t3List->data;
    for (int i = 0; i < t->numrec; i++) t->record[i].corrindx_t3amp += 40000, t->record[i].corrindx_t3phi += 40000;
  }
  cell *c;
  int n = ds_cells(oi, &c);
  for (int i = 0; i < n; i++)
    if (c[i].kind == K_DBL)
    {
      double *p = c[i].p;
      long w = fabs(*p) < 1e9 ? (long)floor(*p) : 0;
      if (*p - w == 1.0 / 1024) /* distinct values with a fraction */
        *p = ((w >> 20) << 11) + (((w >> 15) & 31) << 6) + (((w >> 6) & 7) << 3) + (w & 7) + 0.375;
      *p = (float)*p;
    }
  free(c);
  return oi;
}

/* ---- how a table is laid out ---- */
#define MAXC 40
typedef struct
{
  int order;  /* 0 as is, 1 reversed, 2 last first, 3 first last, 4 odd then even */
  int kase;   /* of column names: 0 as is, 1 lower, 2 mixed */
  int fmt[MAXC]; /* per column, see formats() */
  int extra;  /* 0 none, 1 in front, 2 after the second, 3 last, 4 variable-length, 5 one after each, 6 width zero,
              * 7 one before each with nearly its name */
  int disp, null, dim, unit;
  int form1;  /* how a repeat count of one is spelled */
  int keys;   /* 0 as is, 1 reversed, 2 others in between, 3 long header, 4 column cards before the others */
  int spell;  /* of values in cards */
  int extver; /* 0 as is, 1 none, 2 arbitrary, 3 zero */
  int seal;   /* 0 valid checksums, 1 none, 2 DATASUM only, 3 CHECKSUM only */
  int empty;  /* optional keywords that are not set: absent, blank or undefined */
  int heap;   /* unused bytes after the table */
  int extname; /* as is, blanks after it */
} layout;

/* number of formats of a column that can hold its values; k < 0: that number;
 * otherwise fills in type, width, scaling */
typedef struct
{
  char type;
  int rep;
  double scale, zero;
  int pad; /* text: 1 ends at a NUL, garbage beyond */
} colfmt;

static double ival(const unsigned char *cell, char type, int e)
{
  return rf_num(cell, type, e);
}

static int formats(const rf_hdu *h, const rf_col *c, int k, colfmt *o)
{
  colfmt f[14];
  int n = 0;
  long rows = rf_rows(h);
  memset(f, 0, sizeof(f));
  for (int i = 0; i < 14; i++) f[i].type = c->type, f[i].rep = c->repeat, f[i].scale = 1;
  n = 1; /* as is */
  if (c->type == 'D')
  {
    f[n++].type = 'E';
    f[n++].scale = 4;
    f[n].type = 'E', f[n++].scale = -0.5;
    f[n++].pad = 2; /* scaling cards that change nothing */
  }
  else if (c->type == 'E')
  {
    f[n++].type = 'D';
    f[n++].scale = 4;
    f[n].type = 'D', f[n++].scale = -0.5;
    f[n++].pad = 2;
  }
  else if (c->type == 'C')
  {
    f[n++].type = 'M';
  }
  else if (c->type == 'I' || c->type == 'J')
  {
    bool byte = true, shrt = true, ushrt = true;
    for (long r = 0; r < rows; r++)
      for (int e = 0; e < c->repeat; e++)
      {
        double v = ival(rf_cell(h, c, r), c->type, e);
        if (v < 0 || v > 255) byte = false;
        if (v < -32768 || v > 32767) shrt = false;
        if (v < 0 || v > 65535) ushrt = false;
      }
    f[n++].type = c->type == 'I' ? 'J' : 'K';
    if (c->type == 'I') f[n++].type = 'K';
    else if (shrt) f[n++].type = 'I';
    if (byte) f[n++].type = 'B';
    f[n++].zero = c->type == 'I' ? 32768 : 2147483648.; /* unsigned */
    f[n++].type = 'E';
    if (byte) f[n].type = 'I', f[n].scale = 1, f[n++].zero = -1000;
    if (c->type == 'I') f[n].type = 'D', f[n++].scale = 0.25;
    if (c->type == 'J' && ushrt) f[n].type = 'I', f[n++].zero = 32768;
  }
  if (c->type == 'D' || c->type == 'E')
  {
    /* whole numbers times a power of two */
    double big = 0, unit = 1;
    bool whole = true, pos = true;
    for (long r = 0; r < rows; r++)
      for (int e = 0; e < c->repeat && whole; e++)
      {
        double v = ival(rf_cell(h, c, r), c->type, e);
        if (!isfinite(v) || (v == 0 && signbit(v))) whole = false;
        while (whole && v / unit != floor(v / unit))
          if ((unit /= 2) < 1e-9) whole = false;
        if (fabs(v) > big) big = fabs(v);
        if (v < 0) pos = false;
      }
    if (whole && big / unit < 32768) f[n].type = 'I', f[n++].scale = unit;
    if (whole && big / unit < 2147483648.) f[n].type = 'J', f[n++].scale = unit;
    if (whole && big / unit < 4e18) f[n].type = 'K', f[n++].scale = unit;
    if (whole && pos && big / unit < 256) f[n].type = 'B', f[n++].scale = unit;
    if (whole && unit == 1 && big < 32768) f[n].type = 'I', f[n].scale = 1, f[n++].zero = -1;
  }
  else if (c->type == 'A')
  {
    int len = 1;
    for (long r = 0; r < rows; r++)
    {
      char s[200];
      rf_text(rf_cell(h, c, r), c->width, s);
      if ((int)strlen(s) > len) len = strlen(s);
    }
    f[n++].rep = len;
    if (len + 1 <= c->repeat) f[n].rep = len + 1, f[n++].pad = 1;
    f[n++].pad = 1;
    if (!strcmp(c->name, "TARGET") || !strcmp(c->name, "SPECTYP"))
    {
      f[n++].rep = c->repeat * 2;
      f[n].rep = c->repeat + 1, f[n++].pad = 2;
      f[n].rep = c->repeat * 3, f[n++].pad = 2;
    }
  }
  if (k >= 0) *o = f[k < n ? k : 0];
  return n;
}

static int esize(char t)
{
  return t == 'M' ? 16 : strchr("DCK", t) ? 8 : strchr("JE", t) ? 4 : t == 'I' ? 2 : 1;
}

static void put(unsigned char *p, const colfmt *f, int e, double v)
{
  v = (v - f->zero) / f->scale;
  if (f->type == 'B') p[e] = v;
  else if (f->type == 'K')
  {
    int64_t w = v;
    for (int i = 0; i < 8; i++) p[e * 8 + i] = (uint64_t)w >> (8 * (7 - i));
  }
  else if (f->type == 'M') rf_putnum(p, 'D', e, v);
  else rf_putnum(p, f->type, e, v);
}

static void convert(unsigned char *to, const colfmt *f, const unsigned char *from, const rf_col *c)
{
  if (c->type == 'A')
  {
    char s[200];
    rf_text(from, c->width, s);
    rf_puttext(to, f->rep, s);
    if (f->pad == 2 && (int)strlen(s) == c->repeat)
      memset(to + strlen(s), 'x', f->rep - strlen(s)); /* more than the standard width: cut off */
    if (f->pad == 1 && (int)strlen(s) < f->rep)
    {
      memset(to + strlen(s), 'x', f->rep - strlen(s));
      to[strlen(s)] = 0;
    }
  }
  else if (f->type == c->type && f->scale == 1 && f->zero == 0)
    memcpy(to, from, c->width);
  else
    for (int e = 0; e < c->repeat * (c->type == 'C' ? 2 : 1); e++)
      put(to, f, e, rf_num(from, c->type, e));
}

typedef struct
{
  int src; /* column of the original; -1: extra */
  colfmt f;
  char form[20];
  int width;
} ncol;

static bool is_structural(const char *card)
{
  static const char *const K[] = {"XTENSION", "BITPIX  ", "PCOUNT  ", "GCOUNT  ", "TFIELDS ", "CHECKSUM", "DATASUM "};
  static const char *const T[] = {"TTYPE", "TFORM", "TUNIT", "TDIM", "TNULL", "TDISP", "TSCAL", "TZERO", "NAXIS"};
  for (size_t i = 0; i < sizeof(K) / sizeof(*K); i++)
    if (!strncmp(card, K[i], 8)) return true;
  for (size_t i = 0; i < sizeof(T) / sizeof(*T); i++)
    if (!strncmp(card, T[i], strlen(T[i])) && strspn(card + strlen(T[i]), "0123456789 ") + strlen(T[i]) >= 8)
      return true;
  return false;
}

/* the same value in another valid spelling */
static void respell(const char *card, int how, char *out)
{
  snprintf(out, 90, "%s", card);
  if (!how || card[8] != '=' || !strncmp(card, "EXTNAME ", 8)) return;
  rf_hdu h = {1, (char(*)[81])card};
  char key[9], s[81], e[170];
  sprintf(key, "%.8s", card);
  for (int i = 7; i >= 0 && key[i] == ' '; i--) key[i] = 0;
  if (rf_str(&h, key, s, sizeof(s)) == 1)
  {
    size_t n = 0;
    for (const char *p = s; *p; p++)
    {
      if (*p == '\'') e[n++] = '\'';
      e[n++] = *p;
    }
    e[n] = 0;
    if (n > 60) return;
    if (how == 1) snprintf(out, 90, "%-8s= '%s'", key, e);
    if (how == 2) snprintf(out, 90, "%-8s= '%-60s  '", key, e);
    if (how == 3) snprintf(out, 90, "%-8s=    '%s'/comment ' with / quotes", key, e);
    if (how == 4) /* at the end of the card */
    {
      char q[80];
      snprintf(q, sizeof(q), "'%s'", e);
      snprintf(out, 90, "%-8s= %70s", key, q);
    }
    return;
  }
  long l;
  double d;
  if (rf_int(&h, key, &l) == 1)
  {
    if (how == 1) snprintf(out, 90, "%-8s= %ld", key, l);
    if (how == 2) snprintf(out, 90, "%-8s=  %+03ld /x", key, l);
    if (how == 3) snprintf(out, 90, "%-8s= %70ld", key, l);
    if (how == 4) snprintf(out, 90, "%-8s=%ld/", key, l), memmove(out + 10, out + 9, strlen(out + 9) + 1), out[9] = ' ';
  }
  else if (rf_dbl(&h, key, &d) == 1 && isfinite(d))
  {
    if (how == 1) snprintf(out, 90, "%-8s= %.17G", key, d); /* without a decimal point at times */
    if (how == 2)
    {
      snprintf(e, sizeof(e), "%+.16E", d);
      *strchr(e, 'E') = 'D';
      snprintf(out, 90, "%-8s= %s/x", key, e);
    }
    if (how == 3) snprintf(out, 90, "%-8s= %70.16E", key, d);
    if (how == 4) snprintf(out, 90, "%-8s= %.17gE+00/", key, d);
  }
}

static void padding(rf_hdu *h, int i)
{
  static const char *const C[] = {
      "COMMENT INSNAME = 'WRONG'", "HISTORY OI_REVN =                    9", "",
      "HIERARCH ESO ARRNAME = 'WRONG' / x", "XINSNAME= 'WRONG   '", "INSNAMEX= 'WRONG   '",
      "EXTNAMEX= 'OI_FLUX '", "OI_REV  =                    9", "TTYPE   = 'WRONG   '", "TTYPE0  = 'TARGET_ID'",
      "CORRNAM = 'WRONG   '", "LONGTEXT= 'some text that goes on and on and on and on and on and on and&'",
      "CONTINUE  ' on to the next card'", "AMPTYPE = 'WRONG   '", "INTEGER =                    1 / [s] x",
      "LOGICAL =                    T", "COMPLEX = (1.0, 2.0)", "UNDEF   =                     / no value"};
  int n = sizeof(C) / sizeof(*C);
  rf_card(h, -1, C[i % n]);
  if (i % n == 11) rf_card(h, -1, C[12]);
}

static const char *const optkeys[NTAB] = {"", "", "", "", "", "ARRNAME CORRNAME AMPTYP PHITYP AMPORDER PHIORDER",
                                          "ARRNAME CORRNAME", "ARRNAME CORRNAME", "ARRNAME CORRNAME FOVTYPE FOV"};

/* a name of no column that resembles one */
static void nearly(const rf_col *c, int n, const char *name, int how, char *out)
{
  for (;; how++)
  {
    switch (how % 4)
    {
    case 0: sprintf(out, "%sX", name); break;
    case 1: sprintf(out, "%.*s", (int)strlen(name) - 1, name); break;
    case 2: sprintf(out, "X%s", name); break;
    default: sprintf(out, "%s_2", name); break;
    }
    bool used = false;
    for (int k = 0; k < n; k++)
      if (!strcmp(out, c[k].name)) used = true;
    if (*out && !used && strcmp(out, "CORRINDX_RVI")) return;
  }
}

static rf_hdu rebuild(const rf_hdu *s, const layout *l, int tab)
{
  rf_col c[MAXC];
  int n = rf_cols(s, c, MAXC), m = 0;
  long rows = rf_rows(s);
  static const char *const EX[] = {"1D", "5A", "2J", "1L", "3E", "1I"};
  ncol col[3 * MAXC];
  int ord[MAXC];
  if (n < 0) mc_fail("harness: columns of %s", tname[tab]);
  for (int i = 0, o = 0; i < n; i++)
  {
    switch (l->order)
    {
    case 1: ord[i] = n - 1 - i; break;
    case 2: ord[i] = (i + n - 1) % n; break;
    case 3: ord[i] = (i + 1) % n; break;
    case 4:
      ord[i] = o;
      o = o + 2 < n ? o + 2 : o % 2 ? 0 : 1;
      break;
    default: ord[i] = i;
    }
  }
  memset(col, 0, sizeof(col));
#define EXTRA(k) (strcpy(col[m].form, EX[(k) % 6]), col[m].src = -1, m++)
  for (int i = 0; i < n; i++)
  {
    if ((i == 0 && l->extra == 1) || l->extra == 5 || l->extra == 7) EXTRA(i);
    if (l->extra == 4 && i == 1) strcpy(col[m].form, "1PD(4)"), col[m].src = -1, m++;
    if (l->extra == 6 && i == 1) strcpy(col[m].form, "0A"), col[m].src = -1, m++;
    col[m].src = ord[i];
    formats(s, &c[ord[i]], l->fmt[ord[i]], &col[m].f);
    m++;
    if (i == 1 && l->extra == 2) EXTRA(i), EXTRA(i + 1);
  }
  if (l->extra == 3 || l->extra == 5) EXTRA(2);
  long width = 0;
  for (int i = 0; i < m; i++)
  {
    ncol *q = &col[i];
    if (q->src < 0)
    {
      int rep = atoi(q->form);
      q->width = q->form[1] == 'P' ? 8 : rep * esize(q->form[1]);
    }
    else
    {
      q->width = q->f.rep * esize(q->f.type);
      if (q->f.rep == 1 && l->form1) sprintf(q->form, l->form1 == 1 ? "%c" : "01%c", q->f.type);
      else if (q->f.type == 'A' && l->form1 == 1) sprintf(q->form, "%dA%d", q->f.rep, q->f.rep);
      else sprintf(q->form, "%d%c", q->f.rep, q->f.type);
    }
    width += q->width;
  }
  /* the data */
  long heap = l->heap ? 500 : 0, hused = l->extra == 4 ? 4 * 8 * rows : 0;
  rf_hdu h;
  memset(&h, 0, sizeof(h));
  size_t bytes = width * rows + heap + hused;
  h.ndata = (bytes + 2879) / 2880 * 2880;
  h.data = xalloc(h.ndata);
  if (h.ndata) memset(h.data, 0, h.ndata);
  if (heap) memset(h.data + width * rows, 0x5a, heap);
  for (long r = 0; r < rows; r++)
  {
    unsigned char *p = h.data + r * width;
    for (int i = 0; i < m; i++)
    {
      ncol *q = &col[i];
      if (q->src >= 0) convert(p, &q->f, rf_cell(s, &c[q->src], r), &c[q->src]);
      else if (q->form[1] == 'P')
      {
        rf_putnum(p, 'J', 0, r % 5);
        rf_putnum(p, 'J', 1, heap + r * 32);
        for (int k = 0; k < 4; k++) rf_putnum(h.data + width * rows + heap + r * 32, 'D', k, 7 + k);
      }
      else memset(p, q->form[1] == 'A' ? 'y' : q->form[1] == 'L' ? 'T' : 0x41, q->width);
      p += q->width;
    }
  }
  /* the header */
  char key[20], b[100];
  rf_card(&h, -1, "XTENSION= 'BINTABLE'           / binary table extension");
  rf_setint(&h, "BITPIX", 8);
  rf_setint(&h, "NAXIS", 2);
  rf_setint(&h, "NAXIS1", width);
  rf_setint(&h, "NAXIS2", rows);
  rf_setint(&h, "PCOUNT", heap + hused);
  rf_setint(&h, "GCOUNT", 1);
  rf_setint(&h, "TFIELDS", m);
  for (int pass = 0; pass < 2; pass++)
  {
    if (pass == (l->keys == 4))
    {
      for (int i = 0; i < s->ncard; i++)
      {
        const char *k = s->card[l->keys == 1 ? s->ncard - 1 - i : i];
        if (is_structural(k)) continue;
        if (!strncmp(k, "EXTVER  ", 8) && l->extver)
        {
          if (l->extver > 1) rf_setint(&h, "EXTVER", l->extver == 2 ? 77 : 1);
          continue;
        }
        if (!strncmp(k, "EXTNAME ", 8) && l->extname)
        {
          snprintf(b, sizeof(b), l->extname == 1 ? "EXTNAME = '%s'" : "EXTNAME = '%-40s' / name", tname[tab]);
          rf_card(&h, -1, b);
          continue;
        }
        respell(k, l->spell, b);
        rf_card(&h, -1, b);
        if (l->keys == 2) padding(&h, i);
      }
      if (l->keys == 3)
        for (int i = 0; i < 120; i++)
          snprintf(b, sizeof(b), "KEY%-5d= %20d", i, i), rf_card(&h, -1, b);
      if (l->empty)
      {
        char all[80];
        strcpy(all, optkeys[tab]);
        for (char *k = strtok(all, " "); k; k = strtok(NULL, " "))
          if (rf_find(&h, k) < 0)
          {
            if (l->empty == 3) snprintf(b, sizeof(b), "%-8s=%*s/ unknown", k, 20, "");
            else if (strstr(k, "ORDER") || !strcmp(k, "FOV")) continue;
            else snprintf(b, sizeof(b), "%-8s= '%s'", k, l->empty == 1 ? "" : "        ");
            rf_card(&h, -1, b);
          }
      }
    }
    else
      for (int i = 0; i < m; i++)
      {
        const ncol *q = &col[i];
        const rf_col *o = q->src >= 0 ? &c[q->src] : NULL;
        if (o)
          for (int k = 0; o->name[k] || (b[k] = 0); k++)
            b[k] = l->kase == 1 || (l->kase == 2 && k % 2) ? g_ascii_tolower(o->name[k]) : o->name[k];
        else if (l->extra == 7) nearly(c, n, c[col[i + 1].src].name, i / 2, b);
        else snprintf(b, sizeof(b), "EXTRA_%d", i);
        sprintf(key, "TTYPE%d", i + 1), rf_setstr(&h, key, b);
        sprintf(key, "TFORM%d", i + 1), rf_setstr(&h, key, q->form);
        bool must = o && (!strcmp(o->name, "FLUXDATA") || !strcmp(o->name, "RVIS") ||
                          (!strcmp(o->name, "VISAMP") && o->unit[0]));
        sprintf(key, "TUNIT%d", i + 1);
        if (must || (o && o->unit[0] && l->unit != 1)) rf_setstr(&h, key, o->unit);
        else if (l->unit == 2 && (!o || strcmp(o->name, "VISAMP"))) rf_setstr(&h, key, "furlong");
        else if (l->unit == 3) snprintf(b, sizeof(b), "%-8s=", key), rf_card(&h, -1, b);
        sprintf(key, "TDIM%d", i + 1);
        if (o && o->dim[0]) rf_setstr(&h, key, o->dim);
        else if (o && l->dim && q->f.type != 'A')
        {
          snprintf(b, sizeof(b), l->dim == 1 ? "(%d)" : "(1,%d)", q->f.rep);
          rf_setstr(&h, key, b);
        }
        if (l->disp && (!o || q->f.type != 'A'))
        {
          sprintf(key, "TDISP%d", i + 1);
          char t = o ? q->f.type : q->form[1];
          rf_setstr(&h, key, t == 'A' ? "A4" : t == 'L' ? "L1" : strchr("DECM", t) ? "F6.1" : "I3");
        }
        if (o && l->null && strchr("BIJK", q->f.type))
        {
          sprintf(key, "TNULL%d", i + 1);
          rf_setint(&h, key, q->f.type == 'B' ? 254 : -9999);
        }
        if (o && (q->f.scale != 1 || q->f.pad == 2)) sprintf(key, "TSCAL%d", i + 1), rf_setexact(&h, key, q->f.scale);
        if (o && (q->f.zero != 0 || q->f.pad == 2)) sprintf(key, "TZERO%d", i + 1), rf_setdbl(&h, key, q->f.zero);
      }
  }
  if (l->seal == 0) rf_seal(&h);
  if (l->seal == 2)
  {
    rf_seal(&h);
    rf_del(&h, "CHECKSUM");
  }
  if (l->seal == 3) rf_sealhdu(&h);
  return h;
}

static oi_fits *want[2];
static rf_file *file[2];
static void setup(int v)
{
  if (want[v]) return;
  oi_fits *oi = base(v);
  const char *fn = mc_path("base.fits");
  int st = 0;
  unlink(fn);
  if (write_oi_fits(fn, *oi, &st)) mc_fail("write failed");
  file[v] = rf_read(fn);
  unlink(fn);
  ds_as_written(oi);
  want[v] = oi;
  ds_keep(oi);
}

static void judge(const rf_file *f, const oi_fits *w)
{
  const char *fn = mc_path("o.fits");
  oi_fits got;
  int st = 0;
  rf_write(f, fn);
  memset(&got, 0x5a, sizeof(got));
  mc_cap_begin();
  int r = read_oi_fits(fn, &got, &st);
  char *txt = mc_cap_end();
  MC_CHECK(r == 0 && st == 0, "file not read, status %d/%d: %s", r, st, txt);
  MC_CHECK(!strstr(txt, "Skipping"), "table skipped: %s", txt);
  MC_CHECK(!strstr(txt, "checksum"), "complaint about checksums: %s", txt);
  free(txt);
  ds_expect(w, &got, SER_KW15 | SER_NODATE, "file of another writer");
  ds_container(&got, "file of another writer");
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);
  unlink(fn);
}

static void swap_hdu(rf_file *f, int i, rf_hdu h)
{
  rf_delhdu(f, i);
  rf_inshdu(f, i, h);
}

/* one table laid out in another way: deviations from what the library does */
static void c23_table(void)
{
  int tab = mc_pick(NTAB, "table"), v = mc_pick(2, "dataset");
  setup(v);
  layout l;
  memset(&l, 0, sizeof(l));
  int i = rf_nth(file[v], tname[tab], v);
  if (i < 0) i = rf_nth(file[v], tname[tab], 0);
  const rf_hdu *h = &file[v]->h[i];
  rf_col c[MAXC];
  int n = rf_cols(h, c, MAXC);
  l.order = mc_dev(5, "order of columns");
  l.kase = mc_dev(3, "case of column names");
  l.extra = mc_dev(8, "further columns");
  l.disp = mc_dev(2, "TDISP");
  l.null = mc_dev(2, "TNULL");
  l.dim = mc_dev(3, "TDIM");
  l.unit = mc_dev(4, "units");
  l.form1 = mc_dev(3, "spelling of TFORM");
  l.keys = mc_dev(5, "order of keywords");
  l.spell = mc_dev(5, "spelling of values");
  l.extver = mc_dev(4, "EXTVER");
  l.seal = mc_dev(4, "checksums");
  l.empty = mc_dev(4, "optional keywords");
  l.heap = mc_dev(2, "unused bytes");
  l.extname = mc_dev(3, "EXTNAME");
  for (int k = 0; k < n; k++)
    l.fmt[k] = mc_dev(formats(h, &c[k], -1, NULL), c[k].name);
  mc_mine();
  rf_file *f = rf_clone(file[v]);
  swap_hdu(f, i, rebuild(h, &l, tab));
  judge(f, want[v]);
  rf_free(f);
}

/* every table laid out in the same way: all combinations of the options */
static void c23_file(void)
{
  layout l;
  memset(&l, 0, sizeof(l));
  int v = mc_pick(2, "dataset");
  static const int od[] = {0, 1, 4, 2, 3};
  l.order = od[mc_pick(mc_thorough ? 5 : 3, "order of columns")];
  l.kase = mc_pick(2, "case of column names");
  int fmt = mc_pick(6, "column formats");
  static const int ex[] = {0, 2, 4, 5};
  l.extra = ex[mc_pick(4, "further columns")];
  l.keys = mc_pick(3, "order of keywords");
  l.spell = mc_pick(mc_thorough ? 5 : 2, "spelling of values") * (mc_thorough ? 1 : 2);
  l.seal = mc_pick(2, "checksums");
  l.extver = mc_pick(2, "EXTVER");
  int misc = mc_pick(mc_thorough ? 3 : 2, "other cards");
  l.disp = misc > 0, l.null = misc > 0, l.dim = misc, l.unit = misc, l.form1 = misc, l.empty = misc == 1 ? 3 : misc;
  int hdus = mc_pick(2, "order of tables");
  mc_mine();
  setup(v);
  rf_file *f = rf_clone(file[v]);
  for (int i = 1; i < f->nhdu; i++)
  {
    int tab = 0;
    while (tab < NTAB && strcmp(tname[tab], rf_extname(&f->h[i]))) tab++;
    if (tab == NTAB) mc_fail("harness: HDU");
    rf_col c[MAXC];
    int n = rf_cols(&f->h[i], c, MAXC);
    for (int k = 0; k < n; k++)
    {
      int nf = formats(&f->h[i], &c[k], -1, NULL);
      l.fmt[k] = fmt < 5 ? (fmt < nf ? fmt : nf - 1) : (k + 1) % nf;
    }
    swap_hdu(f, i, rebuild(&f->h[i], &l, tab));
  }
  if (hdus)
    /* the last type first; each type in its own order */
    for (int t = 0; t < NTAB; t++)
      for (int k = 0, i; (i = rf_nth(f, tname[t], 0)) >= 0 && k < 10; k++)
      {
        int at = 1 + k;
        rf_hdu h = f->h[rf_nth(f, tname[t], k) >= 0 ? rf_nth(f, tname[t], k) : 0];
        if (rf_nth(f, tname[t], k) < 0) break;
        i = rf_nth(f, tname[t], k);
        memmove(&f->h[at + 1], &f->h[at], (i - at) * sizeof(rf_hdu));
        f->h[at] = h;
      }
  judge(f, want[v]);
  rf_free(f);
}

/* the primary header */
static void c23_primary(void)
{
  int image = mc_dev(5, "image"), keys = mc_dev(5, "order of keywords"), spell = mc_dev(5, "spelling of values"),
      seal = mc_dev(4, "checksums"), blank = mc_dev(4, "optional keywords"), first = mc_dev(4, "first extension"),
      extend = mc_dev(3, "EXTEND"), gone = mc_dev(8, "keyword left out");
  static const char *const OPT[] = {"REFERENC", "AUTHOR", "PROG_ID", "PROCSOFT", "OBSTECH", "DATE", "DATE-OBS"};
  mc_mine();
  setup(0);
  oi_fits *w = ds_clone(want[0]);
  rf_file *f = rf_clone(file[0]);
  rf_hdu *s = &f->h[0], h;
  memset(&h, 0, sizeof(h));
  char b[100];
  rf_card(&h, -1, "SIMPLE  =                    T / FITS");
  rf_setint(&h, "BITPIX", image == 1 ? 8 : image == 2 ? -64 : image == 3 ? 16 : 8);
  if (image == 0) rf_setint(&h, "NAXIS", 0);
  else if (image == 4) rf_setint(&h, "NAXIS", 1), rf_setint(&h, "NAXIS1", 0);
  else
  {
    rf_setint(&h, "NAXIS", image);
    for (int i = 0; i < image; i++) sprintf(b, "NAXIS%d", i + 1), rf_setint(&h, b, 11 + i);
    long n = image == 1 ? 11 : image == 2 ? 8 * 11 * 12 : 2 * 11 * 12 * 13;
    h.ndata = (n + 2879) / 2880 * 2880;
    h.data = xalloc(h.ndata);
    memset(h.data, 0, h.ndata);
    memset(h.data, 'x', n);
  }
  if (extend == 0) rf_card(&h, -1, "EXTEND  =                    T");
  if (extend == 2) rf_card(&h, -1, "EXTEND  = T");
  for (int i = 0; i < s->ncard; i++)
  {
    const char *k = s->card[keys == 1 ? s->ncard - 1 - i : i];
    static const char *const S[] = {"SIMPLE  ", "BITPIX  ", "NAXIS   ", "EXTEND  ", "CHECKSUM", "DATASUM "};
    bool skip = false;
    for (int j = 0; j < 6; j++)
      if (!strncmp(k, S[j], 8)) skip = true;
    if (gone)
    {
      snprintf(b, sizeof(b), "%-8s", OPT[gone - 1]);
      if (!strncmp(k, b, 8)) skip = true;
    }
    if (skip || (keys == 4 && (!strncmp(k, "COMMENT ", 8)))) continue;
    respell(k, spell, b);
    rf_card(&h, -1, b);
    if (keys == 2) padding(&h, i);
  }
  if (keys == 3)
    for (int i = 0; i < 120; i++) snprintf(b, sizeof(b), "KEY%-5d= %20d", i, i), rf_card(&h, -1, b);
  oi_header *q = &w->header;
  char *const field[] = {q->referenc, q->author, q->prog_id, q->procsoft, q->obstech, q->date, q->date_obs};
  if (gone) field[gone - 1][0] = 0;
  if (blank)
    for (int i = 0; i < 5; i++)
    {
      rf_del(&h, OPT[i]);
      if (blank == 3) snprintf(b, sizeof(b), "%-8s=", OPT[i]);
      else snprintf(b, sizeof(b), "%-8s= '%s'", OPT[i], blank == 1 ? "" : "     ");
      rf_card(&h, -1, b);
      field[i][0] = 0;
    }
  if (seal == 0) rf_seal(&h);
  if (seal == 2) rf_seal(&h), rf_del(&h, "CHECKSUM");
  if (seal == 3) rf_sealhdu(&h);
  swap_hdu(f, 0, h);
  if (first)
  {
    rf_hdu x = first == 2 ? rf_table(NULL) : rf_table(first == 1 ? "PIPELINE" : "OI_TARGETS");
    rf_setstr(&x, "OBJECT", "WRONG");
    rf_setstr(&x, "CONTENT", "WRONG");
    rf_addcol(&x, "TARGET", "1D", NULL);
    rf_addrows(&x, 3);
    rf_seal(&x);
    rf_inshdu(f, 1, x);
  }
  if (first == 2)
  {
    /* said so */
    const char *fn = mc_path("o.fits");
    oi_fits got;
    int st = 0;
    rf_write(f, fn);
    mc_cap_begin();
    read_oi_fits(fn, &got, &st);
    free(mc_cap_end());
    MC_CHECK(st == 0, "file with an extension that has no name is not read (%d)", st);
    ds_expect(w, &got, SER_KW15 | SER_NODATE, "extension without a name");
    free_oi_fits(&got);
    unlink(fn);
  }
  else judge(f, w);
  rf_free(f);
}

const mc_scope scopes_other[] = {
    {"C23", "table", c23_table, 2, 3, 0,
     "each table of two files laid out as another writer may: order, case, numeric and text formats of every column, further columns, other keywords, spellings and checksums; all that differ from the library's own layout in up to two (thorough: three) places"},
    {"C23", "file", c23_file, 0, 0, 0,
     "all tables laid out alike: all combinations of ten options"},
    {"C23", "primary", c23_primary, 2, 3, 0,
     "primary headers: image data, order and spelling of keywords, optional keywords blank or left out, checksums, first extension; up to two (thorough: three) differences"},
    {0}};
