#include "rf.h"
#include <ctype.h>

static char errbuf[300];
#define BAD(...) return snprintf(errbuf, sizeof(errbuf), __VA_ARGS__), errbuf

/* ---------------------------------------------------------------- parsing */
static void keyof(const char *card, char *key)
{
  int i;
  for (i = 0; i < 8 && card[i] != ' '; i++) key[i] = card[i];
  key[i] = 0;
}

int rf_find(const rf_hdu *h, const char *key)
{
  char k[9];
  for (int i = 0; i < h->ncard; i++)
  {
    keyof(h->card[i], k);
    if (!strcmp(k, key)) return i;
  }
  return -1;
}

int rf_count(const rf_hdu *h, const char *key)
{
  char k[9];
  int n = 0;
  for (int i = 0; i < h->ncard; i++)
  {
    keyof(h->card[i], k);
    if (!strcmp(k, key)) n++;
  }
  return n;
}

int rf_str(const rf_hdu *h, const char *key, char *out, size_t cap)
{
  int i = rf_find(h, key);
  if (i < 0) return 0;
  const char *c = h->card[i];
  if (c[8] != '=' || c[9] != ' ') return -1;
  const char *p = c + 10;
  while (p < c + 80 && *p == ' ') p++;
  if (p == c + 80 || *p != '\'') return -1;
  p++;
  size_t n = 0;
  char buf[81];
  for (;; p++)
  {
    if (p >= c + 80) return -1;
    if (*p == '\'')
    {
      if (p + 1 < c + 80 && p[1] == '\'') p++;
      else break;
    }
    buf[n++] = *p;
  }
  while (n > 0 && buf[n - 1] == ' ') n--;
  buf[n] = 0;
  if (n >= cap) n = cap - 1;
  memcpy(out, buf, n);
  out[n] = 0;
  return 1;
}

static int rawval(const rf_hdu *h, const char *key, char *out)
{
  int i = rf_find(h, key);
  if (i < 0) return 0;
  const char *c = h->card[i];
  if (c[8] != '=' || c[9] != ' ') return -1;
  int n = 0;
  for (int k = 10; k < 80 && c[k] != '/'; k++) out[n++] = c[k];
  while (n > 0 && out[n - 1] == ' ') n--;
  out[n] = 0;
  int s = strspn(out, " ");
  memmove(out, out + s, n - s + 1);
  return 1;
}

int rf_int(const rf_hdu *h, const char *key, long *out)
{
  char b[81], *e;
  int r = rawval(h, key, b);
  if (r != 1) return r;
  *out = strtol(b, &e, 10);
  return b[0] && !*e ? 1 : -1;
}

int rf_dbl(const rf_hdu *h, const char *key, double *out)
{
  char b[81], *e;
  int r = rawval(h, key, b);
  if (r != 1) return r;
  for (char *p = b; *p; p++)
    if (*p == 'D') *p = 'E';
  *out = strtod(b, &e);
  return b[0] && !*e ? 1 : -1;
}

const char *rf_extname(const rf_hdu *h)
{
  static char b[81];
  if (rf_str(h, "EXTNAME", b, sizeof(b)) != 1) b[0] = 0;
  return b;
}

int rf_nth(const rf_file *f, const char *extname, int n)
{
  for (int i = 1; i < f->nhdu; i++)
    if (!strcmp(rf_extname(&f->h[i]), extname) && n-- == 0) return i;
  return -1;
}

const char *rf_parse(const char *b, size_t n, rf_file *f)
{
  size_t pos = 0;
  f->nhdu = 0;
  f->h = NULL;
  if (n == 0 || n % 2880) BAD("file length %zu is not a multiple of 2880", n);
  while (pos < n)
  {
    f->h = realloc(f->h, (f->nhdu + 1) * sizeof(rf_hdu));
    rf_hdu *h = &f->h[f->nhdu++];
    memset(h, 0, sizeof(*h));
    h->start = pos;
    size_t p = pos;
    for (;; p += 80)
    {
      if (p + 80 > n) BAD("HDU %d: no END card", f->nhdu);
      const char *c = b + p;
      for (int i = 0; i < 80; i++)
        if (c[i] < 32 || c[i] > 126)
          BAD("HDU %d: card %d holds byte 0x%02x", f->nhdu, h->ncard + 1,
              (unsigned char)c[i]);
      if (!strncmp(c, "END ", 4))
      {
        for (int i = 3; i < 80; i++)
          if (c[i] != ' ') BAD("HDU %d: END card not blank", f->nhdu);
        break;
      }
      if (h->ncard % 32 == 0)
        h->card = realloc(h->card, (h->ncard + 32) * 81);
      memcpy(h->card[h->ncard], c, 80);
      h->card[h->ncard++][80] = 0;
    }
    p += 80;
    while (p % 2880)
    {
      if (b[p] != ' ') BAD("HDU %d: header not padded with blanks", f->nhdu);
      p++;
    }
    h->dstart = p;
    /* mandatory keywords, in order */
    char s[81];
    long bitpix, naxis, v, pcount = 0, gcount = 1;
    if (f->nhdu == 1)
    {
      if (h->ncard < 3 || strncmp(h->card[0], "SIMPLE  =", 9) ||
          rawval(h, "SIMPLE", s) != 1 || strcmp(s, "T"))
        BAD("primary header does not start with SIMPLE = T");
    }
    else if (strncmp(h->card[0], "XTENSION=", 9))
      BAD("HDU %d does not start with XTENSION", f->nhdu);
    if (strncmp(h->card[1], "BITPIX  =", 9) ||
        rf_int(h, "BITPIX", &bitpix) != 1 ||
        strncmp(h->card[2], "NAXIS   =", 9) || rf_int(h, "NAXIS", &naxis) != 1)
      BAD("HDU %d: BITPIX/NAXIS", f->nhdu);
    size_t size = naxis > 0;
    for (int i = 1; i <= naxis; i++)
    {
      char key[20];
      snprintf(key, sizeof(key), "NAXIS%d", i);
      if (rf_find(h, key) != 2 + i || rf_int(h, key, &v) != 1 || v < 0)
        BAD("HDU %d: %s", f->nhdu, key);
      size *= v;
    }
    if (f->nhdu > 1)
    {
      if (rf_find(h, "PCOUNT") != 3 + naxis ||
          rf_int(h, "PCOUNT", &pcount) != 1 ||
          rf_find(h, "GCOUNT") != 4 + naxis ||
          rf_int(h, "GCOUNT", &gcount) != 1)
        BAD("HDU %d: PCOUNT/GCOUNT", f->nhdu);
    }
    size = labs(bitpix) / 8 * gcount * (pcount + size);
    if (naxis == 0) size = 0;
    size_t pad = (size + 2879) / 2880 * 2880;
    if (p + pad > n) BAD("HDU %d: data cut short", f->nhdu);
    for (size_t i = size; i < pad; i++)
      if (b[p + i]) BAD("HDU %d: data padded with non-zero bytes", f->nhdu);
    h->ndata = pad;
    h->data = xdup(b + p, pad);
    pos = p + pad;
  }
  return NULL;
}

rf_file *rf_read(const char *path)
{
  size_t n;
  char *b = slurp(path, &n);
  MC_CHECK(b != NULL, "cannot read %s", path);
  rf_file *f = xalloc(sizeof(*f));
  const char *e = rf_parse(b, n, f);
  free(b);
  if (e) mc_fail("file written is not sound FITS: %s", e);
  return f;
}

void rf_done(rf_file *f)
{
  for (int i = 0; i < f->nhdu; i++)
  {
    free(f->h[i].card);
    free(f->h[i].data);
  }
  free(f->h);
}

void rf_free(rf_file *f)
{
  rf_done(f);
  free(f);
}

rf_hdu rf_hclone(const rf_hdu *h)
{
  rf_hdu r = *h;
  r.card = malloc((h->ncard / 32 + 1) * 32 * 81);
  memcpy(r.card, h->card, h->ncard * 81);
  r.data = xdup(h->data, h->ndata);
  return r;
}

rf_file *rf_clone(const rf_file *f)
{
  rf_file *r = malloc(sizeof(*r));
  r->nhdu = f->nhdu;
  r->h = malloc((f->nhdu + 1) * sizeof(rf_hdu));
  for (int i = 0; i < f->nhdu; i++) r->h[i] = rf_hclone(&f->h[i]);
  return r;
}

char *rf_emit(const rf_file *f, size_t *n)
{
  size_t tot = 0;
  for (int i = 0; i < f->nhdu; i++)
    tot += ((size_t)(f->h[i].ncard + 1) * 80 + 2879) / 2880 * 2880 +
           f->h[i].ndata;
  char *b = malloc(tot + 1), *p = b;
  memset(b, ' ', tot);
  for (int i = 0; i < f->nhdu; i++)
  {
    const rf_hdu *h = &f->h[i];
    for (int k = 0; k < h->ncard; k++) memcpy(p + k * 80, h->card[k], 80);
    memcpy(p + h->ncard * 80, "END", 3);
    p += ((size_t)(h->ncard + 1) * 80 + 2879) / 2880 * 2880;
    if (h->ndata) memcpy(p, h->data, h->ndata);
    p += h->ndata;
  }
  *n = tot;
  return b;
}

void rf_write(const rf_file *f, const char *path)
{
  size_t n;
  char *b = rf_emit(f, &n);
  spew(path, b, n);
  free(b);
}

/* ---------------------------------------------------------------- editing */
void rf_card(rf_hdu *h, int at, const char *card)
{
  if (at < 0) at = h->ncard;
  if (h->ncard % 32 == 0) h->card = realloc(h->card, (h->ncard + 32) * 81);
  memmove(h->card[at + 1], h->card[at], (h->ncard - at) * 81);
  memset(h->card[at], ' ', 80);
  memcpy(h->card[at], card, strlen(card) < 80 ? strlen(card) : 80);
  h->card[at][80] = 0;
  h->ncard++;
}

void rf_delcard(rf_hdu *h, int i)
{
  memmove(h->card[i], h->card[i + 1], (h->ncard - i - 1) * 81);
  h->ncard--;
}

void rf_del(rf_hdu *h, const char *key)
{
  int i;
  while ((i = rf_find(h, key)) >= 0) rf_delcard(h, i);
}

static void setraw(rf_hdu *h, const char *key, const char *val)
{
  char c[200];
  snprintf(c, sizeof(c), "%-8s= %s", key, val);
  int i = rf_find(h, key);
  if (i >= 0) rf_delcard(h, i);
  rf_card(h, i, c);
}

void rf_setstr(rf_hdu *h, const char *key, const char *val)
{
  char v[200];
  size_t n = 0;
  v[n++] = '\'';
  for (const char *p = val; *p; p++)
  {
    if (*p == '\'') v[n++] = '\'';
    v[n++] = *p;
  }
  while (n < 9) v[n++] = ' ';
  v[n++] = '\'';
  v[n] = 0;
  setraw(h, key, v);
}

void rf_setint(rf_hdu *h, const char *key, long val)
{
  char v[40];
  snprintf(v, sizeof(v), "%20ld", val);
  setraw(h, key, v);
}

void rf_setdbl(rf_hdu *h, const char *key, double val)
{
  char v[60];
  snprintf(v, sizeof(v), "%20.15G", val);
  if (!strpbrk(v, ".EN")) strcat(v, ".");
  setraw(h, key, v);
}

void rf_setexact(rf_hdu *h, const char *key, double val)
{
  char v[60];
  snprintf(v, sizeof(v), "%25.17G", val);
  if (!strpbrk(v, ".EN")) strcat(v, ".");
  setraw(h, key, v);
}

void rf_delhdu(rf_file *f, int i)
{
  free(f->h[i].card);
  free(f->h[i].data);
  memmove(&f->h[i], &f->h[i + 1], (f->nhdu - i - 1) * sizeof(rf_hdu));
  f->nhdu--;
}

void rf_inshdu(rf_file *f, int at, rf_hdu h)
{
  f->h = realloc(f->h, (f->nhdu + 1) * sizeof(rf_hdu));
  if (at < 0) at = f->nhdu;
  memmove(&f->h[at + 1], &f->h[at], (f->nhdu - at) * sizeof(rf_hdu));
  f->h[at] = h;
  f->nhdu++;
}

rf_hdu rf_primary(void)
{
  rf_hdu h;
  memset(&h, 0, sizeof(h));
  setraw(&h, "SIMPLE", "                   T");
  rf_setint(&h, "BITPIX", 8);
  rf_setint(&h, "NAXIS", 0);
  setraw(&h, "EXTEND", "                   T");
  return h;
}

rf_hdu rf_table(const char *extname)
{
  rf_hdu h;
  memset(&h, 0, sizeof(h));
  setraw(&h, "XTENSION", "'BINTABLE'");
  rf_setint(&h, "BITPIX", 8);
  rf_setint(&h, "NAXIS", 2);
  rf_setint(&h, "NAXIS1", 0);
  rf_setint(&h, "NAXIS2", 0);
  rf_setint(&h, "PCOUNT", 0);
  rf_setint(&h, "GCOUNT", 1);
  rf_setint(&h, "TFIELDS", 0);
  if (extname) rf_setstr(&h, "EXTNAME", extname);
  return h;
}

static int elsize(char t)
{
  switch (t)
  {
  case 'L':
  case 'A':
  case 'B':
    return 1;
  case 'I':
    return 2;
  case 'J':
  case 'E':
    return 4;
  case 'D':
  case 'C':
  case 'K':
    return 8;
  case 'M':
    return 16;
  }
  return 0;
}

int rf_cols(const rf_hdu *h, rf_col *out, int max)
{
  long n;
  char key[20], s[81];
  size_t off = 0;
  if (rf_int(h, "TFIELDS", &n) != 1 || n > max) return -1;
  for (int i = 0; i < n; i++)
  {
    rf_col *c = &out[i];
    memset(c, 0, sizeof(*c));
    c->num = i + 1;
    snprintf(key, sizeof(key), "TTYPE%d", i + 1);
    rf_str(h, key, c->name, sizeof(c->name));
    snprintf(key, sizeof(key), "TUNIT%d", i + 1);
    rf_str(h, key, c->unit, sizeof(c->unit));
    snprintf(key, sizeof(key), "TDIM%d", i + 1);
    rf_str(h, key, c->dim, sizeof(c->dim));
    snprintf(key, sizeof(key), "TFORM%d", i + 1);
    if (rf_str(h, key, s, sizeof(s)) != 1) return -1;
    char *e;
    c->repeat = strtol(s, &e, 10);
    if (e == s) c->repeat = 1;
    c->type = *e;
    if (!elsize(c->type) || e[1]) return -1;
    c->off = off;
    c->width = (size_t)c->repeat * elsize(c->type);
    off += c->width;
  }
  return n;
}

int rf_colnum(const rf_hdu *h, const char *name, rf_col *out)
{
  static rf_col c[100];
  int n = rf_cols(h, c, 100);
  for (int i = 0; i < n; i++)
    if (!strcmp(c[i].name, name))
    {
      if (out) *out = c[i];
      return i + 1;
    }
  return 0;
}

long rf_rows(const rf_hdu *h)
{
  long n = -1;
  return rf_int(h, "NAXIS2", &n) == 1 ? n : -1;
}

static long rowlen(const rf_hdu *h)
{
  long n = 0;
  return rf_int(h, "NAXIS1", &n) == 1 ? n : -1;
}

unsigned char *rf_cell(const rf_hdu *h, const rf_col *c, long row)
{
  return h->data + row * rowlen(h) + c->off;
}

static void resize(rf_hdu *h, long newlen, long newrows, long keep, long gap,
                   long drop)
{
  /* each row: keep bytes [0,keep), insert gap zero bytes or drop bytes */
  long len = rowlen(h), rows = rf_rows(h);
  size_t n = ((size_t)newlen * newrows + 2879) / 2880 * 2880;
  unsigned char *d = xalloc(n);
  if (n) memset(d, 0, n);
  for (long r = 0; r < rows && r < newrows; r++)
  {
    memcpy(d + r * newlen, h->data + r * len, keep);
    memcpy(d + r * newlen + keep + gap, h->data + r * len + keep + drop,
           len - keep - drop);
  }
  free(h->data);
  h->data = d;
  h->ndata = n;
  rf_setint(h, "NAXIS1", newlen);
  rf_setint(h, "NAXIS2", newrows);
}

void rf_addcol(rf_hdu *h, const char *name, const char *form, const char *unit)
{
  long n;
  char key[20], *e;
  rf_int(h, "TFIELDS", &n);
  n++;
  rf_setint(h, "TFIELDS", n);
  snprintf(key, sizeof(key), "TTYPE%ld", n);
  rf_setstr(h, key, name);
  snprintf(key, sizeof(key), "TFORM%ld", n);
  rf_setstr(h, key, form);
  if (unit)
  {
    snprintf(key, sizeof(key), "TUNIT%ld", n);
    rf_setstr(h, key, unit);
  }
  long rep = strtol(form, &e, 10);
  if (e == form) rep = 1;
  long w = rep * elsize(*e), len = rowlen(h);
  resize(h, len + w, rf_rows(h), len, w, 0);
}

void rf_addrows(rf_hdu *h, long n)
{
  resize(h, rowlen(h), rf_rows(h) + n, rowlen(h), 0, 0);
}

void rf_delcol(rf_hdu *h, int num)
{
  rf_col c[100];
  int n = rf_cols(h, c, 100);
  static const char *const K[] = {"TTYPE", "TFORM", "TUNIT", "TDIM", "TNULL",
                                  "TDISP", NULL};
  long len = rowlen(h);
  resize(h, len - c[num - 1].width, rf_rows(h), c[num - 1].off, 0,
         c[num - 1].width);
  for (int k = 0; K[k]; k++)
  {
    char a[20];
    snprintf(a, sizeof(a), "%s%d", K[k], num);
    rf_del(h, a);
    for (int i = num + 1; i <= n; i++)
    {
      char b[20];
      snprintf(a, sizeof(a), "%s%d", K[k], i);
      snprintf(b, sizeof(b), "%-8s", "");
      int at = rf_find(h, a);
      if (at < 0) continue;
      snprintf(b, sizeof(b), "%s%d", K[k], i - 1);
      memset(h->card[at], ' ', 8);
      memcpy(h->card[at], b, strlen(b));
    }
  }
  rf_setint(h, "TFIELDS", n - 1);
}

/* ----------------------------------------------------------------- values */
static uint64_t be(const unsigned char *p, int n)
{
  uint64_t v = 0;
  while (n--) v = v << 8 | *p++;
  return v;
}

double rf_num(const unsigned char *cell, char type, int elem)
{
  uint64_t v;
  uint32_t u;
  float f;
  double d;
  switch (type)
  {
  case 'L':
    return cell[elem] == 'T' ? 1 : cell[elem] == 'F' ? 0 : -1;
  case 'I':
    return (int16_t)be(cell + elem * 2, 2);
  case 'J':
    return (int32_t)be(cell + elem * 4, 4);
  case 'E':
  case 'C':
    u = be(cell + elem * 4, 4);
    memcpy(&f, &u, 4);
    return f;
  default:
    v = be(cell + elem * 8, 8);
    memcpy(&d, &v, 8);
    return d;
  }
}

void rf_putnum(unsigned char *cell, char type, int elem, double v)
{
  uint64_t w = 0;
  uint32_t u;
  float f = v;
  int n;
  switch (type)
  {
  case 'L':
    cell[elem] = v ? 'T' : 'F';
    return;
  case 'I':
    w = (uint16_t)(int16_t)v;
    n = 2;
    break;
  case 'J':
    w = (uint32_t)(int32_t)v;
    n = 4;
    break;
  case 'E':
  case 'C':
    memcpy(&u, &f, 4);
    w = u;
    n = 4;
    break;
  default:
    memcpy(&w, &v, 8);
    n = 8;
  }
  for (int i = 0; i < n; i++) cell[elem * n + i] = w >> (8 * (n - 1 - i));
}

void rf_puttext(unsigned char *cell, int width, const char *s)
{
  int n = strlen(s);
  if (n > width) n = width;
  memset(cell, ' ', width);
  memcpy(cell, s, n);
}

void rf_text(const unsigned char *cell, int width, char *out)
{
  int n = 0;
  while (n < width && cell[n]) n++;
  memcpy(out, cell, n);
  while (n > 0 && out[n - 1] == ' ') n--;
  out[n] = 0;
}

/* -------------------------------------------------------------- checksums */
static uint32_t sum32(const unsigned char *p, size_t n, uint32_t s)
{
  uint64_t a = s;
  for (size_t i = 0; i + 3 < n; i += 4)
  {
    a += (uint32_t)be(p + i, 4);
    a = (a & 0xffffffffu) + (a >> 32);
  }
  return (a & 0xffffffffu) + (a >> 32);
}

static uint32_t headsum(const rf_hdu *h, uint32_t s)
{
  size_t n = ((size_t)(h->ncard + 1) * 80 + 2879) / 2880 * 2880;
  unsigned char *b = malloc(n);
  memset(b, ' ', n);
  for (int k = 0; k < h->ncard; k++) memcpy(b + k * 80, h->card[k], 80);
  memcpy(b + h->ncard * 80, "END", 3);
  s = sum32(b, n, s);
  free(b);
  return s;
}

bool rf_sums_ok(const rf_hdu *h, const char **what)
{
  char s[81], *e;
  uint32_t d = sum32(h->data, h->ndata, 0);
  *what = "DATASUM missing";
  if (rf_str(h, "DATASUM", s, sizeof(s)) != 1) return false;
  *what = "DATASUM does not match";
  unsigned long v = strtoul(s, &e, 10);
  if (!s[0] || *e || v != d) return false;
  *what = "CHECKSUM missing";
  if (rf_str(h, "CHECKSUM", s, sizeof(s)) != 1 || strlen(s) != 16)
    return false;
  *what = "CHECKSUM does not match";
  uint32_t t = headsum(h, d);
  return t == 0xffffffffu || t == 0;
}

void rf_unseal(rf_hdu *h)
{
  rf_del(h, "CHECKSUM");
  rf_del(h, "DATASUM");
}

static void seal(rf_hdu *h, int both)
{
  char s[40];
  uint32_t d = sum32(h->data, h->ndata, 0);
  rf_setstr(h, "CHECKSUM", "0000000000000000");
  snprintf(s, sizeof(s), "%u", d);
  if (both) rf_setstr(h, "DATASUM", s);
  uint32_t c = ~headsum(h, d);
  /* encode, FITS standard appendix J */
  unsigned char asc[16];
  for (int i = 0; i < 4; i++)
  {
    int byte = (c >> (24 - 8 * i)) & 0xff, q = byte / 4 + '0', r = byte % 4;
    int ch[4] = {q + r, q, q, q};
    for (int again = 1; again;)
    {
      again = 0;
      for (int j = 0; j < 4; j += 2)
        while ((ch[j] >= 0x3a && ch[j] <= 0x40) ||
               (ch[j] >= 0x5b && ch[j] <= 0x60) ||
               (ch[j + 1] >= 0x3a && ch[j + 1] <= 0x40) ||
               (ch[j + 1] >= 0x5b && ch[j + 1] <= 0x60))
          ch[j]++, ch[j + 1]--, again = 1;
    }
    for (int j = 0; j < 4; j++) asc[4 * j + i] = ch[j];
  }
  char *p = h->card[rf_find(h, "CHECKSUM")] + 11;
  for (int i = 0; i < 16; i++) p[i] = asc[(i + 15) % 16];
}

void rf_seal(rf_hdu *h)
{
  seal(h, 1);
}

/* CHECKSUM but no DATASUM */
void rf_sealhdu(rf_hdu *h)
{
  rf_del(h, "DATASUM");
  seal(h, 0);
}
