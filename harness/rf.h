/* Independent reader/writer of the FITS format (no cfitsio). */
#ifndef RF_H
#define RF_H
#include "gen.h"

typedef struct
{
  int ncard;
  char (*card)[81]; /* without END */
  unsigned char *data;
  size_t ndata; /* multiple of 2880 in a sound file */
  size_t start, dstart; /* offsets in the file parsed */
} rf_hdu;
typedef struct
{
  int nhdu;
  rf_hdu *h;
} rf_file;
typedef struct
{
  char name[72], unit[72], dim[72];
  char type; /* A I J E D C L ... */
  int repeat, num;
  size_t off, width;
} rf_col;

/* strict parse; returns NULL or what is wrong (static text) */
const char *rf_parse(const char *b, size_t n, rf_file *f);
rf_file *rf_read(const char *path); /* fails the execution if unsound; freed
                                       by rf_free */
void rf_done(rf_file *f);
void rf_free(rf_file *f);
rf_file *rf_clone(const rf_file *f);
char *rf_emit(const rf_file *f, size_t *n);
void rf_write(const rf_file *f, const char *path);

/* header access; return 0 absent, 1 ok, -1 malformed / other type */
int rf_find(const rf_hdu *h, const char *key); /* card index or -1 */
int rf_count(const rf_hdu *h, const char *key);
int rf_str(const rf_hdu *h, const char *key, char *out, size_t cap);
int rf_int(const rf_hdu *h, const char *key, long *out);
int rf_dbl(const rf_hdu *h, const char *key, double *out);
const char *rf_extname(const rf_hdu *h); /* static; "" if none */
int rf_nth(const rf_file *f, const char *extname, int n); /* HDU index or -1 */

/* header editing */
void rf_card(rf_hdu *h, int at, const char *card); /* insert (-1: append) */
void rf_setstr(rf_hdu *h, const char *key, const char *val);
void rf_setint(rf_hdu *h, const char *key, long val);
void rf_setexact(rf_hdu *h, const char *key, double val); /* to the last digit */
void rf_setdbl(rf_hdu *h, const char *key, double val);
void rf_delcard(rf_hdu *h, int i);
void rf_del(rf_hdu *h, const char *key); /* if present */
void rf_delhdu(rf_file *f, int i);
void rf_inshdu(rf_file *f, int at, rf_hdu h); /* takes ownership */
rf_hdu rf_hclone(const rf_hdu *h);
rf_hdu rf_primary(void);
rf_hdu rf_table(const char *extname); /* no columns, no rows */
/* append a column; rows keep their other contents, new bytes are zero */
void rf_addcol(rf_hdu *h, const char *name, const char *form,
               const char *unit);
void rf_addrows(rf_hdu *h, long n);
void rf_delcol(rf_hdu *h, int num); /* 1-based */

/* columns */
int rf_cols(const rf_hdu *h, rf_col *out, int max);
int rf_colnum(const rf_hdu *h, const char *name, rf_col *out); /* 0 if none */
long rf_rows(const rf_hdu *h);
unsigned char *rf_cell(const rf_hdu *h, const rf_col *c, long row);
double rf_num(const unsigned char *cell, char type, int elem); /* C: pairs */
void rf_putnum(unsigned char *cell, char type, int elem, double v);
void rf_puttext(unsigned char *cell, int width, const char *s);
void rf_text(const unsigned char *cell, int width, char *out);

/* checksums */
bool rf_sums_ok(const rf_hdu *h, const char **what);
void rf_seal(rf_hdu *h);
void rf_sealhdu(rf_hdu *h);   /* (re)compute both */
void rf_unseal(rf_hdu *h); /* remove both */
#endif
