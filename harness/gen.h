/* Datasets: builders, deep copies, comparison. Independent of the library's
 * own dup/free/lookup functions. */
#ifndef GEN_H
#define GEN_H
#include <stdbool.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <glib.h>
#include "oifile.h"
#include "mc.h"

/* ---- allocation (exact size, so that ASan sees every overrun) ---- */
void *xalloc(size_t n); /* NULL for 0 */
void *xdup(const void *p, size_t n);
void setstr(char *dst, size_t cap, const char *s);
#define SETS(f, s) setstr((f), sizeof(f), (s))

/* ---- builders ---- */
oi_fits *ds_new(void); /* header filled with tagged values, no tables */
void ds_targets(oi_fits *oi, int n, bool usecategory);
oi_array *ds_array(oi_fits *oi, const char *name, int nelem, int tag);
oi_wavelength *ds_wave(oi_fits *oi, const char *name, int nwave, int tag);
oi_corr *ds_corr(oi_fits *oi, const char *name, int ndata, int ncorr, int tag);
oi_inspol *ds_inspol(oi_fits *oi, const char *arr, const char *ins, long numrec,
                     int nwave, int tag);
oi_vis *ds_vis(oi_fits *oi, const char *arr, const char *ins, const char *corr,
               long numrec, int nwave, int tag);
void vis_complex(oi_vis *v, const char *unit, int tag);
void vis_refmap(oi_vis *v, int tag);
oi_vis2 *ds_vis2(oi_fits *oi, const char *arr, const char *ins,
                 const char *corr, long numrec, int nwave, int tag);
oi_t3 *ds_t3(oi_fits *oi, const char *arr, const char *ins, const char *corr,
             long numrec, int nwave, int tag);
oi_flux *ds_flux(oi_fits *oi, const char *arr, const char *ins,
                 const char *corr, long numrec, int nwave, int tag);
void ds_downgrade(oi_fits *oi); /* revisions of all v1-capable tables -> 1 */
/* attach tables (used to build expected results) */
void add_array(oi_fits *oi, oi_array *t);
void add_wave(oi_fits *oi, oi_wavelength *t);
void add_corr(oi_fits *oi, oi_corr *t);
void add_inspol(oi_fits *oi, oi_inspol *t);
void add_vis(oi_fits *oi, oi_vis *t);
void add_vis2(oi_fits *oi, oi_vis2 *t);
void add_t3(oi_fits *oi, oi_t3 *t);
void add_flux(oi_fits *oi, oi_flux *t);

/* ---- copies ---- */
oi_array *cl_array(const oi_array *);
oi_wavelength *cl_wave(const oi_wavelength *);
oi_corr *cl_corr(const oi_corr *);
oi_inspol *cl_inspol(const oi_inspol *);
oi_vis *cl_vis(const oi_vis *);
oi_vis2 *cl_vis2(const oi_vis2 *);
oi_t3 *cl_t3(const oi_t3 *);
oi_flux *cl_flux(const oi_flux *);
void cl_target(const oi_target *, oi_target *);
oi_fits *ds_clone(const oi_fits *);
void ds_free(oi_fits *); /* own implementation; frees the struct as well */
void ds_keep(oi_fits *); /* survives the end of the execution */
void fr_array(oi_array *);
void fr_wave(oi_wavelength *);
void fr_corr(oi_corr *);
void fr_inspol(oi_inspol *);
void fr_vis(oi_vis *);
void fr_vis2(oi_vis2 *);
void fr_t3(oi_t3 *);
void fr_flux(oi_flux *);

/* ---- canonical form ---- */
typedef struct
{
  uint64_t *w;
  size_t n, cap;
  char *txt; /* text mode if non-NULL */
  size_t tn, tcap;
  int text;
} ser;
enum
{
  SER_NODATE = 1,     /* ignore header.date */
  SER_NOHEADER = 2,   /* ignore the primary keywords */
  SER_KW15 = 4,       /* keyword doubles to 15 significant digits */
  SER_NOREV = 8,      /* ignore revisions */
  SER_NOTIME = 16,    /* ignore TIME */
  SER_NODATAREF = 32, /* ignore target_id and arr/ins/corr names of data */
  SER_ONLYDATA = 64,  /* VIS, VIS2, T3, FLUX only */
  SER_RAW = 128       /* also fields that are not in use */
};
void ser_init(ser *, int text);
void ser_done(ser *);
void ser_fits(ser *, const oi_fits *, int flags);
void ser_header(ser *, const oi_header *, int flags);
void ser_target(ser *, const oi_target *, int flags);
void ser_array(ser *, const oi_array *, int idx, int flags);
void ser_wave(ser *, const oi_wavelength *, int idx, int flags);
void ser_corr(ser *, const oi_corr *, int idx, int flags);
void ser_inspol(ser *, const oi_inspol *, int idx, int flags);
void ser_vis(ser *, const oi_vis *, int idx, int flags);
void ser_vis2(ser *, const oi_vis2 *, int idx, int flags);
void ser_t3(ser *, const oi_t3 *, int idx, int flags);
void ser_flux(ser *, const oi_flux *, int idx, int flags);
uint64_t ds_hash(const oi_fits *, int flags);
/* compares; on a difference fails the execution with the first differing line */
void ds_expect(const oi_fits *want, const oi_fits *got, int flags,
               const char *ctx);
int ds_equal(const oi_fits *a, const oi_fits *b, int flags, char *diff,
             size_t cap);
/* generic table comparison with any ser_* function */
#define T_EXPECT(fn, want, got, flags, ctx)                                    \
  do                                                                           \
  {                                                                            \
    ser a_, b_;                                                                \
    ser_init(&a_, 0), ser_init(&b_, 0);                                        \
    fn(&a_, (want), 0, (flags)), fn(&b_, (got), 0, (flags));                   \
    int e_ = ser_same(&a_, &b_);                                               \
    ser_done(&a_), ser_done(&b_);                                              \
    if (!e_)                                                                   \
    {                                                                          \
      char d_[2000];                                                           \
      ser_init(&a_, 1), ser_init(&b_, 1);                                      \
      fn(&a_, (want), 0, (flags)), fn(&b_, (got), 0, (flags));                 \
      ser_diff(&a_, &b_, d_, sizeof(d_));                                      \
      mc_fail("%s: %s", (ctx), d_);                                            \
    }                                                                          \
  } while (0)
int ser_same(const ser *, const ser *);
void ser_diff(const ser *, const ser *, char *out, size_t cap);

/* integrity of the container: counts match list lengths */
void ds_container(const oi_fits *, const char *ctx);

/* unique finite tagged values */
double tv(int tag, int field, long rec, int ch);

/* list access */
#define NTH(list, i) (g_list_nth_data((list), (i)))

/* files */
const char *mc_path(const char *name); /* in the worker's directory; static */
bool file_exists(const char *p);
char *slurp(const char *p, size_t *n);
void spew(const char *p, const void *b, size_t n);
#endif
