/* Dataset alphabets shared by several properties. */
#ifndef DATA_H
#define DATA_H
#include "gen.h"

/* every optional feature in use, two tables of each type */
oi_fits *ds_rich(void);
/* small dataset: one table of each type, two records, two channels */
oi_fits *ds_small(void);
/* deviation-driven dataset (many mc_dev calls); zero-size tables only if
 * zeros is true */
oi_fits *ds_gen(bool zeros);
/* dataset as read from an OIFITS1 file: v1 revisions, no v2-only features;
 * choices via mc_dev */
oi_fits *ds_gen_v1(void);
/* the features that version 1 lacks, at their defaults */
void ds_v1_defaults(oi_fits *oi);

/* all combinations of optional features of one data table (picks; contains the
 * partition point) */
oi_fits *ds_options(void);
/* the dataset that a write followed by a read must return */
void ds_as_written(oi_fits *oi);

/* ---- sizes: one dimension made large ---- */
enum
{
  SZ_TARGETS, SZ_STATIONS, SZ_CHANNELS, SZ_CORRS, SZ_POLREC, SZ_VISREC,
  SZ_VIS2REC, SZ_T3REC, SZ_FLUXREC,
  SZ_NVIS, SZ_NVIS2, SZ_NT3, SZ_NFLUX, SZ_NARRAY, SZ_NWAVE, SZ_NCORR, SZ_NPOL,
  SZ_REFMAP, SZ_DIMS
};
#define SZ_BIG 29
/* a size chosen for the dimension (picks): every size up to lim, then sizes
 * around powers of two and ten up to max; skips the execution otherwise */
int sz_pick(int dim, int lim, int max);
/* dataset with n of that dimension, 1 to 3 of the others; references to all
 * that exists. v1: only what version 1 has */
oi_fits *ds_sized(int dim, int n, int tag, bool v1);

/* ---- every scalar cell of a dataset ---- */
enum cellkind
{
  K_I16,
  K_I32,
  K_DBL,
  K_FLT,
  K_KWD,  /* double in a keyword */
  K_STR,  /* string, len = largest number of characters */
  K_BOOL,
  K_ORD,  /* AMPORDER/PHIORDER */
  K_CAL   /* CALSTAT */
};
typedef struct
{
  void *p;
  int kind, len;
  const char *name;
  int tab;
  long rec;
  int ch;
} cell;
int ds_cells(const oi_fits *oi, cell **out); /* caller frees *out */
int cells_target(const oi_target *, cell **out);
/* number of alphabet values for a cell kind, and assignment of one; returns
 * false if the value equals the present one or does not apply */
int cell_nvalues(const cell *c);
bool cell_set(const cell *c, int v);
void cell_flip(const cell *c); /* change the cell to some other value */
#endif
