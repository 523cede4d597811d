/* Independent specification of filtering and iteration. */
#ifndef FILT_H
#define FILT_H
#include "data.h"
#include "oifilter.h"
#include "oiiter.h"

/* glob with * and ? */
bool glob_match(const char *pat, const char *s);
/* expected result of apply_oi_filter (a registered dataset) */
oi_fits *oracle_filter(const oi_fits *in, const oi_filter_spec *f);

/* one limit, or both limits of one range, at and near a value of fd_base
 * (picks; contains the partition point) */
oi_fits *fd_triangle(oi_filter_spec *f);
void fd_edge(oi_filter_spec *f);
oi_fits *fd_fine(oi_filter_spec *f);

/* one data point, as reported by an iterator */
typedef struct
{
  int extver;
  long irec;
  int iwave;
  double eff, u1, v1, u2, v2;
} pt;
/* expected sequence for type 0 VIS, 1 VIS2, 2 T3; malloc'ed */
int oracle_points(const oi_fits *in, const oi_filter_spec *f, int type,
                  pt **out);

/* dataset with exactly representable values around every limit of the
 * filter alphabet */
oi_fits *fd_base(void);
/* give a ds_gen dataset values that the default filter accepts */
void fd_scale(oi_fits *oi);
/* filter specification by mc_dev choices; mask selects groups of fields */
enum
{
  FS_ARR = 1,
  FS_INS = 2,
  FS_COR = 4,
  FS_TGT = 8,
  FS_MJD = 16,
  FS_WAV = 32,
  FS_BAS = 64,
  FS_UVR = 128,
  FS_SNR = 256,
  FS_TYP = 512,
  FS_FLG = 1024,
  FS_ALL = 2047,
  FS_COMMUTE = 511
};
void fs_gen(oi_filter_spec *f, int mask);
/* choose exactly one non-default value of one criterion (full enumeration) */
void fs_one(oi_filter_spec *f, int crit);
void fs_show(const oi_filter_spec *f, char *out, size_t cap);
/* one record pair with every combination of point states over 3 channels
 * (picks; contains the partition point) */
oi_fits *fd_points(oi_filter_spec *f, int ntype, int *type);
oi_fits *fd_numbers(oi_filter_spec *f);
oi_fits *fd_everyday(void);
void fd_keeps_all(const oi_fits *oi, const oi_filter_spec *f, const char *ctx);
#endif
