/* OIFITS files through the independent FITS layer. */
#ifndef OIF_H
#define OIF_H
#include "rf.h"
/* C02: file at path against the dataset that was given to the writer; returns
 * a hash of the structure seen */
uint64_t oif_verify(const char *path, const oi_fits *oi);
/* OIFITS version 1 file holding a dataset (tables of version 1 only), HDUs in
 * the order targets, arrays, wavelengths, data */
typedef struct
{
  bool reverse; /* columns in reverse order */
  bool lower;   /* column names in lower case */
  bool extra;   /* an extra column in front of the others */
  bool floats;  /* per-channel values in single precision */
  bool ints;    /* 32-bit target and station numbers */
  bool sums;    /* with checksums */
  bool units;   /* with units */
} v1opt;
rf_file *oif_v1(const oi_fits *oi, const v1opt *o);
#endif
