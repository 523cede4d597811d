/* Independent specification of merging. */
#ifndef MRG_H
#define MRG_H
#include "data.h"
#include "oimerge.h"
/* C08: data of inputs in[0..n-1] against the merged dataset */
void merge_check_data(oi_fits *const *in, int n, const oi_fits *out);
/* C09: header and support tables */
void merge_check_support(oi_fits *const *in, int n, const oi_fits *out,
                         bool datecheck);
/* deviation-driven input for merging; k = position in the list */
extern bool mg_nan_key;
oi_fits *mg_input(int k);
void mg_run(oi_fits *const *in, int n, oi_fits *out); /* the code under test */
#endif
