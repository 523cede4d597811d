/* Independent specification of the conformity checks. */
#ifndef CHK_H
#define CHK_H
#include "data.h"
#include "oicheck.h"
#define NCHECK 14
extern const check_func chk_fn[NCHECK];
extern const char *const chk_name[NCHECK];
typedef struct
{
  int level, n;
  char loc[MAX_REPORT][FLEN_VALUE];
} chk_res;
/* expected result of check k */
void chk_oracle(const oi_fits *oi, int k, chk_res *r);
/* run all checks and compare; returns worst level */
int chk_run(const oi_fits *oi);
/* conforming dataset, two tables of each type (v = 1 or 2) */
oi_fits *chk_base(int v, int nrec, int nwave);
#endif
