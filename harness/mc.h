/* mc: a small stateless, exhaustive explorer for sequential C code.
 *
 * A scope is a function that asks for choices (mc_pick / mc_dev), runs the
 * code under test on the behaviour they describe and checks the property.
 * The engine runs it once for every possible vector of choices. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

typedef struct
{
  const char *prop;
  const char *name;
  void (*run)(void);
  int devQuick, devThorough; /* deviation bounds for mc_dev */
  int thoroughOnly;
  const char *what; /* bound, in words (evidence) */
} mc_scope;

extern const mc_scope *const mc_scope_tables[]; /* NULL-terminated */

extern int mc_thorough;  /* tier */
extern char mc_dir[512]; /* private scratch directory of this worker */
extern char mc_log[512]; /* file that captures this worker's stdout+stderr */
extern char mc_bindir[512]; /* directory holding the utilities built */

int mc_pick(int n, const char *label);      /* full enumeration of 0..n-1 */
int mc_dev(int n, const char *label);       /* 0 free, 1..n-1 cost 1 deviation */
int mc_devs_left(void);
void mc_mine(void);                         /* partition point */
_Noreturn void mc_skip(void);               /* infeasible combination: prune */
_Noreturn void mc_fail(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
/* a failure that a known-findings key may cover */
_Noreturn void mc_fail_key(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
void mc_outcome(uint64_t h);                /* distinct observed outcomes */
void mc_evals(long n);                      /* extra property evaluations */
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
int mc_replaying(void);
extern void (*mc_cleanup)(void); /* called between executions */

/* captured output: text written by the code under test since the mark */
void mc_cap_begin(void);
char *mc_cap_end(void);                     /* malloc'ed, NUL-terminated */

#define MC_CHECK(cond, ...)                                                    \
  do                                                                           \
  {                                                                            \
    if (!(cond)) mc_fail(__VA_ARGS__);                                         \
  } while (0)
#endif
