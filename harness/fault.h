/* Storage faults: the stdio calls made by cfitsio, counted and failed. */
#ifndef FAULT_H
#define FAULT_H
enum
{
  F_OPEN = 1, F_READ = 2, F_WRITE = 4, F_SEEK = 8, F_FLUSH = 16, F_TRUNC = 32,
  F_CLOSE = 64, F_REMOVE = 128
};
#define F_NOP 2000
/* start counting calls whose kind is in mask; call number first (0-based) and
 * the following n-1 fail (first < 0: none). mode 1: partial transfers */
void fault_on(int mask, int first, int n, int mode);
void fault_also(int second); /* one more failing call */
int fault_off(void);         /* number of calls counted */
int fault_hits(void);        /* number of calls that failed */
int fault_kind(int i);       /* kind of the i-th call counted */
int open_fds(void);          /* descriptors in use */
#endif
