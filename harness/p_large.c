/* Tables of more rows, channels, stations or targets than a 16-bit number
 * counts. */
#include "chk.h"
#include "filt.h"
#include "mrg.h"
#include "data.h"
#include <unistd.h>

void io_roundtrip(oi_fits *oi, const char *what);
void lookup_check(const oi_fits *, const oi_fits *, const char *);
void filter_judge(oi_fits *in, oi_filter_spec *f, int mode);
void iter_full(const oi_fits *d, const oi_filter_spec *f, int type, bool null);
void count_check(const oi_fits *);
void summary_expect(const oi_fits *);
void atomic_check(const oi_fits *);
void write_verify(const oi_fits *);
void merge_judge(oi_fits **in, int n, int which);
void copy_judge(oi_fits *oi, int side);

static int dim, n;
static void choose_(int most)
{
  /* target and station numbers are 16-bit */
  static const int dims[] = {SZ_CHANNELS, SZ_CORRS,   SZ_POLREC, SZ_VISREC,   SZ_VIS2REC,
                             SZ_T3REC,    SZ_FLUXREC, SZ_REFMAP, SZ_STATIONS, SZ_TARGETS};
  static const int len[] = {65537, 32769, 65536, 65535, 32768, 131073, 99999};
  dim = dims[mc_pick(10, "dimension")];
  int k = mc_pick(mc_thorough ? 7 : 2, "size");
  n = dim == SZ_REFMAP ? (k == 0 ? 257 : k == 1 ? 182 : 183 + k) : dim <= SZ_STATIONS ? most - k : len[k];
}
static void choose(void) { choose_(32767); }
static oi_fits *make(void)
{
  oi_fits *oi = ds_sized(dim, n, 0, false);
  if (dim == SZ_STATIONS || dim == SZ_TARGETS) oi->header.object[0] = 'L';
  return oi;
}
static void spec(oi_filter_spec *f, oi_fits *oi, int k)
{
  fd_scale(oi);
  for (GList *l = oi->wavelengthList; l; l = l->next)
    for (int i = 0; i < ((oi_wavelength *)l->data)->nwave; i++)
      ((oi_wavelength *)l->data)->eff_wave[i] = (1 + ((i * 7) % 5)) * 1e-6f;
  init_oi_filter(f);
  if (k == 1) f->wave_range[1] = 3.5e-6f, f->mjd_range[0] = 50000.5;
  if (k == 2) f->accept_flagged = 0, f->snr_range[0] = 2;
}

static void c01_large(void)
{
  choose();
  mc_mine();
  io_roundtrip(make(), "large table");
}
static void c02_large(void)
{
  choose();
  mc_mine();
  write_verify(make());
}
static void filtered(int mode)
{
  choose();
  int k = mc_pick(3, "filter");
  mc_mine();
  oi_filter_spec f;
  oi_fits *oi = make();
  spec(&f, oi, k);
  filter_judge(oi, &f, mode);
}
static void c04_large(void) { filtered(0); }
static void c05_large(void) { filtered(1); }
static void merged(int which)
{
  choose_(2000); /* takes time quadratic in the number of targets */
  int ord = mc_pick(2, "order");
  mc_mine();
  oi_fits *in[2] = {make(), ds_small()};
  if (ord)
  {
    oi_fits *t = in[0];
    in[0] = in[1], in[1] = t;
  }
  merge_judge(in, 2, which);
}
static void c08_large(void) { merged(8); }
static void c09_large(void) { merged(9); }
static void c10_large(void)
{
  choose();
  int k = mc_pick(3, "filter");
  mc_mine();
  oi_filter_spec f;
  oi_fits *oi = make();
  spec(&f, oi, k);
  for (int t = 0; t < 3; t++)
    iter_full(oi, &f, t, k == 0);
}
static void c11_large(void)
{
  choose_(2000); /* takes time quadratic in the number of targets */
  int brk = mc_pick(3, "breach");
  mc_mine();
  oi_fits *oi = make();
  int last = n - 1;
  if (brk) /* in the last place */
    switch (dim)
    {
    case SZ_CHANNELS:
    {
      oi_wavelength *w = NTH(oi->wavelengthList, 0);
      w->eff_wave[last] = brk == 1 ? w->eff_wave[0] : NAN;
      break;
    }
#define LAST(list, T)                                                          \
  {                                                                            \
    T *t = NTH(oi->list, 0);                                                   \
    if (brk == 1) t->record[t->numrec - 1].target_id = 999;                    \
    else t->record[t->numrec - 1].mjd = -1;                                    \
    break;                                                                     \
  }
    case SZ_VISREC: LAST(visList, oi_vis)
    case SZ_VIS2REC: LAST(vis2List, oi_vis2)
    case SZ_T3REC: LAST(t3List, oi_t3)
    case SZ_FLUXREC: LAST(fluxList, oi_flux)
    case SZ_TARGETS: oi->targets.targ[last].target_id = brk; break;
    }
  chk_run(oi);
  mc_outcome(dim * 4 + brk);
}
static void c14_large(void)
{
  choose();
  mc_mine();
  oi_fits *oi = make();
  /* looking up everything takes time quadratic in the number */
  if (dim != SZ_STATIONS && dim != SZ_TARGETS) return;
  for (int i = 0; i < n; i += i < 300 || i > n - 300 ? 1 : 97)
  {
    if (dim == SZ_TARGETS)
    {
      MC_CHECK(oi_fits_lookup_target(oi, oi->targets.targ[i].target_id) == &oi->targets.targ[i], "target %d", i);
      continue;
    }
    oi_array *a = NTH(oi->arrayList, 0);
    MC_CHECK(oi_fits_lookup_element(oi, a->arrname, a->elem[i].sta_index) == &a->elem[i], "station %d", i);
  }
  MC_CHECK(!oi_fits_lookup_target(oi, 65536 + 1), "target 65537");
  MC_CHECK(!oi_fits_lookup_element(oi, ((oi_array *)NTH(oi->arrayList, 0))->arrname, 65536 + 1), "station 65537");
  mc_outcome(dim + 1);
}
static void c15_large(void)
{
  choose();
  int side = mc_pick(2, "side");
  mc_mine();
  copy_judge(make(), side);
}
static void c21_large(void)
{
  choose();
  int k = mc_pick(2, "all unflagged");
  mc_mine();
  oi_fits *oi = make();
  if (k)
  {
#define UNFLAG(list, T)                                                        \
  for (GList *l = oi->list; l; l = l->next)                                    \
    for (long i = 0; i < ((T *)l->data)->numrec; i++)                          \
      memset(((T *)l->data)->record[i].flag, 0, ((T *)l->data)->nwave);
    UNFLAG(visList, oi_vis)
    UNFLAG(vis2List, oi_vis2)
    UNFLAG(t3List, oi_t3)
    UNFLAG(fluxList, oi_flux)
  }
  count_check(oi), summary_expect(oi), atomic_check(oi);
  mc_outcome(dim * 2 + k);
}

#define WHAT "tables of 32767 to 65537 (thorough: 131073) rows or channels, and of 182 to 257 channels with reference map"
const mc_scope scopes_large[] = {
    {"C01", "large", c01_large, 0, 0, 0, WHAT}, {"C02", "large", c02_large, 0, 0, 0, WHAT},
    {"C04", "large", c04_large, 0, 0, 0, WHAT}, {"C05", "large", c05_large, 0, 0, 0, WHAT},
    {"C08", "large", c08_large, 0, 0, 0, WHAT}, {"C09", "large", c09_large, 0, 0, 0, WHAT},
    {"C10", "large", c10_large, 0, 0, 0, WHAT}, {"C11", "large", c11_large, 0, 0, 0, WHAT},
    {"C14", "large", c14_large, 0, 0, 0, WHAT}, {"C15", "large", c15_large, 0, 0, 0, WHAT},
    {"C21", "large", c21_large, 0, 0, 0, WHAT}, {0}};
