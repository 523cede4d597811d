/* C20: memory and descriptors over sequences of operations */
#include "chk.h"
#include "fault.h"
#include "filt.h"
#include "mrg.h"
#include "oif.h"
#include <malloc.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);
#include <unistd.h>

/* ---- operations; the dataset belongs to the library ---- */
static const struct
{
  int crit; /* filter criterion, or -1 */
  const char *name;
} filters[] = {{0, "everything"},     {1, "no array name"}, {2, "no instrument"},
               {3, "no correlation"}, {4, "one target"},    {5, "no target"},
               {6, "no wavelength"},  {7, "some wavelengths"},
               {8, "no date"},        {9, "no type"},       {10, "no flagged"},
               {11, "one instrument"}};
#define NFILT 12
enum
{
  O_MERGE = NFILT, O_MERGE3, O_SELF, O_CHECK, O_ITER, O_WRITE, O_TABLES, O_DUP,
  O_INFO, O_UPGRADE, NOPS
};

static void spec(oi_filter_spec *f, int k)
{
  init_oi_filter(f);
  switch (k)
  {
  case 1: SETS(f->arrname, "NONE"); break;
  case 2: SETS(f->insname, "NONE"); break;
  case 3: SETS(f->corrname, "NONE"); break;
  case 4: f->target_id = 1; break;
  case 5: f->target_id = 999; break;
  case 6: f->wave_range[0] = 1, f->wave_range[1] = 2; break;
  case 7: f->wave_range[1] = 1.55e-6; break;
  case 8: f->mjd_range[0] = 9e6; break;
  case 9:
    f->accept_vis = f->accept_vis2 = f->accept_t3amp = f->accept_t3phi =
        f->accept_flux = 0;
    break;
  case 10: f->accept_flagged = 0; break;
  case 11: SETS(f->insname, "INS0"); break;
  }
}

static int quiet_fd = -1;

#define DUP(list, type, dup, fre)                                              \
  for (GList *l = cur->list; l; l = l->next)                                   \
  {                                                                            \
    type *t = dup((type *)l->data);                                            \
    fre(t);                                                                    \
    free(t);                                                                   \
  }

#define READ(type, fn, fre)                                                    \
  for (;;)                                                                     \
  {                                                                            \
    type t;                                                                    \
    fits_movabs_hdu(fp, 1, NULL, &st);                                         \
    int skip = n++;                                                            \
    (void)skip;                                                                \
    for (int i = 0; i <= skip && !st; i++)                                     \
      if (!fn(fp, &t, &st)) fre(&t);                                           \
    if (st)                                                                    \
    {                                                                          \
      st = 0;                                                                  \
      n = 0;                                                                   \
      break;                                                                   \
    }                                                                          \
  }

/* library function names that the summary, lookups etc. use */
static void info(oi_fits *cur)
{
  long a, b, c;
  is_oi_fits_one(cur);
  is_oi_fits_two(cur);
  is_atomic(cur, 1.0);
  count_oi_fits_data(cur, &a, &b, &c);
  format_oi_fits_summary(cur);
  print_oi_fits_summary(cur);
  oi_fits_lookup_array(cur, "ARR0");
  oi_fits_lookup_element(cur, "ARR0", 1);
  oi_fits_lookup_wavelength(cur, "NONE");
  oi_fits_lookup_corr(cur, "COR0");
  oi_fits_lookup_target(cur, 1);
  oi_fits_lookup_target_by_name(cur, "TARGET1");
  set_oi_header(cur);
}

static void apply(oi_fits *cur, int op)
{
  oi_fits out;
  int st = 0;
  oi_filter_spec f;
  if (op < NFILT)
  {
    spec(&f, op);
    apply_oi_filter(cur, &f, &out);
    free_oi_fits(cur);
    *cur = out;
    return;
  }
  switch (op)
  {
  case O_MERGE:
  case O_MERGE3:
  case O_SELF:
  {
    oi_fits *other = ds_small(), *third = ds_rich();
    if (op == O_MERGE)
      merge_oi_fits(&out, cur, other, NULL);
    else if (op == O_SELF)
      merge_oi_fits(&out, cur, cur, NULL);
    else
    {
      GList *l = g_list_append(NULL, third);
      l = g_list_append(l, cur);
      l = g_list_append(l, other);
      merge_oi_fits_list(l, &out);
      g_list_free(l);
    }
    ds_free(other);
    ds_free(third);
    free_oi_fits(cur);
    *cur = out;
    break;
  }
  case O_CHECK:
    for (int k = 0; k < NCHECK; k++)
    {
      oi_check_result r;
      if (chk_fn[k](cur, &r) != OI_BREACH_NONE) print_check_result(&r);
      free_check_result(&r);
    }
    break;
  case O_ITER:
    for (int k = 0; k < 3; k++)
    {
      spec(&f, k == 0 ? 0 : k == 1 ? 7 : 2);
      oi_vis_iter v;
      oi_vis2_iter v2;
      oi_t3_iter t3;
      double x[5];
      oi_vis_iter_init(&v, cur, k == 0 ? NULL : &f);
      while (oi_vis_iter_next(&v, NULL, NULL, NULL, NULL, NULL))
        oi_vis_iter_get_uv(&v, &x[0], &x[1], &x[2]);
      oi_vis2_iter_init(&v2, cur, &f);
      while (oi_vis2_iter_next(&v2, NULL, NULL, NULL, NULL, NULL))
        oi_vis2_iter_get_uv(&v2, &x[0], &x[1], &x[2]);
      oi_t3_iter_init(&t3, cur, &f);
      while (oi_t3_iter_next(&t3, NULL, NULL, NULL, NULL, NULL))
        oi_t3_iter_get_uv(&t3, &x[0], &x[1], &x[2], &x[3], &x[4]);
      /* left half-way */
      oi_vis_iter_init(&v, cur, &f);
      oi_vis_iter_next(&v, NULL, NULL, NULL, NULL, NULL);
    }
    break;
  case O_WRITE:
    unlink(mc_path("l.fits"));
    write_oi_fits(mc_path("l.fits"), *cur, &st);
    MC_CHECK(st == 0, "write failed (%d)", st);
    free_oi_fits(cur);
    read_oi_fits(mc_path("l.fits"), cur, &st);
    MC_CHECK(st == 0, "read failed (%d)", st);
    unlink(mc_path("l.fits"));
    break;
  case O_TABLES:
  {
    unlink(mc_path("l.fits"));
    write_oi_fits(mc_path("l.fits"), *cur, &st);
    MC_CHECK(st == 0, "write failed (%d)", st);
    fitsfile *fp = NULL;
    int n = 0;
    fits_open_file(&fp, mc_path("l.fits"), READONLY, &st);
    oi_header h;
    read_oi_header(fp, &h, &st);
    oi_target t;
    if (!read_oi_target(fp, &t, &st)) free_oi_target(&t);
    MC_CHECK(st == 0, "table-level read failed (%d)", st);
    oi_hush_errors = 1;
    READ(oi_array, read_next_oi_array, free_oi_array)
    READ(oi_wavelength, read_next_oi_wavelength, free_oi_wavelength)
    READ(oi_corr, read_next_oi_corr, free_oi_corr)
    READ(oi_inspol, read_next_oi_inspol, free_oi_inspol)
    READ(oi_vis, read_next_oi_vis, free_oi_vis)
    READ(oi_vis2, read_next_oi_vis2, free_oi_vis2)
    READ(oi_t3, read_next_oi_t3, free_oi_t3)
    READ(oi_flux, read_next_oi_flux, free_oi_flux)
    char nm[] = "ARR0", ni[] = "INS0", nc[] = "COR0";
    oi_array a;
    oi_wavelength w;
    oi_corr c;
    if (!read_oi_array(fp, nm, &a, &st)) free_oi_array(&a);
    st = 0;
    if (!read_oi_wavelength(fp, ni, &w, &st)) free_oi_wavelength(&w);
    st = 0;
    if (!read_oi_corr(fp, nc, &c, &st)) free_oi_corr(&c);
    st = 0;
    oi_hush_errors = 0;
    fits_close_file(fp, &st);
    unlink(mc_path("l.fits"));
    break;
  }
  case O_DUP:
  {
    oi_target *t = dup_oi_target(&cur->targets);
    free_oi_target(t);
    free(t);
    DUP(arrayList, oi_array, dup_oi_array, free_oi_array)
    DUP(wavelengthList, oi_wavelength, dup_oi_wavelength, free_oi_wavelength)
    DUP(corrList, oi_corr, dup_oi_corr, free_oi_corr)
    DUP(inspolList, oi_inspol, dup_oi_inspol, free_oi_inspol)
    DUP(visList, oi_vis, dup_oi_vis, free_oi_vis)
    DUP(vis2List, oi_vis2, dup_oi_vis2, free_oi_vis2)
    DUP(t3List, oi_t3, dup_oi_t3, free_oi_t3)
    DUP(fluxList, oi_flux, dup_oi_flux, free_oi_flux)
    break;
  }
  case O_INFO: info(cur); break;
  case O_UPGRADE:
    upgrade_oi_target(&cur->targets);
    for (GList *l = cur->arrayList; l; l = l->next) upgrade_oi_array(l->data);
    for (GList *l = cur->wavelengthList; l; l = l->next)
      upgrade_oi_wavelength(l->data);
    for (GList *l = cur->visList; l; l = l->next) upgrade_oi_vis(l->data);
    for (GList *l = cur->vis2List; l; l = l->next) upgrade_oi_vis2(l->data);
    for (GList *l = cur->t3List; l; l = l->next) upgrade_oi_t3(l->data);
    break;
  }
}

static void opname(int op, char *b, size_t n)
{
  static const char *const o[] = {"merge",  "merge of three", "merge with itself",
                                  "check",  "iterate", "write and read",
                                  "read tables", "duplicate", "summary",
                                  "upgrade"};
  if (op < NFILT)
    snprintf(b, n, "filter (%s)", filters[op].name);
  else
    snprintf(b, n, "%s", o[op - NFILT]);
}

static void sequence(const char *fn, const int *op, int n)
{
  oi_fits cur;
  int st = 0;
  read_oi_fits(fn, &cur, &st);
  MC_CHECK(st == 0, "input not read (%d)", st);
  for (int i = 0; i < n; i++) apply(&cur, op[i]);
  free_oi_fits(&cur);
}

static bool as_v1; /* the file is a version 1 file */
static void check_seq(oi_fits *oi, const int *op, int n)
{
  static char fn[600];
  if (!fn[0]) strcpy(fn, mc_path("in.fits"));
  unlink(fn);
  (void)quiet_fd;
  int st = 0;
  mc_cap_begin();
  if (as_v1)
  {
    v1opt o = {0};
    rf_file *f = oif_v1(oi, &o);
    rf_write(f, fn);
    rf_free(f);
    as_v1 = false;
  }
  else
    write_oi_fits(fn, *oi, &st);
  MC_CHECK(st == 0, "input not written (%d)", st);
  size_t used[4];
  int fds[4];
  int runs = 3;
  for (int i = 0; i < runs; i++)
  {
    sequence(fn, op, n);
    fflush(stdout), fflush(stderr);
    used[i] = __sanitizer_get_current_allocated_bytes();
    fds[i] = open_fds();
  }
  free(mc_cap_end());
  unlink(fn);
  char text[400] = "";
  for (int i = 0; i < n; i++)
  {
    size_t l = strlen(text);
    opname(op[i], text + l, sizeof(text) - l);
    l = strlen(text);
    if (i + 1 < n) snprintf(text + l, sizeof(text) - l, ", ");
  }
  /* the first run may set up storage that is kept for good */
  MC_CHECK(used[2] <= used[1], "%zu bytes lost by: read, %s, free",
           used[2] - used[1], text);
  MC_CHECK(fds[2] == fds[0] && fds[1] == fds[0],
           "descriptors left open by: read, %s, free", text);
}

/* all sequences on a few datasets */
static oi_fits *input(int k)
{
  oi_fits *oi;
  switch (k)
  {
  case 0: return ds_rich();
  case 1: return fd_base();
  case 2: return ds_small();
  case 3: /* nothing but targets */
    oi = ds_new();
    ds_targets(oi, 2, false);
    return oi;
  case 4: /* tables without rows */
    oi = ds_new();
    ds_targets(oi, 1, true);
    ds_array(oi, "ARR0", 0, 0);
    ds_wave(oi, "INS0", 2, 0);
    ds_corr(oi, "COR0", 40, 0, 0);
    ds_inspol(oi, "ARR0", "INS0", 0, 2, 0);
    ds_vis(oi, "ARR0", "INS0", "COR0", 0, 2, 1);
    ds_vis2(oi, "ARR0", "INS0", "COR0", 0, 2, 1);
    ds_t3(oi, "ARR0", "INS0", "COR0", 0, 2, 1);
    ds_flux(oi, "ARR0", "INS0", "COR0", 0, 2, 1);
    return oi;
  case 5: return chk_base(2, 2, 3);
  default: /* two instruments, one of them outside all the ranges */
    oi = ds_small();
    ds_wave(oi, "INSX", 3, 7);
    ds_vis(oi, "ARR0", "INSX", "", 2, 3, 5);
    vis_complex(NTH(oi->visList, 1), "Jy", 5);
    vis_refmap(NTH(oi->visList, 1), 5);
    ds_t3(oi, "ARR0", "INSX", "", 1, 3, 5);
    return oi;
  }
}

static void c20_sequences(void)
{
  int n = mc_thorough ? 3 : 2, op[8];
  int k = mc_pick(7, "dataset");
  for (int i = 0; i < n; i++) op[i] = mc_pick(NOPS, "operation");
  mc_mine();
  check_seq(input(k), op, n);
}

/* every single operation on many datasets */
static void c20_shapes(void)
{
  int op = mc_pick(NOPS, "operation");
  oi_fits *oi = ds_gen(true);
  mc_mine();
  check_seq(oi, &op, 1);
}

/* filters of every kind */
static void c20_filters(void)
{
  oi_filter_spec f;
  init_oi_filter(&f);
  oi_fits *oi = fd_base();
  fs_gen(&f, FS_ALL);
  int via = mc_pick(2, "how");
  mc_mine();
  size_t used[3];
  for (int i = 0; i < 3; i++)
  {
    oi_fits out;
    mc_cap_begin();
    if (via == 0)
    {
      apply_oi_filter(oi, &f, &out);
      print_oi_filter(&f);
      format_oi_filter(&f);
      free_oi_fits(&out);
    }
    else
    {
      oi_t3_iter t3;
      oi_vis_iter v;
      oi_t3_iter_init(&t3, oi, &f);
      while (oi_t3_iter_next(&t3, NULL, NULL, NULL, NULL, NULL)) {}
      oi_vis_iter_init(&v, oi, &f);
      while (oi_vis_iter_next(&v, NULL, NULL, NULL, NULL, NULL)) {}
    }
    free(mc_cap_end());
    used[i] = __sanitizer_get_current_allocated_bytes();
  }
  if (used[2] > used[1])
  {
    char b[800];
    fs_show(&f, b, sizeof(b));
    mc_fail("%zu bytes lost by %s with %s", used[2] - used[1],
            via ? "iterating" : "filtering", b);
  }
}

/* merges of every kind */
static void c20_merges(void)
{
  int n = mc_pick(2, "inputs") + 1;
  oi_fits *in[3];
  for (int i = 0; i < n; i++) in[i] = mg_input(i);
  mc_mine();
  size_t used[3];
  for (int i = 0; i < 3; i++)
  {
    oi_fits out;
    mg_run(in, n, &out);
    free_oi_fits(&out);
    used[i] = __sanitizer_get_current_allocated_bytes();
  }
  MC_CHECK(used[2] <= used[1], "%zu bytes lost by merging", used[2] - used[1]);
}

/* every single operation on datasets with one dimension made large */
static void c20_sizes(void)
{
  int op = mc_pick(NOPS, "operation"), dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 40 : 4, mc_thorough ? 1025 : 65);
  if (!mc_thorough && n > 4 && n != 65 && (n != 48 || dim < SZ_NVIS)) mc_skip();
  mc_mine();
  oi_fits *oi = ds_sized(dim, n, 0, false);
  fd_scale(oi);
  check_seq(oi, &op, 1);
}

/* version 1 files */
static void c20_v1(void)
{
  int op[2] = {mc_pick(NOPS, "operation"), mc_pick(NOPS, "operation")};
  oi_fits *oi = ds_gen_v1();
  mc_mine();
  as_v1 = true;
  check_seq(oi, op, 2);
}

const mc_scope scopes_leak[] = {
    {"C20", "sequences", c20_sequences, 0, 0, 0,
     "all sequences of 2 (thorough 3) of 22 operations on seven datasets, each run three times"},
    {"C20", "shapes", c20_shapes, 1, 2, 0,
     "every operation on all datasets within the deviation bound, tables without rows or channels included"},
    {"C20", "filters", c20_filters, 2, 3, 0,
     "all filter specifications within the deviation bound, applied and iterated"},
    {"C20", "merges", c20_merges, 2, 3, 0,
     "all merges of one or two inputs within the deviation bound"},
    {"C20", "sizes", c20_sizes, 0, 0, 0,
     "every operation on datasets with each of 18 dimensions over a range and boundary sizes"},
    {"C20", "version1", c20_v1, 0, 1, 0,
     "every sequence of two operations on version 1 files within the deviation bound"},
    {0}};
