/* C19: calls with an error status pending */
#include "data.h"
#include "fault.h"
#include "oif.h"
#include <unistd.h>

/* ---- entry points ---- */
enum
{
  R_HEADER, R_TARGET, R_ARRAY, R_ARRAYN, R_WAVE, R_WAVEN, R_CORR, R_CORRN,
  R_INSPOL, R_VIS, R_VIS2, R_T3, R_FLUX, NREAD,
  W_HEADER = NREAD, W_TARGET, W_ARRAY, W_WAVE, W_CORR, W_INSPOL, W_VIS, W_VIS2,
  W_T3, W_FLUX, NENTRY
};
static const char *const entry[] = {
    "read_oi_header",   "read_oi_target",    "read_oi_array",
    "read_next_oi_array", "read_oi_wavelength", "read_next_oi_wavelength",
    "read_oi_corr",     "read_next_oi_corr", "read_next_oi_inspol",
    "read_next_oi_vis", "read_next_oi_vis2", "read_next_oi_t3",
    "read_next_oi_flux", "write_oi_header", "write_oi_target",
    "write_oi_array", "write_oi_wavelength", "write_oi_corr",
    "write_oi_inspol", "write_oi_vis", "write_oi_vis2", "write_oi_t3",
    "write_oi_flux"};

typedef union
{
  oi_header header;
  oi_target target;
  oi_array array;
  oi_wavelength wave;
  oi_corr corr;
  oi_inspol inspol;
  oi_vis vis;
  oi_vis2 vis2;
  oi_t3 t3;
  oi_flux flux;
  unsigned char raw[4096];
} any;

static int call(int e, const char *name, fitsfile *fp, const oi_fits *oi,
                any *a, int *st)
{
  char nm[80];
  snprintf(nm, sizeof(nm), "%s", name);
  switch (e)
  {
  case R_HEADER: return read_oi_header(fp, &a->header, st);
  case R_TARGET: return read_oi_target(fp, &a->target, st);
  case R_ARRAY: return read_oi_array(fp, nm, &a->array, st);
  case R_ARRAYN: return read_next_oi_array(fp, &a->array, st);
  case R_WAVE: return read_oi_wavelength(fp, nm, &a->wave, st);
  case R_WAVEN: return read_next_oi_wavelength(fp, &a->wave, st);
  case R_CORR: return read_oi_corr(fp, nm, &a->corr, st);
  case R_CORRN: return read_next_oi_corr(fp, &a->corr, st);
  case R_INSPOL: return read_next_oi_inspol(fp, &a->inspol, st);
  case R_VIS: return read_next_oi_vis(fp, &a->vis, st);
  case R_VIS2: return read_next_oi_vis2(fp, &a->vis2, st);
  case R_T3: return read_next_oi_t3(fp, &a->t3, st);
  case R_FLUX: return read_next_oi_flux(fp, &a->flux, st);
  case W_HEADER: return write_oi_header(fp, oi->header, st);
  case W_TARGET: return write_oi_target(fp, oi->targets, st);
  case W_ARRAY:
    return write_oi_array(fp, *(oi_array *)oi->arrayList->data, 1, st);
  case W_WAVE:
    return write_oi_wavelength(fp, *(oi_wavelength *)oi->wavelengthList->data,
                               1, st);
  case W_CORR: return write_oi_corr(fp, *(oi_corr *)oi->corrList->data, 1, st);
  case W_INSPOL:
    return write_oi_inspol(fp, *(oi_inspol *)oi->inspolList->data, 1, st);
  case W_VIS: return write_oi_vis(fp, *(oi_vis *)oi->visList->data, 1, st);
  case W_VIS2: return write_oi_vis2(fp, *(oi_vis2 *)oi->vis2List->data, 1, st);
  case W_T3: return write_oi_t3(fp, *(oi_t3 *)oi->t3List->data, 1, st);
  default: return write_oi_flux(fp, *(oi_flux *)oi->fluxList->data, 1, st);
  }
}

/* frees what a successful read allocated */
static void drop(int e, any *a)
{
  switch (e)
  {
  case R_TARGET: free_oi_target(&a->target); break;
  case R_ARRAY:
  case R_ARRAYN: free_oi_array(&a->array); break;
  case R_WAVE:
  case R_WAVEN: free_oi_wavelength(&a->wave); break;
  case R_CORR:
  case R_CORRN: free_oi_corr(&a->corr); break;
  case R_INSPOL: free_oi_inspol(&a->inspol); break;
  case R_VIS: free_oi_vis(&a->vis); break;
  case R_VIS2: free_oi_vis2(&a->vis2); break;
  case R_T3: free_oi_t3(&a->t3); break;
  case R_FLUX: free_oi_flux(&a->flux); break;
  }
}

static oi_fits *large(void); /* more than cfitsio buffers, in every table */
static oi_fits *base(void)
{
  static oi_fits *oi;
  if (!oi)
  {
    oi = ds_small();
    ds_keep(oi);
  }
  return oi;
}

/* a file holding base() */
static const char *basefile(void)
{
  static char fn[600];
  if (!fn[0])
  {
    strcpy(fn, mc_path("base.fits"));
    unlink(fn);
    int st = 0;
    MC_CHECK(write_oi_fits(fn, *base(), &st) == 0, "sample not written");
  }
  return fn;
}

static const int statuses[] = {END_OF_FILE, 1, READ_ERROR, FILE_NOT_OPENED,
                               KEY_NO_EXIST, BAD_HDU_NUM, 999, 32767,
                               -1};
#define NSTAT 8

/* one call that must do nothing */
static void nop(int e, const char *name, fitsfile *fp, int want, const char *ctx)
{
  any a, b;
  memset(&a, 0xa5, sizeof(a));
  b = a;
  int h0 = 0, h1 = 0, st = want, s2 = 0;
  long n0, n1;
  fits_get_hdu_num(fp, &h0);
  n0 = fp->Fptr->bytepos;
  uint64_t before = ds_hash(base(), 0);
  mc_cap_begin();
  fault_on(F_OPEN | F_READ | F_WRITE | F_SEEK | F_FLUSH | F_TRUNC | F_CLOSE, -1,
           0, 0);
  int r = call(e, name, fp, base(), &a, &st);
  int io = fault_off();
  free(mc_cap_end());
  fits_get_hdu_num(fp, &h1);
  n1 = fp->Fptr->bytepos;
  (void)s2;
  MC_CHECK(st == want, "%s: %s changed the pending status %d to %d", ctx,
           entry[e], want, st);
  MC_CHECK(r == want, "%s: %s returned %d with status %d pending", ctx, entry[e],
           r, want);
  MC_CHECK(!memcmp(&a, &b, sizeof(a)),
           "%s: %s with status %d pending changed the caller's structure", ctx,
           entry[e], want);
  MC_CHECK(h0 == h1 && n0 == n1,
           "%s: %s with status %d pending moved the file from HDU %d to %d", ctx,
           entry[e], want, h0, h1);
  MC_CHECK(io == 0, "%s: %s with status %d pending accessed the file", ctx,
           entry[e], want);
  MC_CHECK(ds_hash(base(), 0) == before, "%s: dataset changed", ctx);
}

static const char *const names[] = {"", "ARR0", "NONE"};

/* every call at every position of a file, nothing but that call */
static void c19_pending(void)
{
  int e = mc_pick(NENTRY, "entry");
  int want = statuses[mc_pick(NSTAT, "status")];
  int mode = mc_pick(2, "mode"); /* read-only or read-write */
  int hush = mc_pick(2, "hush");
  int nm = mc_pick(e == R_ARRAY || e == R_WAVE || e == R_CORR ? 3 : 1, "name");
  const char *src = basefile();
  static int nhdu;
  size_t n0, n1;
  int st = 0;
  fitsfile *fp = NULL;
  if (!nhdu)
  {
    fits_open_file(&fp, src, READONLY, &st);
    fits_get_num_hdus(fp, &nhdu, &st);
    fits_close_file(fp, &st);
  }
  int pos = mc_pick(nhdu, "hdu") + 1;
  mc_mine();
  const char *fn = mc_path("p.fits");
  char *b0 = slurp(src, &n0);
  spew(fn, b0, n0);
  fits_open_file(&fp, fn, mode ? READWRITE : READONLY, &st);
  fits_movabs_hdu(fp, pos, NULL, &st);
  MC_CHECK(st == 0, "sample not opened (%d)", st);
  oi_hush_errors = hush;
  nop(e, names[nm], fp, want, "pending");
  nop(e, names[nm], fp, want, "pending, again");
  oi_hush_errors = 0;
  /* without the status the call works as ever */
  int h = 0;
  fits_get_hdu_num(fp, &h);
  fits_close_file(fp, &st);
  MC_CHECK(st == 0, "sample not closed (%d)", st);
  char *b1 = slurp(fn, &n1);
  MC_CHECK(n0 == n1 && !memcmp(b0, b1, n0),
           "%s with status %d pending changed the file", entry[e], want);
  mc_outcome((uint64_t)(e * 100 + h));
  free(b0), free(b1);
  unlink(fn);
}

/* write_oi_fits and read_oi_fits */
static void c19_files(void)
{
  int rd = mc_pick(2, "operation");
  int want = statuses[mc_pick(NSTAT, "status")];
  int exists = mc_pick(3, "file"); /* no, dataset, garbage */
  int hush = mc_pick(2, "hush");
  mc_mine();
  const char *fn = mc_path("q.fits");
  unlink(fn);
  size_t n0 = 0, n1;
  char *b0 = NULL;
  if (exists)
  {
    b0 = exists == 1 ? slurp(basefile(), &n0) : strdup("garbage");
    if (exists == 2) n0 = 7;
    spew(fn, b0, n0);
  }
  oi_hush_errors = hush;
  int st = want, r, fds = open_fds();
  oi_fits a, b;
  memset(&a, 0xa5, sizeof(a));
  b = a;
  uint64_t before = ds_hash(base(), 0);
  mc_cap_begin();
  if (rd)
    r = read_oi_fits(fn, &a, &st);
  else
    r = write_oi_fits(fn, *base(), &st);
  free(mc_cap_end());
  oi_hush_errors = 0;
  MC_CHECK(r == want && st == want, "status %d became %d/%d", want, r, st);
  MC_CHECK(!memcmp(&a, &b, sizeof(a)), "structure changed");
  MC_CHECK(ds_hash(base(), 0) == before, "dataset changed");
  MC_CHECK(open_fds() == fds, "descriptor left open");
  if (exists)
  {
    char *b1 = slurp(fn, &n1);
    MC_CHECK(n0 == n1 && !memcmp(b0, b1, n0), "existing file changed");
    free(b1);
  }
  else
    MC_CHECK(!file_exists(fn), "file created with an error pending");
  free(b0);
  unlink(fn);
}

/* ---- sequences of calls on one status ---- */
static const struct
{
  int e;
  const char *name;
} rops[] = {
    {R_HEADER, ""},     {R_TARGET, ""},   {R_ARRAY, "ARR0"},  {R_ARRAY, "NONE"},
    {R_ARRAYN, ""},     {R_WAVE, "INS0"}, {R_WAVE, "NONE"},   {R_WAVEN, ""},
    {R_CORR, "COR0"},   {R_CORR, "NONE"}, {R_CORRN, ""},      {R_INSPOL, ""},
    {R_VIS, ""},        {R_VIS2, ""},     {R_T3, ""},         {R_FLUX, ""},
    {W_VIS, ""},        {W_HEADER, ""}};
#define NROPS ((int)(sizeof(rops) / sizeof(*rops)))

/* reading until something fails, and on */
static void c19_reads(void)
{
  int len = mc_thorough ? 4 : 3, op[8];
  int variant = mc_pick(3, "file"); /* sound, bad table, truncated */
  for (int i = 0; i < len; i++) op[i] = mc_pick(NROPS, "call");
  /* writing is not for sound status here (the file is open for reading) */
  if (rops[op[0]].e >= NREAD) mc_skip();
  mc_mine();
  char src[600];
  strcpy(src, basefile());
  const char *fn = src;
  if (variant)
  {
    static bool made[3];
    strcpy(src, mc_path(variant == 1 ? "bad.fits" : "short.fits"));
    if (!made[variant])
    {
      size_t n;
      char *b = slurp(basefile(), &n);
      if (variant == 1)
      {
        /* a data table and an array table without a mandatory column */
        rf_file *f = rf_read(basefile());
        static const char *const t[] = {"OI_VIS", "OI_ARRAY", "OI_CORR"};
        for (int i = 0; i < 3; i++)
        {
          rf_hdu *h = &f->h[rf_nth(f, t[i], 0)];
          rf_delcol(h, 1);
          rf_seal(h);
        }
        rf_write(f, src);
        rf_free(f);
      }
      else
        spew(src, b, n * 2 / 3);
      free(b);
      made[variant] = true;
    }
  }
  fitsfile *fp = NULL;
  int st = 0, failed = 0, fds = open_fds();
  fits_open_file(&fp, fn, READONLY, &st);
  if (st)
  {
    MC_CHECK(variant == 2, "sample not opened");
    return;
  }
  char ctx[200];
  uint64_t h = 0;
  for (int i = 0; i < len; i++)
  {
    int e = rops[op[i]].e;
    if (failed)
    {
      snprintf(ctx, sizeof(ctx), "call %d after a failure in call %d", i + 1,
               failed);
      nop(e, rops[op[i]].name, fp, st, ctx);
      continue;
    }
    if (e >= NREAD) break;
    any a;
    memset(&a, 0xa5, sizeof(a));
    mc_cap_begin();
    int r = call(e, rops[op[i]].name, fp, base(), &a, &st);
    free(mc_cap_end());
    MC_CHECK(r == st, "%s returned %d but left status %d", entry[e], r, st);
    if (st)
      failed = i + 1;
    else
      drop(e, &a);
    h = h * 31 + (uint64_t)st;
  }
  int close = 0;
  fits_close_file(fp, &close);
  MC_CHECK(open_fds() == fds, "descriptor left open");
  mc_outcome(h);
}

static oi_fits *large(void)
{
  static oi_fits *oi;
  if (!oi)
  {
    oi = ds_new();
    ds_targets(oi, 1000, false);
    ds_array(oi, "ARR0", 1500, 0);
    ds_wave(oi, "INS0", 2000, 0);
    ds_corr(oi, "COR0", 40, 8000, 0);
    ds_inspol(oi, "ARR0", "INS0", 60, 50, 0);
    ds_vis(oi, "ARR0", "INS0", "COR0", 60, 50, 1);
    ds_vis2(oi, "ARR0", "INS0", "COR0", 120, 50, 2);
    ds_t3(oi, "ARR0", "INS0", "COR0", 60, 50, 3);
    ds_flux(oi, "ARR0", "INS0", "COR0", 120, 50, 4);
    ds_keep(oi);
  }
  return oi;
}

/* writing until something fails, and on */
static void c19_writes(void)
{
  int len = mc_thorough ? 3 : 2, op[8];
  for (int i = 0; i < len; i++) op[i] = mc_pick(NENTRY - NREAD, "call");
  int at = mc_pick(mc_thorough ? 100 : 60, "fault"); /* failing I/O call */
  mc_mine();
  const char *fn = mc_path("s.fits");
  unlink(fn);
  fitsfile *fp = NULL;
  int st = 0, failed = 0;
  fits_create_file(&fp, fn, &st);
  MC_CHECK(st == 0, "file not created");
  if (op[0] != W_HEADER - NREAD) write_oi_header(fp, large()->header, &st);
  int n = 0;
  bool all = false;
  for (int i = 0; i < len; i++)
  {
    int e = NREAD + op[i];
    if (failed)
    {
      char ctx[100];
      snprintf(ctx, sizeof(ctx), "call %d after a failure in call %d", i + 1,
               failed);
      nop(e, "", fp, st, ctx);
      continue;
    }
    any a;
    mc_cap_begin();
    fault_on(F_WRITE | F_FLUSH, at - n, 1, 0);
    if (at < n) fault_on(F_WRITE | F_FLUSH, -1, 0, 0);
    int r = call(e, "", fp, large(), &a, &st);
    n += fault_off();
    free(mc_cap_end());
    MC_CHECK(r == st, "%s returned %d but left status %d", entry[e], r, st);
    if (st) failed = i + 1;
  }
  all = !failed;
  int close = st;
  fits_close_file(fp, &close);
  MC_CHECK(!st || close == st, "status lost");
  mc_outcome((uint64_t)(failed * 1000 + st + (all ? 1 : 0)));
  unlink(fn);
}

const mc_scope scopes_status[] = {
    {"C19", "pending", c19_pending, 0, 0, 0,
     "every table-level entry point with every pending status, at every HDU of a file open for reading or writing"},
    {"C19", "files", c19_files, 0, 0, 0,
     "file-level reads and writes with every pending status and existing, missing or unsound files"},
    {"C19", "reads", c19_reads, 0, 0, 0,
     "all sequences of 3 (thorough 4) calls on one status, on sound, unsound and truncated files"},
    {"C19", "writes", c19_writes, 0, 0, 0,
     "all sequences of 3 (thorough 4) writes on one status with a failing I/O call at every position"},
    {0}};
