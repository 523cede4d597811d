/* C02: files written, seen by an independent reader */
#include "filt.h"
#include "mrg.h"
#include "oif.h"
#include <unistd.h>

void write_verify(const oi_fits *oi)
{
  const char *fn = mc_path("w.fits");
  unlink(fn);
  int st = 0;
  mc_cap_begin();
  int r = write_oi_fits(fn, *oi, &st);
  free(mc_cap_end());
  MC_CHECK(st == 0 && r == 0, "write failed, status %d/%d", r, st);
  mc_outcome(oif_verify(fn, oi));
  unlink(fn);
}

static void c02_options(void) { write_verify(ds_options()); }

static void c02_shape(void)
{
  oi_fits *oi = ds_gen(true);
  mc_mine();
  write_verify(oi);
}

static void c02_cells(void)
{
  static oi_fits *base;
  static cell *cells;
  static int n;
  if (!base)
  {
    base = ds_rich();
    ds_keep(base);
    n = ds_cells(base, &cells);
  }
  int i = mc_pick(n, "cell");
  int v = mc_pick(cell_nvalues(&cells[i]), "value");
  mc_mine();
  oi_fits *oi = ds_clone(base);
  cell *c;
  ds_cells(oi, &c);
  bool ok = cell_set(&c[i], v);
  free(c);
  if (ok) write_verify(oi);
}

/* revisions and times that the writer has to replace */
static void c02_revision(void)
{
  static const int rv[] = {2, 1, 0, 3, 7};
  oi_fits *oi = ds_rich();
#define REV(list, type, cur)                                                   \
  for (GList *l = oi->list; l; l = l->next)                                    \
  {                                                                            \
    int d = mc_dev(5, #list);                                                  \
    ((type *)l->data)->revision = d == 0 ? cur : rv[d];                        \
  }
  oi->targets.revision = rv[mc_dev(5, "target")];
  REV(arrayList, oi_array, 2)
  REV(wavelengthList, oi_wavelength, 2)
  REV(visList, oi_vis, 2)
  REV(vis2List, oi_vis2, 2)
  REV(t3List, oi_t3, 2)
  REV(corrList, oi_corr, 1)
  REV(inspolList, oi_inspol, 1)
  REV(fluxList, oi_flux, 1)
  switch (mc_dev(4, "content"))
  {
  case 1: SETS(oi->header.content, ""); break;
  case 2: SETS(oi->header.content, "OIFITS1"); break;
  case 3: SETS(oi->header.date, ""); break;
  }
  static const double tm[] = {0, 1, -3600, 86399.5};
  double t = tm[mc_dev(4, "time")];
  mc_mine();
  oi_vis *v = NTH(oi->visList, 0);
  oi_vis2 *v2 = NTH(oi->vis2List, 0);
  oi_t3 *t3 = NTH(oi->t3List, 0);
  v->record[1].time = v2->record[1].time = t3->record[1].time = t;
  write_verify(oi);
}

/* datasets that were filtered, merged, or read back */
static void c02_derived(void)
{
  int kind = mc_pick(3, "origin");
  oi_fits out;
  if (kind == 0)
  {
    oi_filter_spec f;
    init_oi_filter(&f);
    oi_fits *oi = fd_base();
    fs_gen(&f, FS_ALL);
    mc_mine();
    mc_cap_begin();
    apply_oi_filter(oi, &f, &out);
    free(mc_cap_end());
  }
  else if (kind == 1)
  {
    oi_fits *in[2];
    in[0] = mg_input(0);
    in[1] = mg_input(1);
    mc_mine();
    mg_run(in, 2, &out);
  }
  else
  {
    oi_fits *oi = ds_gen(true);
    mc_mine();
    const char *fn = mc_path("w.fits");
    int st = 0;
    unlink(fn);
    MC_CHECK(write_oi_fits(fn, *oi, &st) == 0, "write failed");
    MC_CHECK(read_oi_fits(fn, &out, &st) == 0, "read failed");
  }
  write_verify(&out);
  free_oi_fits(&out);
}

/* one dimension at a time over a long range */
static void c02_sweep(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 120 : 24, 10001);
  mc_mine();
  write_verify(ds_sized(dim, n, 0, false));
}

/* a container in memory with any previous contents, initialised, filled with
 * tables and written */
static void c02_init(void)
{
  static const int junk[] = {0, 0xff, 0x5a, 0x41, 1};
  int b = junk[mc_pick(5, "previous-contents")], what = mc_pick(3, "filled with");
  mc_mine();
  oi_fits *oi = xalloc(sizeof(*oi));
  memset(oi, b, sizeof(*oi));
  init_oi_fits(oi);
#define EMPTY(f) MC_CHECK(!oi->header.f[0], "header." #f " = '%.70s' after init_oi_fits()", oi->header.f)
  EMPTY(origin); EMPTY(date); EMPTY(content); EMPTY(telescop); EMPTY(instrume);
  EMPTY(observer); EMPTY(insmode); EMPTY(object); EMPTY(referenc); EMPTY(author);
  EMPTY(prog_id); EMPTY(procsoft); EMPTY(obstech); EMPTY(date_obs);
  MC_CHECK(oi->targets.ntarget == 0 && !oi->targets.usecategory, "%d targets after init_oi_fits()", oi->targets.ntarget);
  ds_container(oi, "after init_oi_fits()");
#define NONE(num, list) MC_CHECK(oi->num == 0 && !oi->list, #num " = %d after init_oi_fits()", oi->num)
  NONE(numArray, arrayList); NONE(numWavelength, wavelengthList); NONE(numCorr, corrList);
  NONE(numInspol, inspolList); NONE(numVis, visList); NONE(numVis2, vis2List);
  NONE(numT3, t3List); NONE(numFlux, fluxList);
  MC_CHECK(!oi_fits_lookup_array(oi, "") && !oi_fits_lookup_wavelength(oi, "INS0") && !oi_fits_lookup_corr(oi, "C") &&
               !oi_fits_lookup_target(oi, 1) && !oi_fits_lookup_target_by_name(oi, ""),
           "something found after init_oi_fits()");
  if (what)
  {
    oi_fits *src = what == 1 ? ds_small() : ds_rich();
    free(oi->targets.targ);
    cl_target(&src->targets, &oi->targets);
    SETS(oi->header.content, "OIFITS2");
#define TAKE(list, add, cl)                                                    \
  for (GList *l = src->list; l; l = l->next) add(oi, cl(l->data));
    TAKE(arrayList, add_array, cl_array)
    TAKE(wavelengthList, add_wave, cl_wave)
    TAKE(corrList, add_corr, cl_corr)
    TAKE(inspolList, add_inspol, cl_inspol)
    TAKE(visList, add_vis, cl_vis)
    TAKE(vis2List, add_vis2, cl_vis2)
    TAKE(t3List, add_t3, cl_t3)
    TAKE(fluxList, add_flux, cl_flux)
    set_oi_header(oi);
    write_verify(oi);
  }
  mc_outcome(mc_hash(&oi->header, sizeof(oi->header), b * 3 + what));
  free_oi_fits(oi);
  free(oi);
}

const mc_scope scopes_file[] = {
    {"C02", "options", c02_options, 0, 0, 0,
     "all combinations of the optional keywords and columns of one data table"},
    {"C02", "shape", c02_shape, 2, 3, 0,
     "all datasets within the deviation bound of a dataset with one table of each type"},
    {"C02", "cells", c02_cells, 0, 0, 0,
     "every scalar cell of a dataset using all features, set to every special value"},
    {"C02", "revision", c02_revision, 2, 3, 0,
     "tables with every mixture (within the bound) of other revision numbers, CONTENT and TIME values"},
    {"C02", "derived", c02_derived, 1, 2, 0,
     "datasets obtained by filtering, merging or reading"},
    {"C02", "sweep", c02_sweep, 0, 0, 0,
     "each of 18 dimensions (rows, channels, tables of each type) over a contiguous range and boundary sizes"},
    {"C02", "init", c02_init, 0, 0, 0,
     "a container in memory with any of five previous contents: empty after initialisation, and written after being filled"},
    {0}};
