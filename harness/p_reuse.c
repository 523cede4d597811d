/* One place, changing contents: the operations of a property give the results
 * for what is there now, whatever was there, or was done, before. Sequences of
 * (contents, operation) over a dataset struct, a filter specification and an
 * iterator that stay at the same address. */
#include "chk.h"
#include "filt.h"
#include "mrg.h"
#include <unistd.h>

void lookup_check(const oi_fits *, const oi_fits *, const char *);
void filter_judge(oi_fits *in, oi_filter_spec *f, int mode);
void iter_full(const oi_fits *d, const oi_filter_spec *f, int type, bool null);
void count_check(const oi_fits *);
void summary_expect(const oi_fits *);
void atomic_check(const oi_fits *);
void write_verify(const oi_fits *);
oi_fits *dup_all(const oi_fits *);

enum { NCONT = 7 };
static oi_fits *cont[NCONT];
static oi_fits box;

#define DATA(list, T, ...)                                                     \
  for (GList *l = oi->list; l; l = l->next)                                    \
  {                                                                            \
    T *t = l->data;                                                            \
    (void)t;                                                                   \
    for (long i = 0; i < t->numrec; i++)                                       \
    {                                                                          \
      T##_record *r = &t->record[i];                                           \
      __VA_ARGS__                                                              \
    }                                                                          \
  }

/* the same names and sizes, other values */
static void alter(oi_fits *oi)
{
  int n = oi->targets.ntarget;
  for (int i = 0; i < n / 2; i++)
  {
    target x = oi->targets.targ[i];
    oi->targets.targ[i] = oi->targets.targ[n - 1 - i];
    oi->targets.targ[n - 1 - i] = x;
  }
  for (GList *l = oi->arrayList; l; l = l->next)
  {
    oi_array *a = l->data;
    a->arrayx += 5;
    for (int i = 0; i < a->nelement / 2; i++)
    {
      element x = a->elem[i];
      a->elem[i] = a->elem[a->nelement - 1 - i];
      a->elem[a->nelement - 1 - i] = x;
    }
    for (int i = 0; i < a->nelement; i++)
      a->elem[i].staxyz[0] += 1;
  }
  for (GList *l = oi->wavelengthList; l; l = l->next)
  {
    oi_wavelength *w = l->data;
    for (int i = 0; i < w->nwave / 2; i++)
    {
      float x = w->eff_wave[i];
      w->eff_wave[i] = w->eff_wave[w->nwave - 1 - i];
      w->eff_wave[w->nwave - 1 - i] = x;
    }
    for (int i = 0; i < w->nwave; i++)
      w->eff_band[i] *= 2;
  }
  for (GList *l = oi->corrList; l; l = l->next)
  {
    oi_corr *c = l->data;
    for (int i = 0; i < c->ncorr; i++)
      c->corr[i] = -c->corr[i];
  }
  DATA(inspolList, oi_inspol, r->mjd_obs += 1, r->mjd_end += 1;)
#define FL                                                                     \
  r->mjd += 0.25;                                                              \
  r->int_time += 1;                                                            \
  for (int k = 0; k < t->nwave; k++)                                           \
    r->flag[k] = !r->flag[k];
  DATA(visList, oi_vis, r->ucoord *= 1.5; FL)
  DATA(vis2List, oi_vis2, r->ucoord *= 1.5; FL)
  DATA(t3List, oi_t3, r->u1coord *= 1.5; r->v2coord *= 1.5; FL)
  DATA(fluxList, oi_flux, FL)
  SETS(oi->header.object, "OTHER OBJECT");
}

static void setup(void)
{
  if (cont[0]) return;
  cont[0] = fd_base();
  cont[1] = ds_clone(cont[0]), alter(cont[1]);
  cont[2] = ds_rich(), fd_scale(cont[2]);
  cont[3] = ds_small(), fd_scale(cont[3]);
  cont[4] = ds_new();
  cont[5] = chk_base(2, 3, 3);
  SETS(((oi_vis *)cont[5]->visList->data)->amptyp, "differential");
  ((oi_vis *)cont[5]->visList->data)->usevisrefmap = FALSE;
  free(((oi_vis *)cont[5]->visList->data)->record[0].visrefmap);
  for (int i = 0; i < 3; i++)
  {
    oi_vis_record *r = &((oi_vis *)cont[5]->visList->data)->record[i];
    if (i) free(r->visrefmap);
    r->visrefmap = NULL;
  }
  ((oi_vis2 *)cont[5]->vis2List->data)->record[1].target_id = 77;
  cont[5]->targets.targ[0].target_id = 0;
  for (int i = 0; i < 6; i++)
    ds_keep(cont[i]);
}

/* exchange the contents of two datasets with the same numbers of tables; the
 * table structs stay where they are */
static void exchange(oi_fits *a, oi_fits *b)
{
#define SW(x, y)                                                               \
  {                                                                            \
    __typeof__(x) z = x;                                                       \
    x = y;                                                                     \
    y = z;                                                                     \
  }
#define SWL(list, T)                                                           \
  for (GList *l = a->list, *m = b->list; l && m; l = l->next, m = m->next)      \
    SW(*(T *)l->data, *(T *)m->data)
  SW(a->header, b->header)
  SW(a->targets, b->targets)
  SWL(arrayList, oi_array)
  SWL(wavelengthList, oi_wavelength)
  SWL(corrList, oi_corr)
  SWL(inspolList, oi_inspol)
  SWL(visList, oi_vis)
  SWL(vis2List, oi_vis2)
  SWL(t3List, oi_t3)
  SWL(fluxList, oi_flux)
}

static bool exchanged;
static void place(int c)
{
  /* 6: the tables of 0, which now have the values of 1 */
  if ((c == 6) != exchanged)
  {
    exchange(cont[0], cont[1]);
    exchanged = c == 6;
  }
  box = *cont[c == 6 ? 0 : c];
}

static oi_filter_spec spec;
static void set_spec(int k)
{
  init_oi_filter(&spec);
  if (k == 1) SETS(spec.insname, "*1"), spec.target_id = 2, spec.accept_flagged = 0;
  if (k == 2) SETS(spec.arrname, "ARR0"), spec.wave_range[0] = 1.2e-6f, spec.mjd_range[0] = 51000;
}

/* operations 0..: filter with 3 specifications, iterators of 3 types, lookups,
 * counts and summary, checks, merge with a small dataset, merge after it,
 * write and read */
enum { O_FILTER, O_ITER = 3, O_LOOKUP = 6, O_SUMMARY, O_CHECK, O_MERGE, O_MERGE2, O_FILE, NOPS };

static oi_vis_iter place_iter;
static void use(int op)
{
  oi_fits out;
  int st = 0;
  mc_cap_begin();
  if (op < O_ITER)
  {
    set_spec(op);
    apply_oi_filter(&box, &spec, &out);
    free_oi_fits(&out);
  }
  else if (op < O_LOOKUP)
  {
    /* left half-way */
    set_spec(op - O_ITER);
    if (op == O_ITER) oi_vis_iter_init(&place_iter, &box, &spec);
    else if (op == O_ITER + 1) oi_vis2_iter_init(&place_iter, &box, &spec);
    else oi_t3_iter_init(&place_iter, &box, &spec);
    for (int i = 0; i < 5; i++)
    {
      double u;
      bool ok = op == O_ITER ? oi_vis_iter_next(&place_iter, NULL, NULL, NULL, NULL, NULL)
                : op == O_ITER + 1 ? oi_vis2_iter_next(&place_iter, NULL, NULL, NULL, NULL, NULL)
                                   : oi_t3_iter_next(&place_iter, NULL, NULL, NULL, NULL, NULL);
      if (!ok) break;
      if (op == O_ITER) oi_vis_iter_get_uv(&place_iter, &u, NULL, NULL);
      else if (op == O_ITER + 1) oi_vis2_iter_get_uv(&place_iter, &u, NULL, NULL);
      else oi_t3_iter_get_uv(&place_iter, &u, NULL, NULL, NULL, NULL);
    }
  }
  else if (op == O_LOOKUP)
  {
    for (GList *l = box.arrayList; l; l = l->next)
    {
      char *n = ((oi_array *)l->data)->arrname;
      oi_fits_lookup_array(&box, n);
      for (int k = 0; k < 4; k++)
        oi_fits_lookup_element(&box, n, k);
    }
    for (GList *l = box.wavelengthList; l; l = l->next)
      oi_fits_lookup_wavelength(&box, ((oi_wavelength *)l->data)->insname);
    for (GList *l = box.corrList; l; l = l->next)
      oi_fits_lookup_corr(&box, ((oi_corr *)l->data)->corrname);
    for (int i = 0; i < box.targets.ntarget; i++)
    {
      oi_fits_lookup_target(&box, box.targets.targ[i].target_id);
      oi_fits_lookup_target_by_name(&box, box.targets.targ[i].target);
    }
  }
  else if (op == O_SUMMARY)
  {
    long a, b, c;
    count_oi_fits_data(&box, &a, &b, &c);
    format_oi_fits_summary(&box);
    is_atomic(&box, 1);
    is_oi_fits_two(&box);
  }
  else if (op == O_CHECK)
  {
    oi_check_result r;
    for (int k = 0; k < NCHECK; k++)
      chk_fn[k](&box, &r), format_check_result(&r), free_check_result(&r);
  }
  else if (op == O_MERGE || op == O_MERGE2)
  {
    if (op == O_MERGE) merge_oi_fits(&out, &box, cont[3], NULL);
    else merge_oi_fits(&out, cont[3], &box, NULL);
    free_oi_fits(&out);
  }
  else
  {
    const char *fn = mc_path("y.fits");
    unlink(fn);
    write_oi_fits(fn, box, &st);
    read_oi_fits(fn, &out, &st);
    if (!st) free_oi_fits(&out);
    unlink(fn);
  }
  free(mc_cap_end());
}

/* one lookup, the first after the change: kind k, key number i */
static void first_lookup(int k, int i)
{
  const char *s;
  char key[FLEN_VALUE + 1];
  void *want = NULL, *got;
#define FIRST(list, T, name, fn)                                               \
  {                                                                            \
    T *t = g_list_nth_data(box.list, i);                                       \
    if (!t) return;                                                            \
    snprintf(key, sizeof(key), "%s", s = t->name);                             \
    for (GList *l = box.list; l && !want; l = l->next)                         \
      if (!strcmp(((T *)l->data)->name, s)) want = l->data;                    \
    got = fn(&box, key);                                                       \
  }
  if (k == 0) FIRST(arrayList, oi_array, arrname, oi_fits_lookup_array)
  else if (k == 1) FIRST(wavelengthList, oi_wavelength, insname, oi_fits_lookup_wavelength)
  else if (k == 2) FIRST(corrList, oi_corr, corrname, oi_fits_lookup_corr)
  else if (k == 3)
  {
    oi_array *t = g_list_nth_data(box.arrayList, i);
    if (!t) return;
    for (int n = 0; n < t->nelement; n++)
    {
      element *e = &t->elem[n];
      for (int m = n - 1; m >= 0; m--)
        if (t->elem[m].sta_index == t->elem[n].sta_index) e = &t->elem[m];
      snprintf(key, sizeof(key), "%s", t->arrname);
      MC_CHECK(oi_fits_lookup_element(&box, key, e->sta_index) == e,
               "first lookup of station %d of %s is wrong", e->sta_index, key);
    }
    return;
  }
  else
  {
    if (i >= box.targets.ntarget) return;
    target *t = &box.targets.targ[i];
    snprintf(key, sizeof(key), "%s", t->target);
    for (int m = i; m >= 0; m--)
      if (k == 4 ? t[m - i].target_id == t->target_id : !strcmp(t[m - i].target, key))
        want = &t[m - i];
    got = k == 4 ? oi_fits_lookup_target(&box, t->target_id)
                 : oi_fits_lookup_target_by_name(&box, key);
  }
  MC_CHECK(got == want, "first lookup of kind %d, key %d is wrong", k, i);
}

static void judge(const char *prop, int op)
{
  oi_fits out;
  if (!strcmp(prop, "C04") || !strcmp(prop, "C05"))
  {
    set_spec(op);
    filter_judge(&box, &spec, prop[2] == '5');
  }
  else if (!strcmp(prop, "C10"))
  {
    set_spec(op % 3);
    iter_full(&box, &spec, op / 3, op % 3 == 0);
  }
  else if (!strcmp(prop, "C14"))
  {
    first_lookup(op / 3, op % 3);
    lookup_check(&box, cont[2], "lookup");
  }
  else if (!strcmp(prop, "C21"))
    count_check(&box), summary_expect(&box), atomic_check(&box);
  else if (!strcmp(prop, "C11")) chk_run(&box);
  else if (!strcmp(prop, "C08") || !strcmp(prop, "C09"))
  {
    oi_fits *in[2] = {op ? cont[3] : &box, op ? &box : cont[3]};
    mg_run(in, 2, &out);
    if (prop[2] == '8') merge_check_data(in, 2, &out);
    else merge_check_support(in, 2, &out, true);
    free_oi_fits(&out);
  }
  else if (!strcmp(prop, "C02")) write_verify(&box);
  else if (!strcmp(prop, "C15"))
  {
    oi_fits *want = ds_clone(&box), *d = dup_all(&box), *up = ds_clone(&box);
    ds_expect(want, d, SER_RAW, "copy");
    ds_downgrade(up);
    upgrade_oi_target(&up->targets);
    for (GList *l = up->arrayList; l; l = l->next)
      upgrade_oi_array(l->data);
    for (GList *l = up->wavelengthList; l; l = l->next)
      upgrade_oi_wavelength(l->data);
    for (GList *l = up->visList; l; l = l->next)
      upgrade_oi_vis(l->data);
    for (GList *l = up->vis2List; l; l = l->next)
      upgrade_oi_vis2(l->data);
    for (GList *l = up->t3List; l; l = l->next)
      upgrade_oi_t3(l->data);
    ds_expect(want, up, SER_RAW | SER_NOTIME | SER_NOHEADER, "upgraded");
    ds_expect(want, &box, SER_RAW, "original");
    ds_free(want), ds_free(up), ds_free(d);
  }
  else /* C01 */
  {
    const char *fn = mc_path("x.fits");
    int st = 0;
    oi_fits *want = ds_clone(&box), back;
    unlink(fn);
    write_oi_fits(fn, box, &st);
    read_oi_fits(fn, &back, &st);
    MC_CHECK(st == 0, "write or read failed (%d)", st);
    ds_as_written(want);
    ds_expect(want, &back, SER_NODATE | SER_KW15, "written and read");
    free_oi_fits(&back);
    ds_free(want);
    unlink(fn);
  }
  mc_evals(1);
}

static void reuse(const char *prop, int last)
{
  /* the cheap ones with longer sequences */
  int n = mc_thorough || !strcmp(prop, "C11") || !strcmp(prop, "C21") ? 2 : 1;
  int c[4], op[3];
  for (int i = 0; i < n; i++)
  {
    c[i] = mc_pick(NCONT, "contents");
    op[i] = mc_pick(NOPS, "operation");
  }
  c[n] = mc_pick(NCONT, "last contents");
  int o = last > 1 ? mc_pick(last, "last operation") : 0;
  mc_mine();
  setup();
  for (int i = 0; i < n; i++)
    place(c[i]), use(op[i]);
  place(c[n]);
  judge(prop, o);
  mc_outcome(c[n] * 100 + o);
}
static void c01_reuse(void) { reuse("C01", 1); }
static void c02_reuse(void) { reuse("C02", 1); }
static void c15_reuse(void) { reuse("C15", 1); }
static void c04_reuse(void) { reuse("C04", 3); }
static void c05_reuse(void) { reuse("C05", 3); }
static void c08_reuse(void) { reuse("C08", 2); }
static void c09_reuse(void) { reuse("C09", 2); }
static void c10_reuse(void) { reuse("C10", 9); }
static void c11_reuse2(void) { reuse("C11", 1); }
static void c14_reuse(void) { reuse("C14", 18); }
/* sequences of single lookups in one dataset and in two in turn */
static const char *const lk_name[] = {"ARR0", "ARR1", "NONE"},
                  *const lk_ins[] = {"INS0", "INS1", "NONE"},
                  *const lk_cor[] = {"COR0", "COR1", "NONE"};
enum { NLOOK = 9 + 12 + 4 + 3 };
static void lookup_one(const oi_fits *d, int k)
{
  char key[FLEN_VALUE + 1];
  void *want = NULL, *got;
#define FIND(list, T, name, nm, fn)                                            \
  {                                                                            \
    snprintf(key, sizeof(key), "%s", nm);                                      \
    for (GList *l = d->list; l && !want; l = l->next)                          \
      if (!strcmp(((T *)l->data)->name, nm)) want = l->data;                   \
    got = fn(d, key);                                                          \
  }
  if (k < 3) FIND(arrayList, oi_array, arrname, lk_name[k], oi_fits_lookup_array)
  else if (k < 6) FIND(wavelengthList, oi_wavelength, insname, lk_ins[k - 3], oi_fits_lookup_wavelength)
  else if (k < 9) FIND(corrList, oi_corr, corrname, lk_cor[k - 6], oi_fits_lookup_corr)
  else if (k < 21)
  {
    int j = (k - 9) % 4, sta = j < 3 ? j + 1 : 99;
    oi_array *t = NULL;
    snprintf(key, sizeof(key), "%s", lk_name[(k - 9) / 4]);
    for (GList *l = d->arrayList; l && !t; l = l->next)
      if (!strcmp(((oi_array *)l->data)->arrname, key)) t = l->data;
    for (int i = 0; t && i < t->nelement && !want; i++)
      if (t->elem[i].sta_index == sta) want = &t->elem[i];
    got = oi_fits_lookup_element(d, key, sta);
  }
  else if (k < 25)
  {
    int id = k == 24 ? 77 : k - 20;
    for (int i = 0; i < d->targets.ntarget && !want; i++)
      if (d->targets.targ[i].target_id == id) want = &d->targets.targ[i];
    got = oi_fits_lookup_target(d, id);
  }
  else
  {
    snprintf(key, sizeof(key), k == 27 ? "NONE" : "%s",
             k - 25 < d->targets.ntarget ? d->targets.targ[k - 25].target : "NOT");
    for (int i = 0; i < d->targets.ntarget && !want; i++)
      if (!strcmp(d->targets.targ[i].target, key)) want = &d->targets.targ[i];
    got = oi_fits_lookup_target_by_name(d, key);
  }
  MC_CHECK(got == want, "lookup %d %s", k, want ? "does not return the first match" : "finds what is not there");
}
static void c14_lookups(void)
{
  int n = mc_thorough ? 4 : 3, k[4], d[4];
  for (int i = 0; i < n; i++)
  {
    d[i] = mc_pick(2, "dataset");
    k[i] = mc_pick(NLOOK, "lookup");
    if (i == 1) mc_mine();
  }
  setup();
  for (int i = 0; i < n; i++)
    lookup_one(cont[d[i] ? 2 : 0], k[i]);
  mc_evals(n);
}
static void c21_reuse(void) { reuse("C21", 1); }

#define WHAT                                                                   \
  "all sequences of 1 or 2 (thorough 2) uses - 7 contents of one dataset struct x 12 operations - before the operation judged"
const mc_scope scopes_reuse[] = {
    {"C01", "reuse", c01_reuse, 0, 0, 0, WHAT},
    {"C02", "reuse", c02_reuse, 0, 0, 0, WHAT},
    {"C15", "reuse", c15_reuse, 0, 0, 0, WHAT},
    {"C04", "reuse", c04_reuse, 0, 0, 0, WHAT},
    {"C05", "reuse", c05_reuse, 0, 0, 0, WHAT},
    {"C08", "reuse", c08_reuse, 0, 0, 0, WHAT},
    {"C09", "reuse", c09_reuse, 0, 0, 0, WHAT},
    {"C10", "reuse", c10_reuse, 0, 0, 0, WHAT},
    {"C11", "reuse-dataset", c11_reuse2, 0, 0, 0, WHAT},
    {"C14", "reuse", c14_reuse, 0, 0, 0, WHAT},
    {"C14", "lookups", c14_lookups, 0, 0, 0,
     "all sequences of 3 (thorough 4) single lookups (28 keys, present and absent) in two datasets"},
    {"C21", "reuse", c21_reuse, 0, 0, 0, WHAT},
    {0}};
