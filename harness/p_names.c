/* Names that are nearly the same: two tables (or targets, or keyword values)
 * whose names differ in one place - any place, by another character, by case,
 * or by one name ending there. */
#include "chk.h"
#include "filt.h"
#include "mrg.h"
#include <unistd.h>

void lookup_check(const oi_fits *, const oi_fits *, const char *);
void filter_judge(oi_fits *in, oi_filter_spec *f, int mode);
void iter_full(const oi_fits *d, const oi_filter_spec *f, int type, bool null);
void count_check(const oi_fits *);
void summary_expect(const oi_fits *);
void atomic_check(const oi_fits *);
void write_verify(const oi_fits *);
void merge_judge(oi_fits **in, int n, int which);
void v1_judge(oi_fits *oi);

enum { K_ARRN, K_INSN, K_CORN, K_TGTN, NKIND };
#define NAMELEN 67

/* the names: picks; c is a third one that differs from both at the same place */
void near_names(int maxlen, char *a, char *b, char *c)
{
  int how = mc_pick(3, "difference"), p = mc_pick(maxlen, "at"), sw = mc_pick(2, "swapped");
  if (how == 2 && p == 0) mc_skip(); /* the empty name */
  char x[3][NAMELEN + 1];
  for (int k = 0; k < 3; k++)
  {
    for (int i = 0; i < maxlen; i++)
      x[k][i] = 'a' + i % 26;
    x[k][maxlen] = 0;
  }
  if (how == 0) x[0][p] = '1', x[1][p] = '2', x[2][p] = '3';
  if (how == 1) x[1][p] += 'A' - 'a', x[2][p] = '-';
  if (how == 2) x[0][p + 1] = 0, x[1][p] = 0, x[2][p] = 'Z', x[2][p + 1] = 0;
  strcpy(sw ? b : a, x[0]);
  strcpy(sw ? a : b, x[1]);
  strcpy(c, x[2]);
}

/* a dataset with those of the two names; which: bit 0 first, bit 1 second */
static oi_fits *with(int kind, const char *a, const char *b, int which, int tag, bool v1)
{
  oi_fits *oi = ds_new();
  if (v1) memset(&oi->header, 0, sizeof(oi->header));
  const char *A[2] = {"ARR0", "ARR1"}, *N[2] = {"INS0", "INS1"}, *C[2] = {"COR0", "COR1"};
  if (kind == K_ARRN) A[0] = a, A[1] = b;
  if (kind == K_INSN) N[0] = a, N[1] = b;
  if (kind == K_CORN) C[0] = a, C[1] = b;
  if (v1) C[0] = C[1] = "";
  bool two = kind == K_TGTN;
  ds_targets(oi, two && which != 3 ? 1 : 2, false);
  if (two)
    for (int i = 0; i < oi->targets.ntarget; i++)
      SETS(oi->targets.targ[i].target, which == 3 ? (i ? b : a) : which == 1 ? a : b);
  for (int i = 0; i < 2; i++)
    if (two || which & (i + 1))
    {
      ds_array(oi, A[i], 2 + i, tag + i);
      ds_wave(oi, N[i], 2 + i, tag + i);
      if (!v1) ds_corr(oi, C[i], 9, 2, tag + i);
      if (!v1) ds_inspol(oi, A[i], N[i], 1, 2 + i, tag + i);
    }
  /* first, second, first, second: nothing may stick */
  for (int k = 0; k < 4; k++)
  {
    int i = k % 2;
    if (!two && !(which & (i + 1))) continue;
    int id = two ? (oi->targets.ntarget > 1 ? 1 + i : 1) : 1;
    oi_vis *v = ds_vis(oi, A[i], N[i], C[i], 2, 2 + i, tag + k);
    oi_vis2 *w = ds_vis2(oi, A[i], N[i], C[i], 2, 2 + i, tag + k);
    oi_t3 *t = ds_t3(oi, A[i], N[i], C[i], 2, 2 + i, tag + k);
    oi_flux *f = v1 ? NULL : ds_flux(oi, A[i], N[i], C[i], 2, 2 + i, tag + k);
    for (int r = 0; r < 2; r++)
    {
      v->record[r].target_id = w->record[r].target_id = t->record[r].target_id = id;
      if (f) f->record[r].target_id = id;
    }
  }
  fd_scale(oi);
  return oi;
}

static char a[NAMELEN + 2], b[NAMELEN + 2], c[NAMELEN + 2];
static int kind;
static void choose(int nkind)
{
  kind = mc_pick(nkind, "kind");
  near_names(kind == K_TGTN ? 32 : NAMELEN, a, b, c);
}

/* filters that tell the two apart */
static void spec(oi_filter_spec *f, int n)
{
  init_oi_filter(f);
  char *s = kind == K_ARRN ? f->arrname : kind == K_INSN ? f->insname : kind == K_CORN ? f->corrname : NULL;
  size_t k = 0;
  while (a[k] && a[k] == b[k]) k++;
  if (s)
  {
    if (n == 1) strcpy(s, a);
    if (n == 2) strcpy(s, c);
    if (n == 3) sprintf(s, "%.*s?*", (int)k, a);
    if (n == 4) sprintf(s, "*%s", a + k);
  }
  else if (n) f->target_id = n;
  /* drops the tables of one name by another criterion */
  if (n == 5) SETS(f->arrname, kind == K_ARRN ? "*" : "ARR1"), SETS(f->insname, kind == K_ARRN ? "INS0" : "*");
}
static void filtered(int mode)
{
  choose(NKIND);
  int n = mc_pick(6, "filter");
  mc_mine();
  oi_filter_spec f;
  spec(&f, n);
  oi_fits *oi = with(kind, a, b, 3, 0, false);
  filter_judge(oi, &f, mode);
  ds_free(oi);
}
static void c04_pairs(void) { filtered(0); }
static void c05_pairs(void) { filtered(1); }

static void c10_pairs(void)
{
  choose(NKIND);
  int n = mc_pick(6, "filter");
  mc_mine();
  oi_filter_spec f;
  spec(&f, n);
  oi_fits *oi = with(kind, a, b, 3, 0, false);
  for (int t = 0; t < 3; t++)
    iter_full(oi, &f, t, n == 0);
  ds_free(oi);
}

static void c01_pairs(void)
{
  choose(NKIND);
  mc_mine();
  oi_fits *oi = with(kind, a, b, 3, 0, false), back;
  const char *fn = mc_path("x.fits");
  int st = 0;
  unlink(fn);
  mc_cap_begin();
  write_oi_fits(fn, *oi, &st);
  read_oi_fits(fn, &back, &st);
  free(mc_cap_end());
  MC_CHECK(st == 0, "write or read failed (%d)", st);
  ds_as_written(oi);
  ds_expect(oi, &back, SER_NODATE | SER_KW15, "written and read");
  free_oi_fits(&back);
  unlink(fn);
  mc_outcome(ds_hash(oi, 0));
}
static void c02_pairs(void)
{
  choose(NKIND);
  mc_mine();
  write_verify(with(kind, a, b, 3, 0, false));
}
static void c03_pairs(void)
{
  kind = mc_pick(3, "kind") ;
  if (kind == K_CORN) kind = K_TGTN;
  near_names(kind == K_TGTN ? 16 : NAMELEN, a, b, c);
  mc_mine();
  oi_fits *oi = with(kind, a, b, 3, 0, true);
  ds_v1_defaults(oi);
  v1_judge(oi);
}

/* merging: what is in which input */
static void merged(int which)
{
  choose(NKIND + 1);
  int mode = mc_pick(4, "inputs"), same = mc_pick(2, "same contents");
  mc_mine();
  static const int w[4][3] = {{1, 2, 0}, {1, 2, 1}, {3, 2, 1}, {3, 3, 0}};
  int n = w[mode][2] ? 3 : 2;
  oi_fits *in[3];
  for (int i = 0; i < n; i++)
  {
    if (kind < NKIND)
      in[i] = with(kind, a, b, w[mode][i], same ? 0 : 5 * i, false);
    else
    {
      /* primary keywords; the stations of two arrays that are otherwise the
       * same */
      in[i] = with(K_ARRN, "X", "Y", same ? 1 : 3, 0, false);
      oi_header *h = &in[i]->header;
      const char *s = w[mode][i] == 1 ? a : w[mode][i] == 2 ? b : c;
      SETS(h->origin, s), SETS(h->telescop, s), SETS(h->instrume, s), SETS(h->observer, s), SETS(h->insmode, s);
      SETS(h->object, s), SETS(h->referenc, s), SETS(h->author, s), SETS(h->prog_id, s), SETS(h->procsoft, s);
      SETS(h->obstech, s);
    }
  }
  merge_judge(in, n, which);
  for (int i = 0; i < n; i++)
    ds_free(in[i]);
}
static void c08_pairs(void) { merged(8); }
static void c09_pairs(void) { merged(9); }

static void c11_pairs2(void)
{
  choose(NKIND);
  int mode = mc_pick(3, "tables");
  mc_mine();
  oi_fits *oi = with(kind, a, b, 3, 0, false);
  if (mode && kind != K_TGTN)
  {
    /* the table the others refer to has nearly that name, or there are two of
     * one name */
    GList *l = kind == K_ARRN ? oi->arrayList : kind == K_INSN ? oi->wavelengthList : oi->corrList;
    char *s = kind == K_ARRN ? ((oi_array *)l->next->data)->arrname
              : kind == K_INSN ? ((oi_wavelength *)l->next->data)->insname
                               : ((oi_corr *)l->next->data)->corrname;
    g_hash_table_remove(kind == K_ARRN ? oi->arrayHash : kind == K_INSN ? oi->wavelengthHash : oi->corrHash, s);
    strcpy(s, mode == 1 ? c : a);
    if (mode == 1)
      g_hash_table_insert(kind == K_ARRN ? oi->arrayHash : kind == K_INSN ? oi->wavelengthHash : oi->corrHash, s,
                          l->next->data);
  }
  else if (mode)
    SETS(oi->targets.targ[1].target, mode == 1 ? c : a);
  chk_run(oi);
  mc_outcome(mode);
  ds_free(oi);
}

static void c14_pairs(void)
{
  choose(NKIND);
  int how = mc_pick(3, "after");
  mc_mine();
  oi_fits *oi = with(kind, a, b, 3, 0, false), *other = with(kind, c, a, 1, 0, false), out;
  lookup_check(oi, other, "in memory");
  mc_cap_begin();
  if (how == 0)
  {
    const char *fn = mc_path("x.fits");
    int st = 0;
    unlink(fn);
    write_oi_fits(fn, *oi, &st);
    read_oi_fits(fn, &out, &st);
    unlink(fn);
    if (st) mc_fail("write or read failed (%d)", st);
  }
  else if (how == 1)
  {
    oi_filter_spec f;
    spec(&f, 1);
    apply_oi_filter(oi, &f, &out);
  }
  else
    merge_oi_fits(&out, oi, other, NULL);
  free(mc_cap_end());
  lookup_check(&out, oi, how == 0 ? "read" : how == 1 ? "filtered" : "merged");
  mc_outcome(how);
  free_oi_fits(&out);
}

static void c21_pairs(void)
{
  choose(NKIND);
  int w = mc_pick(3, "which"), one = mc_pick(2, "one record");
  mc_mine();
  oi_fits *oi = with(kind, a, b, w + 1, 0, false);
  if (one)
    for (int t = 0; t < 4; t++)
    {
      /* all at the same time */
      GList *l = t == 0 ? oi->visList : t == 1 ? oi->vis2List : t == 2 ? oi->t3List : oi->fluxList;
      for (; l; l = l->next)
        for (int r = 0; r < 2; r++)
        {
          if (t == 0) ((oi_vis *)l->data)->record[r].mjd = 51000;
          if (t == 1) ((oi_vis2 *)l->data)->record[r].mjd = 51000;
          if (t == 2) ((oi_t3 *)l->data)->record[r].mjd = 51000;
          if (t == 3) ((oi_flux *)l->data)->record[r].mjd = 51000;
        }
    }
  count_check(oi), summary_expect(oi), atomic_check(oi);
  mc_outcome(w * 2 + one);
  ds_free(oi);
}

#define WHAT                                                                   \
  "names of two arrays, wavelength tables, correlation tables or targets that differ in one place: every place, three kinds of difference"
const mc_scope scopes_names[] = {
    {"C01", "names", c01_pairs, 0, 0, 0, WHAT},
    {"C02", "names", c02_pairs, 0, 0, 0, WHAT},
    {"C03", "names", c03_pairs, 0, 0, 0, WHAT},
    {"C04", "names", c04_pairs, 0, 0, 0, WHAT},
    {"C05", "names", c05_pairs, 0, 0, 0, WHAT},
    {"C08", "near-names", c08_pairs, 0, 0, 0, WHAT ", primary keywords; four arrangements over inputs"},
    {"C09", "near-names", c09_pairs, 0, 0, 0, WHAT ", primary keywords; four arrangements over inputs"},
    {"C10", "names", c10_pairs, 0, 0, 0, WHAT},
    {"C11", "names", c11_pairs2, 0, 0, 0, WHAT},
    {"C14", "near-names", c14_pairs, 0, 0, 0, WHAT "; in memory, read, filtered, merged"},
    {"C21", "names", c21_pairs, 0, 0, 0, WHAT},
    {0}};
