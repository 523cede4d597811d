/* C24: tables that a caller allocates through the library */
#include "data.h"
#include "oifilter.h"
#include "oimerge.h"
#include <unistd.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);

enum
{
  T_TARGET, T_ARRAY, T_WAVE, T_CORR, T_INSPOL, T_VIS, T_VIS2, T_T3, T_FLUX, NT
};
static const char *const tname[] = {"target", "array", "wavelength", "corr",
                                    "inspol", "vis", "vis2", "t3", "flux"};
#define HASWAVE(t) ((t) >= T_INSPOL)

typedef union {
  oi_target target;
  oi_array array;
  oi_wavelength wave;
  oi_corr corr;
  oi_inspol inspol;
  oi_vis vis;
  oi_vis2 vis2;
  oi_t3 t3;
  oi_flux flux;
} any;

static void t_alloc(int t, void *p, long n, int m)
{
  switch (t)
  {
  case T_TARGET: alloc_oi_target(p, n); break;
  case T_ARRAY: alloc_oi_array(p, n); break;
  case T_WAVE: alloc_oi_wavelength(p, n); break;
  case T_CORR: alloc_oi_corr(p, n); break;
  case T_INSPOL: alloc_oi_inspol(p, n, m); break;
  case T_VIS: alloc_oi_vis(p, n, m); break;
  case T_VIS2: alloc_oi_vis2(p, n, m); break;
  case T_T3: alloc_oi_t3(p, n, m); break;
  case T_FLUX: alloc_oi_flux(p, n, m); break;
  }
}

static void t_free(int t, void *p)
{
  switch (t)
  {
  case T_TARGET: free_oi_target(p); break;
  case T_ARRAY: free_oi_array(p); break;
  case T_WAVE: free_oi_wavelength(p); break;
  case T_CORR: free_oi_corr(p); break;
  case T_INSPOL: free_oi_inspol(p); break;
  case T_VIS: free_oi_vis(p); break;
  case T_VIS2: free_oi_vis2(p); break;
  case T_T3: free_oi_t3(p); break;
  case T_FLUX: free_oi_flux(p); break;
  }
}

static void *t_dup(int t, const void *p)
{
  switch (t)
  {
  case T_TARGET: return dup_oi_target(p);
  case T_ARRAY: return dup_oi_array(p);
  case T_WAVE: return dup_oi_wavelength(p);
  case T_CORR: return dup_oi_corr(p);
  case T_INSPOL: return dup_oi_inspol(p);
  case T_VIS: return dup_oi_vis(p);
  case T_VIS2: return dup_oi_vis2(p);
  case T_T3: return dup_oi_t3(p);
  default: return dup_oi_flux(p);
  }
}

static void t_expect(int t, const void *want, const void *got, const char *ctx)
{
  switch (t)
  {
  case T_TARGET:
  {
    ser a, b;
    ser_init(&a, 0), ser_init(&b, 0);
    ser_target(&a, want, 0), ser_target(&b, got, 0);
    int same = ser_same(&a, &b);
    ser_done(&a), ser_done(&b);
    MC_CHECK(same, "%s: target table differs", ctx);
    break;
  }
  case T_ARRAY:
    T_EXPECT(ser_array, (const oi_array *)want, (const oi_array *)got, 0, ctx);
    break;
  case T_WAVE:
    T_EXPECT(ser_wave, (const oi_wavelength *)want, (const oi_wavelength *)got,
             0, ctx);
    break;
  case T_CORR:
    T_EXPECT(ser_corr, (const oi_corr *)want, (const oi_corr *)got, 0, ctx);
    break;
  case T_INSPOL:
    T_EXPECT(ser_inspol, (const oi_inspol *)want, (const oi_inspol *)got, 0,
             ctx);
    break;
  case T_VIS:
    T_EXPECT(ser_vis, (const oi_vis *)want, (const oi_vis *)got, 0, ctx);
    break;
  case T_VIS2:
    T_EXPECT(ser_vis2, (const oi_vis2 *)want, (const oi_vis2 *)got, 0, ctx);
    break;
  case T_T3:
    T_EXPECT(ser_t3, (const oi_t3 *)want, (const oi_t3 *)got, 0, ctx);
    break;
  default:
    T_EXPECT(ser_flux, (const oi_flux *)want, (const oi_flux *)got, 0, ctx);
    break;
  }
}

/* ---- storage handed out: never too small, never shared ---- */
typedef struct
{
  const char *p;
  size_t n;
  const char *what;
} span;
static span *sp;
static size_t nsp, csp;
static void need(const void *p, size_t count, size_t size, const char *what,
                 int t)
{
  if (count == 0) return;
  MC_CHECK(p != NULL, "alloc_oi_%s gives no storage for %s", tname[t], what);
  if (nsp == csp)
  {
    csp = csp ? 2 * csp : 64;
    sp = realloc(sp, csp * sizeof(*sp));
  }
  sp[nsp++] = (span){p, count * size, what};
}
static int by_addr(const void *a, const void *b)
{
  const span *x = a, *y = b;
  return x->p < y->p ? -1 : x->p > y->p;
}
static void disjoint(void)
{
  qsort(sp, nsp, sizeof(*sp), by_addr);
  for (size_t i = 1; i < nsp; i++)
    MC_CHECK(sp[i - 1].p + sp[i - 1].n <= sp[i].p,
             "storage for %s is shared with %s", sp[i - 1].what, sp[i].what);
}
#define NEED(ptr, cnt) need((ptr), (cnt), sizeof((ptr)[0]), #ptr, t)
#define COUNTS(tab)                                                            \
  do                                                                           \
  {                                                                            \
    MC_CHECK((tab)->numrec == n && (tab)->nwave == m,                          \
             "alloc_oi_%s(%ld, %d) leaves numrec %ld, nwave %d", tname[t], n,  \
             m, (tab)->numrec, (tab)->nwave);                                  \
    NEED((tab)->record, n);                                                    \
  } while (0)

/* what the allocation promises; the storage is added to the spans */
static void t_promise(int t, void *p, long n, int m)
{
  any *a = p;
  switch (t)
  {
  case T_TARGET:
    MC_CHECK(a->target.ntarget == n, "ntarget is %d, not %ld",
             a->target.ntarget, n);
    NEED(a->target.targ, n);
    break;
  case T_ARRAY:
    MC_CHECK(a->array.nelement == n, "nelement is %d, not %ld",
             a->array.nelement, n);
    NEED(a->array.elem, n);
    break;
  case T_WAVE:
    MC_CHECK(a->wave.nwave == n, "nwave is %d, not %ld", a->wave.nwave, n);
    NEED(a->wave.eff_wave, n);
    NEED(a->wave.eff_band, n);
    break;
  case T_CORR:
    MC_CHECK(a->corr.ncorr == n, "ncorr is %d, not %ld", a->corr.ncorr, n);
    NEED(a->corr.iindx, n);
    NEED(a->corr.jindx, n);
    NEED(a->corr.corr, n);
    break;
  case T_INSPOL:
    COUNTS(&a->inspol);
    for (long i = 0; i < n; i++)
    {
      oi_inspol_record *r = &a->inspol.record[i];
      NEED(r->jxx, m);
      NEED(r->jyy, m);
      NEED(r->jxy, m);
      NEED(r->jyx, m);
    }
    break;
  case T_VIS:
    COUNTS(&a->vis);
    MC_CHECK(!a->vis.usevisrefmap && !a->vis.usecomplex,
             "alloc_oi_vis leaves optional columns in use");
    for (long i = 0; i < n; i++)
    {
      oi_vis_record *r = &a->vis.record[i];
      NEED(r->visamp, m);
      NEED(r->visamperr, m);
      NEED(r->visphi, m);
      NEED(r->visphierr, m);
      NEED(r->flag, m);
      MC_CHECK(!r->visrefmap && !r->rvis && !r->rviserr && !r->ivis &&
                   !r->iviserr,
               "alloc_oi_vis: optional columns not NULL in row %ld", i);
    }
    break;
  case T_VIS2:
    COUNTS(&a->vis2);
    for (long i = 0; i < n; i++)
    {
      oi_vis2_record *r = &a->vis2.record[i];
      NEED(r->vis2data, m);
      NEED(r->vis2err, m);
      NEED(r->flag, m);
    }
    break;
  case T_T3:
    COUNTS(&a->t3);
    for (long i = 0; i < n; i++)
    {
      oi_t3_record *r = &a->t3.record[i];
      NEED(r->t3amp, m);
      NEED(r->t3amperr, m);
      NEED(r->t3phi, m);
      NEED(r->t3phierr, m);
      NEED(r->flag, m);
    }
    break;
  case T_FLUX:
    COUNTS(&a->flux);
    for (long i = 0; i < n; i++)
    {
      oi_flux_record *r = &a->flux.record[i];
      NEED(r->fluxdata, m);
      NEED(r->fluxerr, m);
      NEED(r->flag, m);
    }
    break;
  }
}

/* ---- filling: everything but the counts, the flags and the storage ---- */
#define COL(f, cnt)                                                            \
  do                                                                           \
  {                                                                            \
    r->f = k.f;                                                                \
    if ((cnt) > 0) memcpy(r->f, s->record[i].f, (cnt) * sizeof(r->f[0]));      \
  } while (0)
#define FILL(type, rectype, more, ...)                                         \
  do                                                                           \
  {                                                                            \
    type *d = p;                                                               \
    const type *s = src;                                                       \
    type keep = *d;                                                            \
    *d = *s;                                                                   \
    d->numrec = keep.numrec, d->nwave = keep.nwave, d->record = keep.record;   \
    more;                                                                      \
    for (long i = 0; i < d->numrec; i++)                                       \
    {                                                                          \
      rectype *r = &d->record[i], k = *r;                                      \
      *r = s->record[i];                                                       \
      int m = d->nwave;                                                        \
      __VA_ARGS__;                                                                \
    }                                                                          \
  } while (0)
#define ATT(f, cnt)                                                            \
  r->f = (cnt) > 0 ? malloc((cnt) * sizeof(r->f[0])) : NULL;                   \
  if ((cnt) > 0) memcpy(r->f, s->record[i].f, (cnt) * sizeof(r->f[0]))

static void t_fill(int t, void *p, const void *src)
{
  switch (t)
  {
  case T_TARGET:
  {
    oi_target *d = p;
    const oi_target *s = src;
    d->revision = s->revision, d->usecategory = s->usecategory;
    for (int i = 0; i < d->ntarget; i++) d->targ[i] = s->targ[i];
    break;
  }
  case T_ARRAY:
  {
    oi_array *d = p, keep = *d;
    const oi_array *s = src;
    *d = *s;
    d->nelement = keep.nelement, d->elem = keep.elem;
    for (int i = 0; i < d->nelement; i++) d->elem[i] = s->elem[i];
    break;
  }
  case T_WAVE:
  {
    oi_wavelength *d = p, keep = *d;
    const oi_wavelength *s = src;
    *d = *s;
    d->nwave = keep.nwave;
    d->eff_wave = keep.eff_wave, d->eff_band = keep.eff_band;
    for (int i = 0; i < d->nwave; i++)
      d->eff_wave[i] = s->eff_wave[i], d->eff_band[i] = s->eff_band[i];
    break;
  }
  case T_CORR:
  {
    oi_corr *d = p, keep = *d;
    const oi_corr *s = src;
    *d = *s;
    d->ncorr = keep.ncorr;
    d->iindx = keep.iindx, d->jindx = keep.jindx, d->corr = keep.corr;
    for (int i = 0; i < d->ncorr; i++)
      d->iindx[i] = s->iindx[i], d->jindx[i] = s->jindx[i],
      d->corr[i] = s->corr[i];
    break;
  }
  case T_INSPOL:
    FILL(oi_inspol, oi_inspol_record, (void)0, {
      COL(jxx, m);
      COL(jyy, m);
      COL(jxy, m);
      COL(jyx, m);
    });
    break;
  case T_VIS:
    FILL(oi_vis, oi_vis_record,
         (d->usevisrefmap = keep.usevisrefmap, d->usecomplex = keep.usecomplex),
         {
           COL(visamp, m);
           COL(visamperr, m);
           COL(visphi, m);
           COL(visphierr, m);
           COL(flag, m);
           r->visrefmap = k.visrefmap;
           r->rvis = k.rvis, r->rviserr = k.rviserr;
           r->ivis = k.ivis, r->iviserr = k.iviserr;
         });
    break;
  case T_VIS2:
    FILL(oi_vis2, oi_vis2_record, (void)0, {
      COL(vis2data, m);
      COL(vis2err, m);
      COL(flag, m);
    });
    break;
  case T_T3:
    FILL(oi_t3, oi_t3_record, (void)0, {
      COL(t3amp, m);
      COL(t3amperr, m);
      COL(t3phi, m);
      COL(t3phierr, m);
      COL(flag, m);
    });
    break;
  case T_FLUX:
    FILL(oi_flux, oi_flux_record, (void)0, {
      COL(fluxdata, m);
      COL(fluxerr, m);
      COL(flag, m);
    });
    break;
  }
}

/* optional columns that the source has: storage from the caller */
static void t_attach(int t, void *p, const void *src)
{
  if (t != T_VIS) return;
  oi_vis *d = p;
  const oi_vis *s = src;
  size_t m = d->nwave;
  if (s->usevisrefmap)
  {
    for (long i = 0; i < d->numrec; i++)
    {
      oi_vis_record *r = &d->record[i];
      ATT(visrefmap, m * m);
    }
    d->usevisrefmap = TRUE;
  }
  if (s->usecomplex)
  {
    for (long i = 0; i < d->numrec; i++)
    {
      oi_vis_record *r = &d->record[i];
      ATT(rvis, m);
      ATT(rviserr, m);
      ATT(ivis, m);
      ATT(iviserr, m);
    }
    d->usecomplex = TRUE;
    SETS(d->complexunit, s->complexunit);
  }
}

/* table of that type and size */
static const void *t_source(oi_fits *oi, int t, long n, int m, int opt, int tag)
{
  char nm[20];
  snprintf(nm, sizeof(nm), "NAME%d", tag);
  switch (t)
  {
  case T_TARGET: ds_targets(oi, n, opt & 1); return &oi->targets;
  case T_ARRAY: return ds_array(oi, nm, n, tag);
  case T_WAVE: return ds_wave(oi, nm, n, tag);
  case T_CORR: return ds_corr(oi, nm, 100, n, tag);
  case T_INSPOL: return ds_inspol(oi, nm, nm, n, m, tag);
  case T_VIS:
  {
    oi_vis *v = ds_vis(oi, nm, nm, nm, n, m, tag);
    if (opt & 1) vis_refmap(v, tag);
    if (opt & 2) vis_complex(v, "Jy", tag);
    return v;
  }
  case T_VIS2: return ds_vis2(oi, nm, nm, nm, n, m, tag);
  case T_T3: return ds_t3(oi, nm, nm, nm, n, m, tag);
  default: return ds_flux(oi, nm, nm, nm, n, m, tag);
  }
}

/* one table through its life */
static void life(int t, long n, int m, const void *src)
{
  size_t used[3];
  for (int i = 0; i < 3; i++)
  {
    any a;
    memset(&a, i == 1 ? 0 : 0x5a, sizeof(a));
    t_alloc(t, &a, n, m);
    nsp = 0;
    t_promise(t, &a, n, m);
    disjoint();
    t_fill(t, &a, src);
    t_attach(t, &a, src);
    t_expect(t, src, &a, "table allocated and filled");
    void *d = t_dup(t, &a);
    t_expect(t, src, d, "copy of a table allocated and filled");
    t_free(t, d);
    free(d);
    t_expect(t, src, &a, "table whose copy was freed");
    t_free(t, &a);
    used[i] = __sanitizer_get_current_allocated_bytes();
  }
  free(sp);
  sp = NULL, csp = 0;
  MC_CHECK(used[2] <= used[1], "%zu bytes lost by alloc_oi_%s(%ld, %d) and free",
           used[2] - used[1], tname[t], n, m);
}

static void c24_sizes(void)
{
  int lim = mc_thorough ? 41 : 9;
  int t = mc_pick(NT, "type");
  long n = mc_pick(lim, "rows");
  int m = HASWAVE(t) ? mc_pick(lim, "channels") : 0;
  int opt = t == T_VIS ? mc_pick(4, "optional columns") : 0;
  mc_mine();
  oi_fits *oi = ds_new();
  life(t, n, m, t_source(oi, t, n, m, opt, 1));
}

static void c24_big(void)
{
  static const struct
  {
    long n;
    int m;
  } sz[] = {{40, 1},    {1, 40},     {255, 1},   {256, 2},  {257, 1},
            {1, 256},   {2, 1023},   {1, 4097},  {4097, 1}, {300, 40},
            {32768, 1}, {65537, 1},  {1, 32769}, {1, 65537}};
  int t = mc_pick(NT, "type");
  int k = mc_pick(sizeof(sz) / sizeof(*sz), "size");
  int opt = t == T_VIS ? mc_pick(4, "optional columns") : 0;
  if ((opt & 1) && sz[k].m > 300) mc_skip();
  mc_mine();
  oi_fits *oi = ds_new();
  life(t, sz[k].n, sz[k].m, t_source(oi, t, sz[k].n, sz[k].m, opt, 1));
}

/* ---- histories: two tables, allocated, filled and freed in any order ---- */
enum
{
  H_ALLOC0, H_ALLOC1, H_ALLOC2, H_FILL, H_ATTACH, H_DUP, H_FREE, NHIST
};
static const struct
{
  long n;
  int m;
} hsz[] = {{2, 3}, {3, 1}, {0, 2}};
typedef struct
{
  int type, size; /* size -1: not allocated */
  bool filled, attached;
} hstate;

static void c24_histories(void)
{
  hstate h[2] = {{mc_pick(NT, "first"), -1}, {0, -1}};
  int other = mc_pick(3, "second"), len = mc_thorough ? 8 : 6;
  h[1].type = other == 0 ? h[0].type : other == 1 ? T_VIS : T_INSPOL;
  if (other && h[0].type == h[1].type) mc_skip();
  struct
  {
    int slot, op;
  } seq[10];
  int n = 0, live = 0;
  for (; n < len; n++)
  {
    int s = mc_pick(2, "table");
    int op = mc_pick(NHIST, "operation");
    hstate *q = &h[s];
    if (op <= H_ALLOC2 ? q->size >= 0 : q->size < 0) mc_skip();
    if (op == H_FILL && q->filled) mc_skip();
    if (op == H_ATTACH && (!q->filled || q->attached || q->type != T_VIS))
      mc_skip();
    if (op == H_DUP && !q->filled) mc_skip();
    if (op <= H_ALLOC2)
      q->size = op, q->filled = q->attached = false;
    else if (op == H_FILL)
      q->filled = true;
    else if (op == H_ATTACH)
      q->attached = true;
    else if (op == H_FREE)
      q->size = -1;
    seq[n].slot = s, seq[n].op = op;
  }
  (void)live;
  mc_mine();
  /* sources: plain and with optional columns, per slot and size */
  const void *src[2][3][2];
  for (int s = 0; s < 2; s++)
    for (int z = 0; z < 3; z++)
      for (int o = 0; o < 2; o++)
      {
        oi_fits *oi = ds_new();
        src[s][z][o] = t_source(oi, h[s].type, hsz[z].n, hsz[z].m, o ? 3 : 0,
                                10 * s + z + 1);
      }
  size_t used[3];
  for (int run = 0; run < 3; run++)
  {
    any a[2];
    hstate g[2] = {{h[0].type, -1}, {h[1].type, -1}};
    memset(a, 0x5a, sizeof(a));
    for (int i = 0; i < n; i++)
    {
      hstate *q = &g[seq[i].slot];
      any *p = &a[seq[i].slot];
      const void *const *sr =
          q->size < 0 ? NULL : src[seq[i].slot][q->size];
      switch (seq[i].op)
      {
      case H_FILL:
        t_fill(q->type, p, sr[0]);
        q->filled = true;
        break;
      case H_ATTACH:
        t_attach(q->type, p, sr[1]);
        q->attached = true;
        break;
      case H_DUP:
      {
        void *d = t_dup(q->type, p);
        t_expect(q->type, sr[q->attached], d, "copy");
        t_free(q->type, d);
        free(d);
        break;
      }
      case H_FREE:
        t_free(q->type, p);
        q->size = -1;
        break;
      default:
        /* the struct still has what was in it */
        q->size = seq[i].op;
        q->filled = q->attached = false;
        t_alloc(q->type, p, hsz[q->size].n, hsz[q->size].m);
      }
      nsp = 0;
      for (int k = 0; k < 2; k++)
      {
        if (g[k].size < 0) continue;
        if (!g[k].attached)
          t_promise(g[k].type, &a[k], hsz[g[k].size].n, hsz[g[k].size].m);
        if (g[k].filled)
          t_expect(g[k].type, src[k][g[k].size][g[k].attached], &a[k],
                   "table after further allocations");
      }
      disjoint();
    }
    for (int k = 0; k < 2; k++)
      if (g[k].size >= 0) t_free(g[k].type, &a[k]);
    used[run] = __sanitizer_get_current_allocated_bytes();
  }
  free(sp);
  sp = NULL, csp = 0;
  MC_CHECK(used[2] <= used[1], "%zu bytes lost by a sequence of allocations",
           used[2] - used[1]);
}

/* ---- whole datasets made of such tables ---- */
#define TABLES(list, type, t, alloc, hashed, name)                             \
  for (GList *l = s->list##List; l; l = l->next)                               \
  {                                                                            \
    type *q = l->data, *p = malloc(sizeof(*p));                                \
    memset(p, 0x5a, sizeof(*p));                                               \
    alloc;                                                                     \
    t_fill(t, p, q);                                                           \
    t_attach(t, p, q);                                                         \
    d->list##List = g_list_append(d->list##List, p);                           \
    hashed;                                                                    \
  }

static void lib_clone(const oi_fits *s, oi_fits *d)
{
  memset(d, 0x5a, sizeof(*d));
  init_oi_fits(d);
  d->header = s->header;
  alloc_oi_target(&d->targets, s->targets.ntarget);
  t_fill(T_TARGET, &d->targets, &s->targets);
  TABLES(array, oi_array, T_ARRAY, alloc_oi_array(p, q->nelement),
         g_hash_table_insert(d->arrayHash, p->arrname, p), arrname)
  TABLES(wavelength, oi_wavelength, T_WAVE, alloc_oi_wavelength(p, q->nwave),
         g_hash_table_insert(d->wavelengthHash, p->insname, p), insname)
  TABLES(corr, oi_corr, T_CORR, alloc_oi_corr(p, q->ncorr),
         g_hash_table_insert(d->corrHash, p->corrname, p), corrname)
  TABLES(inspol, oi_inspol, T_INSPOL, alloc_oi_inspol(p, q->numrec, q->nwave),
         (void)0, )
  TABLES(vis, oi_vis, T_VIS, alloc_oi_vis(p, q->numrec, q->nwave), (void)0, )
  TABLES(vis2, oi_vis2, T_VIS2, alloc_oi_vis2(p, q->numrec, q->nwave),
         (void)0, )
  TABLES(t3, oi_t3, T_T3, alloc_oi_t3(p, q->numrec, q->nwave), (void)0, )
  TABLES(flux, oi_flux, T_FLUX, alloc_oi_flux(p, q->numrec, q->nwave),
         (void)0, )
  d->numArray = s->numArray, d->numWavelength = s->numWavelength;
  d->numCorr = s->numCorr, d->numInspol = s->numInspol;
  d->numVis = s->numVis, d->numVis2 = s->numVis2;
  d->numT3 = s->numT3, d->numFlux = s->numFlux;
}

static void blank(const oi_fits *d)
{
  const oi_header *h = &d->header;
  MC_CHECK(!*h->origin && !*h->date && !*h->date_obs && !*h->content &&
               !*h->telescop && !*h->instrume && !*h->observer &&
               !*h->insmode && !*h->object && !*h->referenc && !*h->author &&
               !*h->prog_id && !*h->procsoft && !*h->obstech,
           "init_oi_fits leaves text in the header");
  MC_CHECK(d->targets.ntarget == 0 && !d->targets.usecategory,
           "init_oi_fits leaves targets");
  ds_container(d, "after init_oi_fits");
  MC_CHECK(!d->numArray && !d->numWavelength && !d->numCorr && !d->numInspol &&
               !d->numVis && !d->numVis2 && !d->numT3 && !d->numFlux,
           "init_oi_fits leaves tables");
  MC_CHECK(!oi_fits_lookup_array(d, "A") && !oi_fits_lookup_wavelength(d, "A") &&
               !oi_fits_lookup_corr(d, "A") && !oi_fits_lookup_target(d, 1),
           "lookups in an empty dataset find something");
}

static void all(oi_fits *oi)
{
  const char *fn = mc_path("a.fits");
  oi_fits *want = ds_clone(oi);
  ds_as_written(want);
  size_t used[3];
  mc_cap_begin();
  for (int run = 0; run < 3; run++)
  {
    oi_fits d, r, f, f0, m, m0;
    int st = 0;
    memset(&d, 0x5a, sizeof(d));
    init_oi_fits(&d);
    blank(&d);
    free_oi_fits(&d);
    lib_clone(oi, &d);
    ds_expect(oi, &d, 0, "dataset of allocated tables");
    unlink(fn);
    write_oi_fits(fn, d, &st);
    MC_CHECK(st == 0, "not written (%d)", st);
    ds_expect(oi, &d, 0, "dataset of allocated tables after writing");
    read_oi_fits(fn, &r, &st);
    MC_CHECK(st == 0, "not read (%d)", st);
    ds_expect(want, &r, SER_NODATE, "read back");
    free_oi_fits(&r);
    unlink(fn);
    oi_filter_spec s;
    init_oi_filter(&s);
    s.accept_flagged = run & 1;
    apply_oi_filter(&d, &s, &f);
    apply_oi_filter(oi, &s, &f0);
    ds_expect(&f0, &f, SER_NODATE, "filtered");
    free_oi_fits(&f);
    free_oi_fits(&f0);
    merge_oi_fits(&m, &d, oi, NULL);
    merge_oi_fits(&m0, oi, oi, NULL);
    ds_expect(&m0, &m, SER_NODATE, "merged");
    free_oi_fits(&m);
    free_oi_fits(&m0);
    ds_expect(oi, &d, 0, "dataset of allocated tables at the end");
    free_oi_fits(&d);
    fflush(stdout);
    used[run] = __sanitizer_get_current_allocated_bytes();
  }
  free(mc_cap_end());
  MC_CHECK(used[2] <= used[1], "%zu bytes lost with a dataset",
           used[2] - used[1]);
  mc_outcome(ds_hash(want, SER_NODATE));
}

static void c24_datasets(void)
{
  oi_fits *oi = ds_gen(true);
  mc_mine();
  all(oi);
}
static void c24_options(void)
{
  all(ds_options());
}
static void c24_counts(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 40 : 6, mc_thorough ? 1025 : 65);
  mc_mine();
  all(ds_sized(dim, n, 3, false));
}

const mc_scope scopes_alloc[] = {
    {"C24", "sizes", c24_sizes, 0, 0, 0,
     "every table type, 0-8 (thorough: 0-40) rows and channels, optional columns attached or not; promise, fill, copy, free, three times over"},
    {"C24", "big", c24_big, 0, 0, 0,
     "every table type, sizes around powers of two up to 65537 rows or channels"},
    {"C24", "histories", c24_histories, 0, 0, 0,
     "all sequences of 6 (thorough: 8) allocations, fillings, attachments, copies and frees of two tables"},
    {"C24", "datasets", c24_datasets, 2, 3, 0,
     "datasets of one, two or three tables of each type in every shape, rebuilt from allocated tables: write, read, filter, merge, free"},
    {"C24", "options", c24_options, 0, 0, 0,
     "all combinations of the optional features of one data table, the same operations"},
    {"C24", "counts", c24_counts, 0, 0, 0,
     "each of 18 dimensions at every size up to 6 (thorough: 40) and around powers of two and ten up to 65 (1025), the same operations"},
    {0}};
