/* C07, C12: the command-line utilities */
#define _GNU_SOURCE
#include "chk.h"
#include "filt.h"
#include "mrg.h"
#include "oif.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

/* ---- running a program ---- */
typedef struct
{
  const char *a[64];
  int n;
} cmdline;
static void arg(cmdline *c, const char *s)
{
  c->a[c->n++] = s;
  c->a[c->n] = NULL;
}
static char *argf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static char *argf(const char *fmt, ...)
{
  /* kept until the end of the process; small */
  static char buf[64][300];
  static int k;
  char *b = buf[k++ % 64];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, 300, fmt, ap);
  va_end(ap);
  return b;
}
static char *show(const cmdline *c)
{
  static char b[4000];
  size_t l = 0;
  b[0] = 0;
  for (int i = 0; i < c->n; i++)
  {
    const char *s = c->a[i];
    if (!strncmp(s, mc_dir, strlen(mc_dir))) s += strlen(mc_dir) + 1;
    l += snprintf(b + l, sizeof(b) - l, "%s'%s'", i ? " " : "", s);
    if (l >= sizeof(b)) break;
  }
  return b;
}

static char *out_text; /* what the last program printed (both streams) */
static long fsize_limit = -1;

/* exit status */
static int run(const char *prog, const cmdline *c)
{
  char path[700], outp[700];
  snprintf(path, sizeof(path), "%s/%s", mc_bindir, prog);
  strcpy(outp, mc_path("out.txt"));
  fflush(NULL);
  unlink(outp);
  pid_t pid = fork();
  MC_CHECK(pid >= 0, "fork failed");
  if (pid == 0)
  {
    int fd = open(outp, O_CREAT | O_WRONLY | O_TRUNC, 0600);
    int nl = open("/dev/null", O_RDONLY);
    dup2(nl, 0), dup2(fd, 1), dup2(fd, 2);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1);
    setenv("LC_ALL", "C", 1);
    unsetenv("G_MESSAGES_DEBUG");
    alarm(30);
    if (fsize_limit >= 0)
    {
      /* the limit also applies to outp, which is smaller than any limit used,
       * or is a pipe in the caller */
      int p[2];
      if (pipe(p) == 0)
      {
        fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
        dup2(p[1], 1), dup2(p[1], 2);
      }
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit lim;
      getrlimit(RLIMIT_FSIZE, &lim);
      lim.rlim_cur = fsize_limit;
      setrlimit(RLIMIT_FSIZE, &lim);
    }
    const char *av[66];
    av[0] = prog;
    for (int i = 0; i < c->n; i++) av[i + 1] = c->a[i];
    av[c->n + 1] = NULL;
    execv(path, (char *const *)av);
    _exit(126);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0) {}
  size_t n;
  free(out_text);
  char *t = slurp(outp, &n);
  out_text = malloc(n + 1);
  if (t) memcpy(out_text, t, n);
  out_text[n] = 0;
  free(t);
  unlink(outp);
  if (WIFSIGNALED(ws))
    mc_fail("%s %s: killed by signal %d: %.500s", prog, show(c), WTERMSIG(ws),
            out_text);
  int rc = WEXITSTATUS(ws);
  MC_CHECK(rc != 126, "%s cannot be executed", path);
  if (rc == 99 || strstr(out_text, "AddressSanitizer"))
    mc_fail("%s %s: memory error: %.1500s", prog, show(c), out_text);
  return rc;
}

/* ---- files ---- */
static void put(const oi_fits *oi, const char *path)
{
  int st = 0;
  unlink(path);
  mc_cap_begin();
  write_oi_fits(path, *oi, &st);
  free(mc_cap_end());
  MC_CHECK(st == 0, "sample not written (%d)", st);
}
static void get(const char *path, oi_fits *oi, const char *what)
{
  int st = 0;
  mc_cap_begin();
  read_oi_fits(path, oi, &st);
  free(mc_cap_end());
  MC_CHECK(st == 0, "%s: output file cannot be read (%d)", what, st);
}
static char *path_of(const char *name)
{
  static char b[16][600];
  static int k;
  char *p = b[k++ % 16];
  strcpy(p, mc_path(name));
  return p;
}
/* a snapshot of a file */
typedef struct
{
  char *path, *b;
  size_t n;
  bool there, dir;
  struct stat s;
} snap;
static snap take(char *p)
{
  snap s = {.path = p};
  s.there = stat(p, &s.s) == 0;
  s.dir = s.there && S_ISDIR(s.s.st_mode);
  if (s.there && !s.dir) s.b = slurp(p, &s.n);
  return s;
}
static void same(snap *s, const char *what, const cmdline *c)
{
  snap t = take(s->path);
  if (s->there && !t.there) mc_fail("%s: %s removed by %s", what, s->path, show(c));
  if (!s->there && t.there) mc_fail("%s: %s created by %s", what, s->path, show(c));
  if (s->there)
    MC_CHECK(s->dir == t.dir && s->s.st_ino == t.s.st_ino && s->n == t.n &&
                 (!s->n || !memcmp(s->b, t.b, s->n)),
             "%s: %s altered by %s", what, s->path, show(c));
  free(t.b);
  free(s->b);
}

/* kinds of unusable input */
static char *bad_input(int kind)
{
  char *p = path_of("bad.fits");
  unlink(p);
  switch (kind)
  {
  case 0: break; /* missing */
  case 1: spew(p, "not a FITS file", 15); break;
  case 2: spew(p, "", 0); break;
  case 3: return path_of("."); /* a directory */
  default: /* no target table */
  {
    oi_fits *oi = ds_small();
    put(oi, p);
    rf_file *f = rf_read(p);
    rf_delhdu(f, rf_nth(f, "OI_TARGET", 0));
    unlink(p);
    rf_write(f, p);
    rf_free(f);
  }
  }
  return p;
}
#define NBAD 5

/* ------------------------------------------------------------------ */
/* C07 */
static const char *const v_arr[] = {"ALPHA", "A*", "?ETA", "NONE", "*", ""},
                         *const v_ins[] = {"INS_A", "INS_?", "*B", "NONE"},
                         *const v_cor[] = {"C_ONE", "C*", "", "?_TWO"},
                         *const v_tgt[] = {"1", "2", "5", "9", "-1", "0", "32767"},
                         *const v_mlo[] = {"50001", "50001.5", "60000", "0"},
                         *const v_mhi[] = {"50001.5", "50003", "5e4", "1"},
                         *const v_wlo[] = {"476.837158203125", "477",
                                           "953.67431640625", "1500", "4000"},
                         *const v_whi[] = {"476", "953.67431640625",
                                           "1907.3486328125", "3800", "1e6"},
                         *const v_blo[] = {"10", "20.5", "1000", "0"},
                         *const v_bhi[] = {"10", "40", "39.9", "1e5"},
                         *const v_ulo[] = {"10485760", "2e7", "1e9", "0"},
                         *const v_uhi[] = {"10485760", "2.1e7", "5e7", "1e12"},
                         *const v_slo[] = {"1", "4", "5.5", "-10"},
                         *const v_shi[] = {"4", "16", "3", "1e12"},
                         *const v_acc[] = {"0", "1", "2"};
#define OPT(name, v) {name, v, (int)(sizeof(v) / sizeof(*v))}
static const struct
{
  const char *name;
  const char *const *v;
  int n;
} opts[] = {OPT("arrname", v_arr),      OPT("insname", v_ins),
            OPT("corrname", v_cor),     OPT("target-id", v_tgt),
            OPT("mjd-min", v_mlo),      OPT("mjd-max", v_mhi),
            OPT("wave-min", v_wlo),     OPT("wave-max", v_whi),
            OPT("bas-min", v_blo),      OPT("bas-max", v_bhi),
            OPT("uvrad-min", v_ulo),    OPT("uvrad-max", v_uhi),
            OPT("snr-min", v_slo),      OPT("snr-max", v_shi),
            OPT("accept-vis", v_acc),   OPT("accept-vis2", v_acc),
            OPT("accept-t3amp", v_acc), OPT("accept-t3phi", v_acc),
            OPT("accept-flux", v_acc),  OPT("accept-flagged", v_acc)};
#define NOPT ((int)(sizeof(opts) / sizeof(*opts)))

static void meaning(oi_filter_spec *f, int o, const char *v)
{
  double d = strtod(v, NULL);
  switch (o)
  {
  case 0: SETS(f->arrname, v); break;
  case 1: SETS(f->insname, v); break;
  case 2: SETS(f->corrname, v); break;
  case 3: f->target_id = atoi(v); break;
  case 4: f->mjd_range[0] = d; break;
  case 5: f->mjd_range[1] = d; break;
  case 6: f->wave_range[0] = (float)(d * 1e-9); break;
  case 7: f->wave_range[1] = (float)(d * 1e-9); break;
  case 8: f->bas_range[0] = d; break;
  case 9: f->bas_range[1] = d; break;
  case 10: f->uvrad_range[0] = d; break;
  case 11: f->uvrad_range[1] = d; break;
  case 12: f->snr_range[0] = (float)d; break;
  case 13: f->snr_range[1] = (float)d; break;
  case 14: f->accept_vis = atoi(v) != 0; break;
  case 15: f->accept_vis2 = atoi(v) != 0; break;
  case 16: f->accept_t3amp = atoi(v) != 0; break;
  case 17: f->accept_t3phi = atoi(v) != 0; break;
  case 18: f->accept_flux = atoi(v) != 0; break;
  default: f->accept_flagged = atoi(v) != 0; break;
  }
}

/* input of the filter utility, written once */
static oi_fits *filter_input(char **path)
{
  static oi_fits *oi;
  static char p[600];
  if (!oi)
  {
    strcpy(p, mc_path("filt-in.fits"));
    oi_fits *base = fd_base();
    put(base, p);
    ds_as_written(base);
    ds_keep(base);
    oi = base;
  }
  *path = p;
  return oi;
}

/* the printed description of a filter states the specification */
static void stated_range(const char *text, const char *label, double lo, double hi, double step)
{
  const char *p = strstr(text, label);
  MC_CHECK(p, "description lacks %s: %s", label, text);
  p += strlen(label);
  char *e;
  double a = strtod(p, &e);
  MC_CHECK(e > p, "description of %s has no minimum: %s", label, text);
  while (*e == ' ') e++;
  MC_CHECK(*e == '-', "description of %s is no range: %s", label, text);
  e++;
  double b = strtod(e, NULL);
  double v[2] = {lo, hi}, w[2] = {a, b};
  for (int i = 0; i < 2; i++)
  {
    /* rounded to `step`, or to one significant digit if that is zero */
    double t = step;
    if (t == 0) t = v[i] == 0 ? 1e-300 : pow(10, floor(log10(fabs(v[i]))));
    MC_CHECK(fabs(v[i] - w[i]) <= 0.5001 * t + 1e-7 * fabs(v[i]), "%s of %s is described as %g, not %g: %s",
             i ? "maximum" : "minimum", label, w[i], v[i], text);
  }
}
static void stated(const char *text, const oi_filter_spec *f)
{
  char b[200];
#define HAS(...)                                                               \
  {                                                                            \
    snprintf(b, sizeof(b), __VA_ARGS__);                                       \
    MC_CHECK(strstr(text, b), "description lacks \"%s\": %s", b, text);        \
  }
#define HASNOT(s) MC_CHECK(!strstr(text, s), "description has \"%s\": %s", s, text)
  HAS("ARRNAME='%s'", f->arrname)
  HAS("INSNAME='%s'", f->insname)
  HAS("CORRNAME='%s'", f->corrname)
  if (f->target_id >= 0)
  {
    HAS("TARGET_ID=%d\n", f->target_id)
    HASNOT("Any TARGET_ID");
  }
  else
  {
    HAS("Any TARGET_ID")
    HASNOT("TARGET_ID=");
  }
  stated_range(text, "MJD:", f->mjd_range[0], f->mjd_range[1], .01);
  stated_range(text, "Wavelength:", 1e9 * f->wave_range[0], 1e9 * f->wave_range[1], .1);
  stated_range(text, "Baseline:", f->bas_range[0], f->bas_range[1], .1);
  stated_range(text, "UV Radius:", f->uvrad_range[0], f->uvrad_range[1], 0);
  stated_range(text, "SNR:", f->snr_range[0], f->snr_range[1], .1);
  const struct
  {
    const char *no;
    int acc;
  } t[] = {{"OI_VIS not accepted", f->accept_vis},
           {"OI_VIS2 not accepted", f->accept_vis2},
           {"T3AMP not accepted", f->accept_t3amp},
           {"T3PHI not accepted", f->accept_t3phi},
           {"OI_FLUX not accepted", f->accept_flux},
           {"All-flagged records not accepted", f->accept_flagged}};
  for (int i = 0; i < 6; i++)
    MC_CHECK(!strstr(text, t[i].no) == !!t[i].acc, "description is wrong about \"%s\": %s", t[i].no, text);
}
static void c07_format(void)
{
  oi_filter_spec f;
  fs_gen(&f, FS_ALL);
  mc_mine();
  stated(format_oi_filter(&f), &f);
  mc_cap_begin();
  print_oi_filter(&f);
  char *t = mc_cap_end();
  stated(t, &f);
  free(t);
}

static void c07_options(void)
{
  cmdline c = {.n = 0};
  oi_filter_spec f;
  init_oi_filter(&f);
  char *in, *out = path_of("filt-out.fits");
  int chosen[64][2], n = 0;
  for (int o = 0; o < NOPT; o++)
  {
    int v = mc_dev(opts[o].n + 1, opts[o].name);
    if (v) chosen[n][0] = o, chosen[n++][1] = v - 1;
  }
  int style = mc_dev(6, "style");
  mc_mine();
  oi_fits *oi = filter_input(&in);
  if (style == 2) arg(&c, in), arg(&c, out);
  if (style == 5) arg(&c, in);
  for (int k = 0; k < n; k++)
  {
    int i = style == 3 ? n - 1 - k : k;
    int o = chosen[i][0];
    const char *v = opts[o].v[chosen[i][1]];
    meaning(&f, o, v);
    if (style == 4) /* the last of several counts */
      arg(&c, argf("--%s=%s", opts[o].name,
                   opts[o].v[(chosen[i][1] + 1) % opts[o].n]));
    if (style == 1)
    {
      arg(&c, argf("--%s", opts[o].name));
      arg(&c, v);
    }
    else
      arg(&c, argf("--%s=%s", opts[o].name, v));
  }
  if (style == 5) arg(&c, out);
  else if (style != 2) arg(&c, in), arg(&c, out);
  unlink(out);
  int rc = run("oifits-filter", &c);
  MC_CHECK(rc == 0, "exit status %d from oifits-filter %s: %.800s", rc, show(&c),
           out_text);
  MC_CHECK(file_exists(out), "no output from oifits-filter %s", show(&c));
  stated(out_text, &f);
  oi_fits got;
  get(out, &got, show(&c));
  oi_fits *want = oracle_filter(oi, &f);
  ds_as_written(want);
  char ctx[4100];
  snprintf(ctx, sizeof(ctx), "output of oifits-filter %s", show(&c));
  ds_expect(want, &got, SER_NODATE | SER_KW15, ctx);
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);
  unlink(out);
}

/* the option group used by a program: parsing in this process */
static void parse(cmdline *c)
{
  char *a[66], **av = a;
  int n = 0;
  a[n++] = "program";
  for (int i = 0; i < c->n; i++)
    a[n++] = (char *)c->a[i];
  a[n] = NULL;
  GError *e = NULL;
  GOptionContext *x = g_option_context_new("");
  g_option_context_add_group(x, get_oi_filter_option_group());
  mc_cap_begin();
  g_option_context_parse(x, &n, &av, &e);
  free(mc_cap_end());
  MC_CHECK(!e, "options refused: %s", show(c));
  MC_CHECK(n == 1, "%d arguments left: %s", n - 1, show(c));
  g_option_context_free(x);
}
static void same_spec(const oi_filter_spec *w, const char *ctx)
{
  const oi_filter_spec *g = get_user_oi_filter();
  MC_CHECK(!strcmp(w->arrname, g->arrname) && !strcmp(w->insname, g->insname) &&
               !strcmp(w->corrname, g->corrname) && w->target_id == g->target_id,
           "names or target: %s", ctx);
  for (int i = 0; i < 2; i++)
    MC_CHECK(w->mjd_range[i] == g->mjd_range[i] && w->bas_range[i] == g->bas_range[i] &&
                 w->uvrad_range[i] == g->uvrad_range[i] && w->snr_range[i] == g->snr_range[i] &&
                 fabsf(w->wave_range[i] - g->wave_range[i]) <= 1e-6f * fabsf(w->wave_range[i]),
             "limits: %s", ctx);
  MC_CHECK(!w->accept_vis == !g->accept_vis && !w->accept_vis2 == !g->accept_vis2 &&
               !w->accept_t3amp == !g->accept_t3amp && !w->accept_t3phi == !g->accept_t3phi &&
               !w->accept_flux == !g->accept_flux && !w->accept_flagged == !g->accept_flagged,
           "what is accepted: %s", ctx);
}
/* options that say what is so anyway */
static void c07_everyday(void)
{
  static const char *const o[] = {NULL, "--accept-vis=1", "--arrname=*", "--accept-flagged=1", "--target-id=-1"};
  int k = mc_pick(5, "option");
  oi_fits *oi = fd_everyday();
  cmdline c = {.n = 0};
  if (o[k]) arg(&c, o[k]);
  parse(&c);
  fd_keeps_all(oi, get_user_oi_filter(), "command line without restrictions");
}
static void parsed(const int (*ch)[2], int n, bool apart)
{
  cmdline c = {.n = 0};
  oi_filter_spec f;
  init_oi_filter(&f);
  for (int i = 0; i < n; i++)
  {
    const char *v = opts[ch[i][0]].v[ch[i][1]];
    meaning(&f, ch[i][0], v);
    if (apart) arg(&c, argf("--%s", opts[ch[i][0]].name)), arg(&c, v);
    else arg(&c, argf("--%s=%s", opts[ch[i][0]].name, v));
  }
  parse(&c);
  same_spec(&f, show(&c));
  char *in;
  oi_fits *oi = filter_input(&in);
  oi_fits a;
  apply_user_oi_filter(oi, &a);
  same_spec(&f, show(&c));
  oi_fits *w = oracle_filter(oi, &f);
  ds_expect(w, &a, 0, show(&c));
  mc_outcome(ds_hash(&a, 0));
  free_oi_fits(&a);
  ds_free(w);
}
static void c07_parse(void)
{
  int ch[64][2], n = 0;
  for (int o = 0; o < NOPT; o++)
  {
    int v = mc_dev(opts[o].n + 1, opts[o].name);
    if (v) ch[n][0] = o, ch[n++][1] = v - 1;
  }
  bool apart = mc_dev(2, "apart");
  mc_mine();
  parsed(ch, n, apart);
}
/* one command line after another: only the last counts */
static void c07_parses(void)
{
  int n = mc_thorough ? 3 : 2, ch[3][2];
  for (int i = 0; i < n; i++)
  {
    ch[i][0] = mc_pick(NOPT + 1, "option") - 1;
    ch[i][1] = ch[i][0] < 0 ? 0 : mc_pick(i == n - 1 ? opts[ch[i][0]].n : 2, "value");
  }
  mc_mine();
  for (int i = 0; i < n; i++)
    if (ch[i][0] < 0) parsed(ch, 0, false);
    else parsed(&ch[i], 1, i & 1);
}

/* limits are inclusive: a channel at exactly the stated wavelength is kept, its
 * neighbours beyond it are not */
static void c07_edges(void)
{
  int block = mc_pick(100, "hundreds of nm") + 1, how = mc_pick(3, "limit");
  int steps = mc_thorough ? 1000 : 20;
  mc_mine();
  for (int i = 0; i < steps; i++)
  {
    char nm[40], m[40];
    double k = block * 100 + (mc_thorough ? 0.1 * i : 5 * i);
    snprintf(nm, sizeof(nm), "%.1f", k);
    if (i % 2 == 0 && k == floor(k)) snprintf(nm, sizeof(nm), "%.0f", k);
    snprintf(m, sizeof(m), "%se-9", nm);
    float x = strtof(m, NULL), ch[3] = {nextafterf(x, 0), x, nextafterf(x, 1)};
    oi_fits oi;
    init_oi_fits(&oi);
    oi_wavelength *w = g_malloc0(sizeof(*w));
    w->revision = 2;
    strcpy(w->insname, "I");
    w->nwave = 3;
    w->eff_wave = g_malloc0(3 * sizeof(float));
    w->eff_band = g_malloc0(3 * sizeof(float));
    memcpy(w->eff_wave, ch, sizeof(ch));
    for (int j = 0; j < 3; j++) w->eff_band[j] = j + 1;
    oi.wavelengthList = g_list_append(oi.wavelengthList, w);
    oi.numWavelength = 1;
    g_hash_table_insert(oi.wavelengthHash, w->insname, w);
    /* a table of data, or the channels would not be needed */
    oi.targets.ntarget = 1;
    oi.targets.targ = g_malloc0(sizeof(target));
    oi.targets.targ[0].target_id = 1;
    oi.targets.revision = 2;
    oi_vis2 *v = g_malloc0(sizeof(*v));
    v->revision = 2;
    strcpy(v->insname, "I");
    alloc_oi_vis2(v, 1, 3);
    v->record[0].target_id = 1;
    v->record[0].mjd = 50000;
    v->record[0].ucoord = v->record[0].vcoord = 10;
    v->record[0].sta_index[0] = v->record[0].sta_index[1] = -1;
    for (int j = 0; j < 3; j++)
      v->record[0].vis2data[j] = 100 + j, v->record[0].vis2err[j] = 1, v->record[0].flag[j] = false;
    oi.vis2List = g_list_append(oi.vis2List, v);
    oi.numVis2 = 1;
    cmdline c = {.n = 0};
    if (how != 1) arg(&c, argf("--wave-min=%s", nm));
    if (how != 0) arg(&c, argf("--wave-max=%s", nm));
    parse(&c);
    oi_fits out;
    mc_cap_begin();
    apply_user_oi_filter(&oi, &out);
    free(mc_cap_end());
    int lo = how != 1 ? 1 : 0, n = (how != 0 ? 1 : 2) - lo + 1;
    MC_CHECK(out.numWavelength == 1 && out.numVis2 == 1, "%s: no channel of %.9g is left", show(&c), x);
    w = out.wavelengthList->data, v = out.vis2List->data;
    MC_CHECK(w->nwave == n && v->nwave == n, "%s: %d and %d of the channels %.9g, %.9g and %.9g are left, not %d",
             show(&c), w->nwave, v->nwave, ch[0], ch[1], ch[2], n);
    for (int j = 0; j < n; j++)
      MC_CHECK(w->eff_wave[j] == ch[lo + j] && w->eff_band[j] == lo + j + 1 &&
                   v->record[0].vis2data[j] == 100 + lo + j,
               "%s: channel %d of the output is not channel %d of the input", show(&c), j, lo + j);
    mc_outcome(n);
    free_oi_fits(&out);
    free_oi_fits(&oi);
  }
  mc_evals(steps);
}

/* command lines that must be rejected */
static const char *const malformed[][7] = {
    /* IN and OUT stand for usable names */
    {0},
    {"IN"},
    {"IN", "OUT", "EXTRA"},
    {"--bogus", "IN", "OUT"},
    {"--bogus=1", "IN", "OUT"},
    {"-x", "IN", "OUT"},
    {"IN", "OUT", "--bogus"},
    {"--mjd-min=abc", "IN", "OUT"},
    {"--mjd-max=1x", "IN", "OUT"},
    {"--wave-min=red", "IN", "OUT"},
    {"--target-id=x", "IN", "OUT"},
    {"--target-id=1.5", "IN", "OUT"},
    {"--target-id=99999999999", "IN", "OUT"},
    {"--accept-vis=yes", "IN", "OUT"},
    {"--accept-flagged=", "IN", "OUT"},
    {"IN", "OUT", "--mjd-min"},
    {"IN", "OUT", "--target-id"},
    {"IN", "OUT", "--arrname"},
    {"--mjd-min", "IN", "OUT"},
    {"--arrname", "IN", "OUT"},
    {"--snr-min=1", "--bas-max=", "IN", "OUT"},
    {"--uvrad-min=1", "IN"},
    {"--uvrad-min=1"},
    {"-o", "IN"},
    {"-o"},
    {"--clobber", "IN", "OUT", "EXTRA"},
    {"-o", "--bogus", "IN", "OUT"},
};
static void c07_malformed(void)
{
  int k = mc_pick((int)(sizeof(malformed) / sizeof(*malformed)), "command line");
  int exists = mc_pick(2, "output exists");
  int more = mc_pick(2, "extra option");
  mc_mine();
  char *in, *out = path_of("filt-out.fits"), *extra = path_of("extra.fits");
  filter_input(&in);
  unlink(out);
  unlink(extra);
  if (exists) spew(out, "precious", 8);
  cmdline c = {.n = 0};
  if (more) arg(&c, "--accept-vis2=1");
  for (int i = 0; malformed[k][i]; i++)
    arg(&c, !strcmp(malformed[k][i], "IN")      ? in
            : !strcmp(malformed[k][i], "OUT")   ? out
            : !strcmp(malformed[k][i], "EXTRA") ? extra
                                                : malformed[k][i]);
  snap a = take(in), b = take(out), e = take(extra);
  int rc = run("oifits-filter", &c);
  MC_CHECK(rc == 2, "exit status %d instead of 2 from oifits-filter %s", rc,
           show(&c));
  same(&a, "malformed command line", &c);
  same(&b, "malformed command line", &c);
  same(&e, "malformed command line", &c);
  unlink(out);
}

/* states of input and output */
static void c07_states(void)
{
  int input = mc_pick(1 + NBAD, "input");
  int output = mc_pick(7, "output");
  int clob = mc_pick(3, "clobber");
  int opt = mc_pick(3, "option");
  mc_mine();
  char *good;
  oi_fits *oi = filter_input(&good);
  char *in = input ? bad_input(input - 1) : path_of("filt-in2.fits");
  if (!input)
  {
    size_t n;
    char *b = slurp(good, &n);
    spew(in, b, n);
    free(b);
  }
  char *out = path_of("filt-out.fits"), *dir = path_of("filt-dir"),
       *inner = path_of("filt-dir/file");
  unlink(out);
  unlink(inner);
  rmdir(dir);
  bool exists = false, usable = true;
  switch (output)
  {
  case 0: break;
  case 1: spew(out, "precious", 8), exists = true; break;
  case 2: spew(out, "", 0), exists = true; break;
  case 3: put(ds_small(), out), exists = true; break;
  case 4: /* a directory with a file in it */
    mkdir(dir, 0700);
    spew(inner, "precious", 8);
    out = dir;
    exists = true, usable = false;
    break;
  case 5:
    if (input) return;
    out = in, exists = true;
    break;
  default: out = inner, usable = false; /* no such directory */
  }
  cmdline c = {.n = 0};
  if (clob == 1) arg(&c, "-o");
  oi_filter_spec f;
  init_oi_filter(&f);
  if (opt == 1) arg(&c, "--insname=INS_A"), SETS(f.insname, "INS_A");
  if (opt == 2) arg(&c, "--target-id=999"), f.target_id = 999;
  arg(&c, in), arg(&c, out);
  if (clob == 2) arg(&c, "--clobber");
  snap a = take(in), b = take(out), d = take(inner);
  int rc = run("oifits-filter", &c);
  bool ok = input == 0 && usable && (!exists || clob);
  if (ok)
  {
    MC_CHECK(rc == 0, "exit status %d from oifits-filter %s: %.800s", rc,
             show(&c), out_text);
    oi_fits got;
    get(out, &got, show(&c));
    oi_fits *want = oracle_filter(oi, &f);
    ds_as_written(want);
    ds_expect(want, &got, SER_NODATE | SER_KW15, show(&c));
    free_oi_fits(&got);
    if (out != in) same(&a, "input", &c);
  }
  else
  {
    MC_CHECK(rc != 0, "exit status 0 from oifits-filter %s", show(&c));
    if (out != inner) same(&b, "output of a failed run", &c);
    same(&d, "output of a failed run", &c);
    if (out != in) same(&a, "input of a failed run", &c);
  }
  mc_outcome((uint64_t)(rc * 10 + ok));
  unlink(out);
  unlink(inner);
  rmdir(dir);
}

/* storage that is full */
static void full(const char *prog, const cmdline *c, char *out)
{
  int rc = run(prog, c);
  MC_CHECK(rc == 0, "exit status %d from %s %s", rc, prog, show(c));
  size_t n;
  free(slurp(out, &n));
  static const int at[] = {0, 1, 2880, 5761, 20000, -3000, -2880, -1441, -1, 0};
  for (int i = 0; i < 10; i++)
  {
    unlink(out);
    fsize_limit = i == 9 ? (long)n : at[i] < 0 ? (long)n + at[i] : at[i];
    rc = run(prog, c);
    long l = fsize_limit;
    fsize_limit = -1;
    MC_CHECK((rc == 0) == (l >= (long)n),
             "exit status %d from %s %s with room for %ld of %zu bytes", rc,
             prog, show(c), l, n);
    mc_evals(1);
  }
  unlink(out);
}
static void c07_full(void)
{
  int opt = mc_pick(3, "option");
  mc_mine();
  char *in, *out = path_of("filt-out.fits");
  filter_input(&in);
  cmdline c = {.n = 0};
  unlink(out);
  if (opt == 1) arg(&c, "--accept-vis=0");
  if (opt == 2) arg(&c, "--target-id=1");
  arg(&c, in), arg(&c, out);
  full("oifits-filter", &c, out);
}

/* ------------------------------------------------------------------ */
/* C12: check */

/* text that must appear, at or after *pos */
static void must(const char **pos, const char *text, const cmdline *c)
{
  const char *p = strstr(*pos, text);
  if (!p)
    mc_fail("oifits-check %s does not print '%.600s' (after '%.200s')", show(c),
            text, *pos == out_text ? "" : *pos);
  *pos = p + strlen(text);
}

static void check_file(char *path)
{
  cmdline c = {.n = 0};
  arg(&c, path);
  snap a = take(path);
  int rc = run("oifits-check", &c);
  MC_CHECK(rc == 0, "exit status %d from oifits-check %s: %.600s", rc, show(&c),
           out_text);
  oi_fits got;
  get(path, &got, "check");
  const char *pos = out_text;
  char *sum = strdup(format_oi_fits_summary(&got));
  must(&pos, sum, &c);
  free(sum);
  int worst = 0, breaches = 0;
  static const char *const level[] = {
      NULL, "Valid OIFITS, but may cause problems for some reading software",
      "Not valid OIFITS"};
  (void)level;
  for (int k = 0; k < NCHECK; k++)
  {
    chk_res r;
    chk_oracle(&got, k, &r);
    if (r.level == OI_BREACH_NONE) continue;
    breaches++;
    if (r.level > worst) worst = r.level;
    char b[100];
    snprintf(b, sizeof(b), ", %d occurrences:-\n", r.n);
    /* heading, then the places */
    const char *p = pos;
    must(&p, "*** ", &c);
    p = strstr(p, "\n");
    MC_CHECK(p, "output of oifits-check %s ends early", show(&c));
    const char *q = strstr(p + 1, "\n");
    const char *o = strstr(p, b);
    MC_CHECK(q && o && o < q, "oifits-check %s does not print '%s' for %s: %.400s",
             show(&c), b, chk_name[k], p);
    pos = q;
    for (int i = 0; i < r.n && i < MAX_REPORT - 1; i++)
    {
      char loc[FLEN_VALUE + 20];
      snprintf(loc, sizeof(loc), "\n    %s", r.loc[i]);
      must(&pos, loc, &c);
    }
    if (r.n >= MAX_REPORT) must(&pos, "\n    [List truncated]", &c);
  }
  const char *p = out_text;
  int n = 0;
  while ((p = strstr(p, "occurrences:-"))) n++, p++;
  MC_CHECK(n == breaches, "oifits-check %s reports %d breaches instead of %d",
           show(&c), n, breaches);
  bool passed = strstr(out_text, "All checks passed") != NULL;
  MC_CHECK(passed == (breaches == 0),
           "oifits-check %s: %d breaches, but 'All checks passed' is%s printed",
           show(&c), breaches, passed ? "" : " not");
  same(&a, "file checked", &c);
  mc_outcome((uint64_t)(breaches * 10 + worst));
  free_oi_fits(&got);
}

static void c12_check(void)
{
  int v1 = mc_pick(2, "version");
  oi_fits *oi = v1 ? ds_gen_v1() : ds_gen(true);
  mc_mine();
  char *p = path_of("check.fits");
  unlink(p);
  if (v1)
  {
    v1opt o = {0};
    rf_file *f = oif_v1(oi, &o);
    rf_write(f, p);
    rf_free(f);
  }
  else
    put(oi, p);
  check_file(p);
  unlink(p);
}

/* a conforming dataset with a few breaches */
static void c12_breaches(void)
{
  oi_fits *oi = chk_base(2, 2, 3);
  oi_vis *v = NTH(oi->visList, 0);
  oi_vis2 *v2 = NTH(oi->vis2List, 0);
  oi_t3 *t3 = NTH(oi->t3List, 0);
  oi_array *ar = NTH(oi->arrayList, 0);
  oi_flux *fl = NTH(oi->fluxList, 0);
  oi_wavelength *w = NTH(oi->wavelengthList, 0);
  if (mc_dev(2, "origin")) SETS(oi->header.origin, "");
  if (mc_dev(2, "frame")) SETS(ar->frame, "ELSEWHERE");
  if (mc_dev(2, "amptyp")) SETS(v->amptyp, "funny");
  if (mc_dev(2, "differential")) SETS(v->phityp, "differential");
  if (mc_dev(2, "same target"))
    SETS(oi->targets.targ[1].target, oi->targets.targ[0].target);
  if (mc_dev(2, "no target")) v2->record[0].target_id = 77;
  if (mc_dev(2, "no array")) SETS(t3->arrname, "NOWHERE");
  if (mc_dev(2, "no arrname")) SETS(t3->arrname, "");
  if (mc_dev(2, "no element")) v->record[1].sta_index[0] = 99;
  if (mc_dev(2, "no correlation")) SETS(v2->corrname, "NOCORR");
  if (mc_dev(2, "negative error")) v2->record[1].vis2err[0] = -1;
  if (mc_dev(2, "t3amp")) t3->record[0].t3amp[0] = 1.9;
  if (mc_dev(2, "order") && w->nwave > 1) w->eff_wave[0] = 3 * w->eff_wave[1];
  if (mc_dev(2, "calstat")) fl->calstat = '?';
  if (mc_dev(2, "many"))
    for (long i = 0; i < v->numrec; i++)
      for (int j = 0; j < v->nwave; j++) v->record[i].visamperr[j] = -1;
  mc_mine();
  char *p = path_of("check.fits");
  put(oi, p);
  check_file(p);
  unlink(p);
}

/* ---- wrong command lines of the three utilities ---- */
static void c12_arguments(void)
{
  int prog = mc_pick(3, "utility"); /* check, merge, upgrade */
  static const char *const name[] = {"oifits-check", "oifits-merge",
                                     "oifits-upgrade"};
  int n = mc_pick(7, "arguments");
  /* which file, if any, is unusable */
  int bad = mc_pick(NBAD + 1, "bad");
  int which = bad ? mc_pick(3, "which") : 0;
  int output = mc_pick(4, "output"); /* absent, garbage, dataset, no directory */
  mc_mine();
  char *good = path_of("u-in.fits"), *good2 = path_of("u-in2.fits");
  unlink(good);
  if (prog == 2)
  {
    oi_fits *oi = ds_gen_v1();
    v1opt o = {0};
    rf_file *f = oif_v1(oi, &o);
    rf_write(f, good);
    rf_free(f);
  }
  else
    put(ds_small(), good);
  put(ds_rich(), good2);
  char *badf = bad ? bad_input(bad - 1) : NULL;
  char *out = path_of(output == 3 ? "nodir/u-out.fits" : "u-out.fits");
  unlink(out);
  if (output == 1) spew(out, "precious", 8);
  if (output == 2) put(ds_small(), out);
  cmdline c = {.n = 0};
  bool usage, unreadable = false;
  switch (prog)
  {
  case 0:
    if (output || which) return;
    if (n > 0) arg(&c, bad ? badf : good);
    for (int i = 1; i < n; i++) arg(&c, good2);
    usage = n != 1;
    unreadable = bad != 0;
    break;
  case 1:
    for (int i = 0; i < n; i++)
      if (i == 0)
        arg(&c, out);
      else if (bad && which == i - 1)
        arg(&c, badf), unreadable = true;
      else
        arg(&c, i % 2 ? good : good2);
    usage = n < 3;
    break;
  default:
    if (which) return;
    if (n > 0) arg(&c, bad ? badf : good);
    if (n > 1) arg(&c, out);
    if (n > 2) arg(&c, "ORIGIN");
    if (n > 3) arg(&c, "OBSERVER");
    if (n > 4) arg(&c, "INSMODE");
    if (n > 5) return;
    usage = n < 5;
    unreadable = bad != 0;
  }
  if (bad && !unreadable) return;
  snap a = take(good), b = take(good2), o = take(out);
  int rc = run(name[prog], &c);
  if (usage || unreadable || (prog && output))
  {
    MC_CHECK(rc != 0, "exit status 0 from %s %s", name[prog], show(&c));
    if (usage)
      MC_CHECK(strstr(out_text, "Usage:"), "no usage message from %s %s",
               name[prog], show(&c));
    MC_CHECK(!strstr(out_text, "All checks passed"),
             "unusable file passes: %s %s", name[prog], show(&c));
    same(&o, "output of a failed run", &c);
  }
  else
  {
    MC_CHECK(rc == 0, "exit status %d from %s %s: %.600s", rc, name[prog],
             show(&c), out_text);
    if (prog) MC_CHECK(file_exists(out), "no output from %s %s", name[prog], show(&c));
    free(o.b);
  }
  same(&a, "input", &c);
  same(&b, "input", &c);
  mc_outcome((uint64_t)rc);
  unlink(out);
}

/* ---- merge ---- */
static void merged(char **path, int n)
{
  char *out = path_of("m-out.fits");
  unlink(out);
  cmdline c = {.n = 0};
  arg(&c, out);
  snap s[64];
  oi_fits *in[64];
  for (int i = 0; i < n; i++)
  {
    arg(&c, path[i]);
    s[i] = take(path[i]);
    oi_fits got;
    get(path[i], &got, "input");
    in[i] = ds_clone(&got);
    free_oi_fits(&got);
  }
  int rc = run("oifits-merge", &c);
  MC_CHECK(rc == 0, "exit status %d from oifits-merge %s: %.600s", rc, show(&c),
           out_text);
  oi_fits got;
  get(out, &got, show(&c));
  oi_fits lib;
  mg_run(in, n, &lib);
  oi_fits *want = ds_clone(&lib);
  free_oi_fits(&lib);
  ds_as_written(want);
  char ctx[4100];
  snprintf(ctx, sizeof(ctx), "output of oifits-merge %s", show(&c));
  ds_expect(want, &got, SER_NODATE | SER_KW15, ctx);
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);
  for (int i = 0; i < n; i++) same(&s[i], "input", &c);
  unlink(out);
}

static void c12_merge(void)
{
  int n = 2;
  oi_fits *in[2] = {mg_input(0), mg_input(1)};
  mc_mine();
  char *p[2] = {path_of("m0.fits"), path_of("m1.fits")};
  for (int i = 0; i < n; i++) put(in[i], p[i]);
  merged(p, n);
  for (int i = 0; i < n; i++) unlink(p[i]);
}

static void c12_mergelist(void)
{
  int n = 2 + mc_pick(mc_thorough ? 4 : 2, "inputs"), k[8];
  for (int i = 0; i < n; i++) k[i] = mc_pick(4, "file");
  mc_mine();
  static char paths[4][600];
  char *p[8];
  if (!paths[0][0])
    for (int i = 0; i < 4; i++)
    {
      char b[20];
      sprintf(b, "ml%d.fits", i);
      strcpy(paths[i], mc_path(b));
      put(i == 0   ? ds_small()
          : i == 1 ? ds_rich()
          : i == 2 ? fd_base()
                   : chk_base(2, 2, 3),
          paths[i]);
    }
  for (int i = 0; i < n; i++) p[i] = paths[k[i]];
  merged(p, n);
}

/* conflicting tables with long names */
static void c12_names(void)
{
  int len = 8 + mc_pick(61, "length"); /* to 68 */
  int which = mc_pick(3, "table");
  int n = 2 + mc_pick(2, "inputs");
  mc_mine();
  char name[80];
  for (int i = 0; i < len; i++) name[i] = 'A' + i % 26;
  name[len] = 0;
  const char *an = which == 0 ? name : "ARR0", *in_ = which == 1 ? name : "INS0",
             *cn = which == 2 ? name : "COR0";
  oi_fits *in[3];
  char *p[3];
  for (int i = 0; i < n; i++)
  {
    oi_fits *oi = ds_new();
    ds_targets(oi, 2, false);
    ds_array(oi, an, 2 + i, 3 * i);
    ds_wave(oi, in_, 2 + i, 3 * i);
    ds_corr(oi, cn, 30 + i, 2, 3 * i);
    ds_inspol(oi, an, in_, 1, 2 + i, i);
    ds_vis(oi, an, in_, cn, 1, 2 + i, 10 * i);
    ds_vis2(oi, an, in_, cn, 1, 2 + i, 10 * i);
    ds_t3(oi, an, in_, cn, 1, 2 + i, 10 * i);
    ds_flux(oi, an, in_, cn, 1, 2 + i, 10 * i);
    char b[20];
    sprintf(b, "n%d.fits", i);
    p[i] = path_of(b);
    put(oi, p[i]);
    ds_as_written(oi);
    in[i] = oi;
  }
  char *out = path_of("m-out.fits");
  unlink(out);
  cmdline c = {.n = 0};
  arg(&c, out);
  for (int i = 0; i < n; i++) arg(&c, p[i]);
  int rc = run("oifits-merge", &c);
  MC_CHECK(rc == 0, "exit status %d from oifits-merge %s: %.600s", rc, show(&c),
           out_text);
  oi_fits got;
  get(out, &got, show(&c));
  merge_check_data(in, n, &got);
  free_oi_fits(&got);
  for (int i = 0; i < n; i++) unlink(p[i]);
  unlink(out);
}

static void c12_full(void)
{
  int prog = mc_pick(2, "utility");
  mc_mine();
  char *out = path_of("u-out.fits"), *a = path_of("f0.fits"),
       *b = path_of("f1.fits");
  unlink(out);
  cmdline c = {.n = 0};
  if (prog == 0)
  {
    put(ds_small(), a);
    put(ds_rich(), b);
    arg(&c, out), arg(&c, a), arg(&c, b);
    full("oifits-merge", &c, out);
  }
  else
  {
    unlink(a);
    v1opt o = {0};
    rf_file *f = oif_v1(ds_gen_v1(), &o);
    rf_write(f, a);
    rf_free(f);
    arg(&c, a), arg(&c, out), arg(&c, "A"), arg(&c, "B"), arg(&c, "C");
    full("oifits-upgrade", &c, out);
  }
}

/* ---- upgrade ---- */
static const char *const kw[] = {"ESO", "", "two words", "it's", "a-name/of.some_length (64 characters) 0123456789 0123456789 abcd"};
static void put_v1(oi_fits *oi, const char *path)
{
  v1opt o = {0};
  rf_file *f = oif_v1(oi, &o);
  unlink(path);
  rf_write(f, path);
  rf_free(f);
}
static void c12_upgrade(void)
{
  int two = mc_dev(2, "version 2 input");
  oi_fits *oi = two ? ds_small() : ds_gen_v1();
  int k[3];
  for (int i = 0; i < 3; i++) k[i] = mc_dev(5, "keyword");
  int noarray = two ? 0 : mc_dev(2, "no array");
  int gone = two ? 0 : mc_dev(8, "data left out");
  int extra = mc_dev(2, "extra argument");
  mc_mine();
  char *in = path_of("up-in.fits"), *out = path_of("up-out.fits");
  unlink(in), unlink(out);
  if (two)
    put(oi, in);
  else
  {
    v1opt o = {0};
    rf_file *f = oif_v1(oi, &o);
    for (int i; noarray && (i = rf_nth(f, "OI_ARRAY", 0)) >= 0;) rf_delhdu(f, i);
    static const char *const data[] = {"OI_VIS", "OI_VIS2", "OI_T3"};
    for (int k = 0; k < 3; k++)
      for (int i; (gone >> k & 1) && (i = rf_nth(f, data[k], 0)) >= 0;) rf_delhdu(f, i);
    rf_write(f, in);
    rf_free(f);
  }
  cmdline c = {.n = 0};
  arg(&c, in), arg(&c, out);
  for (int i = 0; i < 3; i++) arg(&c, kw[k[i]]);
  if (extra) arg(&c, "ignored");
  oi_fits got;
  get(in, &got, "input");
  oi_fits *want = ds_clone(&got);
  free_oi_fits(&got);
  snap a = take(in), o = take(out);
  int rc = run("oifits-upgrade", &c);
  if (two || want->numArray == 0)
  {
    MC_CHECK(rc != 0, "exit status 0 from oifits-upgrade %s", show(&c));
    same(&o, "output of a failed run", &c);
  }
  else
  {
    MC_CHECK(rc == 0, "exit status %d from oifits-upgrade %s: %.600s", rc,
             show(&c), out_text);
    get(out, &got, show(&c));
    SETS(want->header.origin, kw[k[0]]);
    SETS(want->header.observer, kw[k[1]]);
    SETS(want->header.insmode, kw[k[2]]);
    ds_as_written(want);
    char ctx[4100];
    snprintf(ctx, sizeof(ctx), "output of oifits-upgrade %s", show(&c));
    ds_expect(want, &got, SER_NODATE | SER_KW15, ctx);
    MC_CHECK(is_oi_fits_two(&got) && !is_oi_fits_one(&got),
             "output of oifits-upgrade %s is not version 2", show(&c));
    mc_outcome(ds_hash(&got, SER_NODATE));
    free_oi_fits(&got);
    free(o.b);
  }
  same(&a, "input", &c);
  unlink(in), unlink(out);
}

/* many inputs; tables of the same names in all of them */
static void c12_many(void)
{
  int n = 2 + mc_pick(mc_thorough ? 59 : 30, "inputs"), mode = mc_pick(4, "mode");
  mc_mine();
  static char paths[64][700];
  char *p[64];
  for (int i = 0; i < n; i++)
  {
    oi_fits *oi = ds_new();
    ds_targets(oi, mode == 1 ? 3 : 1 + i % 3, i % 2);
    for (int k = 0; k < oi->targets.ntarget; k++)
    {
      char b[32];
      snprintf(b, sizeof(b), "T%d", mode == 2 ? 100 * i + k : (i + k) % 50);
      SETS(oi->targets.targ[k].target, b);
      oi->targets.targ[k].target_id = oi->targets.ntarget - k;
    }
    ds_array(oi, "A", 2, mode == 3 ? 0 : i);
    ds_wave(oi, "I", 1, mode == 3 ? 0 : i);
    ds_corr(oi, "C", 5, 1, i);
    oi_vis2 *v = ds_vis2(oi, "A", "I", "C", 2, 1, i);
    v->record[1].target_id = oi->targets.ntarget;
    char b[32];
    snprintf(b, sizeof(b), "many%d.fits", i);
    strcpy(paths[i], mc_path(b));
    p[i] = paths[i];
    put(oi, p[i]);
    ds_free(oi);
  }
  merged(p, n);
  for (int i = 0; i < n; i++) unlink(p[i]);
}

/* one dimension at a time, through each utility */
static void c12_sizes(void)
{
  int prog = mc_pick(3, "utility"), dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 40 : 6, mc_thorough ? 1025 : 129);
  if (prog == 2)
  {
    if (dim == SZ_CORRS || dim == SZ_POLREC || dim == SZ_FLUXREC || dim == SZ_NFLUX || dim == SZ_NCORR ||
        dim == SZ_NPOL || dim == SZ_REFMAP)
      mc_skip();
  }
  mc_mine();
  char *in = path_of("sz-in.fits"), *in2 = path_of("sz-in2.fits"), *out = path_of("sz-out.fits");
  unlink(out);
  oi_fits *oi = ds_sized(dim, n, 0, prog == 2);
  if (prog == 0)
  {
    put(oi, in);
    check_file(in);
  }
  else if (prog == 1)
  {
    char *p[2] = {in, in2};
    put(oi, in);
    put(ds_sized(dim, n % 3 + 1, n % 2 ? 300 : 0, false), in2);
    merged(p, 2);
  }
  else
  {
    put_v1(oi, in);
    cmdline c = {.n = 0};
    arg(&c, in), arg(&c, out), arg(&c, "ORG"), arg(&c, "OBS"), arg(&c, "MODE");
    oi_fits got;
    get(in, &got, "input");
    oi_fits *want = ds_clone(&got);
    free_oi_fits(&got);
    snap a = take(in);
    int rc = run("oifits-upgrade", &c);
    MC_CHECK(rc == 0, "exit status %d from oifits-upgrade %s: %.600s", rc, show(&c), out_text);
    get(out, &got, show(&c));
    SETS(want->header.origin, "ORG");
    SETS(want->header.observer, "OBS");
    SETS(want->header.insmode, "MODE");
    ds_as_written(want);
    ds_expect(want, &got, SER_NODATE | SER_KW15, "output of oifits-upgrade");
    mc_outcome(ds_hash(&got, SER_NODATE));
    free_oi_fits(&got);
    same(&a, "input", &c);
  }
  unlink(in), unlink(in2), unlink(out);
}

static void c07_sizes(void)
{
  int dim = mc_pick(SZ_DIMS, "dimension");
  int n = sz_pick(dim, mc_thorough ? 40 : 8, mc_thorough ? 1025 : 129);
  int opt = mc_pick(3, "option");
  mc_mine();
  char *in = path_of("sz-in.fits"), *out = path_of("sz-out.fits");
  unlink(out);
  oi_fits *oi = ds_sized(dim, n, 0, false);
  fd_scale(oi);
  oi_filter_spec f;
  init_oi_filter(&f);
  put(oi, in);
  oi_fits got;
  get(in, &got, "input");
  oi_fits *rd = ds_clone(&got);
  free_oi_fits(&got);
  cmdline c = {.n = 0};
  if (opt == 1)
  {
    f.target_id = (n + 1) / 2;
    arg(&c, argf("--target-id=%d", f.target_id));
  }
  if (opt == 2)
  {
    snprintf(f.insname, sizeof(f.insname), "INS*%d", (n - 1) % 10);
    f.mjd_range[1] = 50002;
    arg(&c, argf("--insname=%s", f.insname)), arg(&c, "--mjd-max=50002");
  }
  arg(&c, in), arg(&c, out);
  snap a = take(in);
  int rc = run("oifits-filter", &c);
  MC_CHECK(rc == 0, "exit status %d from oifits-filter %s: %.600s", rc, show(&c), out_text);
  get(out, &got, show(&c));
  oi_fits *want = oracle_filter(rd, &f);
  ds_as_written(want);
  ds_expect(want, &got, SER_NODATE | SER_KW15, "output of oifits-filter");
  mc_outcome(ds_hash(&got, SER_NODATE));
  free_oi_fits(&got);
  same(&a, "input", &c);
  unlink(in), unlink(out);
}

/* file names: blanks, quotes, other alphabets, long ones, in a subdirectory,
 * with the same or no ending */
static const char *const fname[] = {"plain.fits", "with two blanks.fits", "noending", "it's \"quoted\".fits",
                                    "\xc3\xa9toile.fits", ".hidden.fits", "a=b,c;d&e$f.fits", "UPPER.FITS",
                                    "sub/inner.fits", "sub/../plain2.fits", "x.oifits.fits", "12345",
                                    "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjj"
                                    "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjj.fits"};
#define NFNAME ((int)(sizeof(fname) / sizeof(*fname)))
static void filenames(int prog)
{
  int i = mc_pick(NFNAME, "input name"), o = mc_pick(NFNAME, "output name");
  if (i == o || (prog == 1 && o)) mc_skip();
  mc_mine();
  mkdir(mc_path("sub"), 0700);
  char *in = path_of(fname[i]), *out = path_of(fname[o]);
  unlink(in), unlink(out);
  cmdline c = {.n = 0};
  oi_fits *oi = prog == 3 ? ds_sized(SZ_TARGETS, 2, 0, true) : ds_small(), got, *want = NULL;
  if (prog == 3) put_v1(oi, in);
  else put(oi, in);
  get(in, &got, "input");
  want = ds_clone(&got);
  free_oi_fits(&got);
  if (prog == 1)
  {
    check_file(in);
    unlink(in);
    return;
  }
  static const char *const name[] = {"oifits-filter", "", "oifits-merge", "oifits-upgrade"};
  if (prog == 2) arg(&c, out), arg(&c, in), arg(&c, in);
  else arg(&c, in), arg(&c, out);
  if (prog == 3) arg(&c, "A"), arg(&c, "B"), arg(&c, "C");
  snap a = take(in);
  int rc = run(name[prog], &c);
  MC_CHECK(rc == 0, "exit status %d from %s %s: %.600s", rc, name[prog], show(&c), out_text);
  MC_CHECK(file_exists(out), "%s %s did not create its output", name[prog], show(&c));
  get(out, &got, show(&c));
  if (prog == 2)
  {
    oi_fits *l[2] = {want, want}, lib;
    mg_run(l, 2, &lib);
    want = ds_clone(&lib);
    free_oi_fits(&lib);
  }
  if (prog == 0)
  {
    oi_filter_spec f;
    init_oi_filter(&f);
    want = oracle_filter(want, &f);
  }
  if (prog == 3)
    SETS(want->header.origin, "A"), SETS(want->header.observer, "B"), SETS(want->header.insmode, "C");
  ds_as_written(want);
  ds_expect(want, &got, SER_NODATE | SER_KW15, show(&c));
  mc_outcome(ds_hash(&got, SER_NODATE) + i * 50 + o);
  free_oi_fits(&got);
  same(&a, "input", &c);
  /* a second run must not touch the output */
  snap b = take(out);
  rc = run(name[prog], &c);
  MC_CHECK(rc != 0, "exit status 0 from %s %s although the output exists", name[prog], show(&c));
  same(&b, "existing output", &c);
  unlink(in), unlink(out);
}
static void c07_filenames(void) { filenames(0); }
static void c12_filenames(void) { filenames(1 + mc_pick(3, "utility")); }

const mc_scope scopes_util[] = {
    {"C07", "options", c07_options, 2, 3, 0,
     "all command lines with up to 2 (thorough 3) options or variations of style over 84 option values"},
    {"C07", "format", c07_format, 2, 3, 0,
     "filter specifications (up to 2, thorough 3, criteria from their defaults) and their printed description"},
    {"C07", "parse", c07_parse, 3, 4, 0,
     "the option group parsed in this process: every command line within the bound; specification and result of apply_user_oi_filter"},
    {"C07", "parses", c07_parses, 0, 0, 0,
     "2 (thorough 3) command lines parsed one after another"},
    {"C07", "everyday", c07_everyday, 0, 0, 0,
     "no option, or one that restricts nothing, on all combinations of unusual but possible wavelengths, baselines, dates and SNRs"},
    {"C07", "edges", c07_edges, 0, 0, 0,
     "every wavelength from 100 nm to 10.1 micron in steps of 5 nm (thorough: 0.1 nm) as a limit: which of three adjacent channels are kept"},
    {"C07", "malformed", c07_malformed, 0, 0, 0,
     "27 kinds of malformed command line, with and without an existing output file"},
    {"C07", "states", c07_states, 0, 0, 0,
     "all states of input and output, with and without permission to overwrite"},
    {"C07", "full", c07_full, 0, 0, 0, "storage that is full at ten sizes"},
    {"C12", "check", c12_check, 1, 2, 0,
     "files of version 1 and 2 within the deviation bound"},
    {"C12", "breaches", c12_breaches, 3, 5, 0,
     "files with every combination of up to 3 (thorough 5) of 15 breaches"},
    {"C12", "names", c12_names, 0, 0, 0,
     "conflicting table names of every length up to what a keyword holds"},
    {"C12", "arguments", c12_arguments, 0, 0, 0,
     "0 to 6 arguments of each utility with every kind of unusable input and existing output"},
    {"C12", "merge", c12_merge, 1, 2, 0,
     "all pairs of inputs within the deviation bound"},
    {"C12", "mergelist", c12_mergelist, 0, 0, 0,
     "all lists of 2 or 3 (thorough 5) of four files"},
    {"C12", "upgrade", c12_upgrade, 2, 3, 0,
     "all version 1 inputs and keyword values within the deviation bound"},
    {"C12", "full", c12_full, 0, 0, 0, "storage that is full at ten sizes"},
    {"C07", "sizes", c07_sizes, 0, 0, 0,
     "each of 18 dimensions over a range and boundary sizes, three command lines"},
    {"C07", "filenames", c07_filenames, 0, 0, 0,
     "all pairs of 13 kinds of input and output file name; a second run with the same output"},
    {"C12", "many", c12_many, 0, 0, 0, "merging 2 to 31 (60) files, four patterns of names and contents"},
    {"C12", "sizes", c12_sizes, 0, 0, 0,
     "each of 18 dimensions over a range and boundary sizes, through each utility"},
    {"C12", "filenames", c12_filenames, 0, 0, 0,
     "all pairs of 13 kinds of input and output file name, each utility; a second run with the same output"},
    {0}};
