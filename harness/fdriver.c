/* what the Fortran calls should have done, by the C interface */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "simint/simint.h"
#define SI X(s,am,11) X(s,nprim,12)
#define SP Y(s,alpha,0x1010) Y(s,coef,0x1020) Y(s,ptr,0x1030)
#define PI_ X(p,am1,21) X(p,am2,22) X(p,nprim,23) X(p,nshell12,24) X(p,nshell12_clip,25)
#define PP Y(p,nprim12,0x2010) Y(p,AB_x,0x2020) Y(p,AB_y,0x2030) Y(p,AB_z,0x2040) Y(p,x,0x2050) Y(p,y,0x2060) Y(p,z,0x2070) Y(p,PA_x,0x2080) Y(p,PA_y,0x2090) Y(p,PA_z,0x20a0) Y(p,PB_x,0x20b0) Y(p,PB_y,0x20c0) Y(p,PB_z,0x20d0) Y(p,alpha,0x20e0) Y(p,prefac,0x20f0) Y(p,screen,0x2100) Y(p,ptr,0x2110)
#if SIMINT_OSTEI_MAXDER > 0
#define PD Y(p,alpha2,0x2120) Y(p,beta2,0x2130)
#else
#define PD
#endif
#define D(o,m,v) o->m = v; printf("C " #o "." #m " %.17g\n", (double)(v));
#define X(o,m,v) o->m = v; printf("C " #o "." #m " %d\n", v);
#define Y(o,m,v) o->m = (void *)(uintptr_t)(v); printf("C " #o "." #m " %ld\n", (long)(v));
void cs_fill(struct simint_shell *s, struct simint_multi_shellpair *p)
{
  memset(s, 0, sizeof *s); memset(p, 0, sizeof *p);
  SI SP PI_ PP PD D(s,x,1.5) D(s,y,2.5) D(s,z,3.5) D(p,screen_max,4.5) X(s,memsize,31) X(p,memsize,32)
  fflush(stdout);
}
void cs_show(struct simint_shell *s, struct simint_multi_shellpair *p) {}
struct rec { int id; int kind; size_t n; char *b; };
static struct rec R[400]; static int nR;
static void put(int id, int kind, const void *b, size_t n) { R[nR].id = id; R[nR].kind = kind; R[nR].n = n; R[nR].b = malloc(n + 1); memcpy(R[nR].b, b, n); nR++; }
static void chk(int id, const void *b, size_t n, const char *what)
{
  for(int i = 0; i < nR; i++) if(R[i].id == id) {
    if(R[i].n != n) { printf("BAD step %d (%s): size %zu, by the C interface %zu\n", id, what, n, R[i].n); fflush(stdout); return; }
    for(size_t k = 0; k < n; k++) if(R[i].b[k] != ((const char *)b)[k]) { printf("BAD step %d (%s): differs from what the C interface gives, at byte %zu\n", id, what, k); fflush(stdout); return; }
    return; }
  printf("BAD step %d unknown\n", id); fflush(stdout);
}
/* contents with the pointers replaced by what they point to */
static size_t ser(const struct simint_shell *s, char *o)
{
  size_t n = 0;
  if(!s->ptr) { memcpy(o, &s->memsize, 8); o[8] = 0; return 9; }
  struct simint_shell t = *s; memset(&t.alpha, 0, 24); t.alpha = t.coef = 0; t.ptr = 0; t.memsize = s->memsize;
  memcpy(o, &t, sizeof t); n = sizeof t; o[n++] = s->alpha != 0; o[n++] = s->ptr != 0;
  if(s->alpha) { memcpy(o + n, s->alpha, 8ul * s->nprim); n += 8ul * s->nprim; }
  if(s->coef) { memcpy(o + n, s->coef, 8ul * s->nprim); n += 8ul * s->nprim; }
  return n;
}
static size_t serp(const struct simint_multi_shellpair *p, char *o)
{
  size_t n = 0; int v[5] = { p->am1, p->am2, p->nprim, p->nshell12, p->nshell12_clip };
  if(!p->ptr) memset(v, 0, sizeof v);
  memcpy(o, v, sizeof v); n += sizeof v; memcpy(o + n, &p->memsize, 8); n += 8;
  o[n++] = p->ptr != 0;
  if(!p->ptr) return n;
  memcpy(o + n, &p->screen_max, 8); n += 8;
  int np = 0; for(int i = 0; i < p->nshell12; i++) np += p->nprim12[i];
  memcpy(o + n, p->nprim12, 4ul * p->nshell12); n += 4ul * p->nshell12;
  double *a[] = { p->AB_x, p->AB_y, p->AB_z }; for(int i = 0; i < 3; i++) { memcpy(o + n, a[i], 8ul * p->nshell12); n += 8ul * p->nshell12; }
  double *b[] = { p->x, p->y, p->z, p->PA_x, p->PA_y, p->PA_z, p->PB_x, p->PB_y, p->PB_z, p->alpha, p->prefac };
  for(int i = 0; i < 11; i++) { memcpy(o + n, b[i], 8ul * p->nprim12[0]); n += 8ul * p->nprim12[0]; }
  return n;
}
static char buf[1 << 20];
static int recording;
void cs_cmp(int id, struct simint_shell *s) { size_t n; if(id == 100) { n = 9; memcpy(buf, &s->memsize, 8); buf[8] = s->ptr != 0; } else n = ser(s, buf); if(recording) put(id, 0, buf, n); else chk(id, buf, n, "shell"); }
void cs_cmpp(int id, struct simint_multi_shellpair *s) { size_t n = serp(s, buf); if(recording) put(id, 1, buf, n); else chk(id, buf, n, "shell pair"); }
void cs_i(int id, int v) { if(recording) put(id, 2, &v, 4); else chk(id, &v, 4, "result"); }
void cs_d(int id, int n, double *v) { if(recording) put(id, 3, v, 8ul * n); else chk(id, v, 8ul * n, "values"); }
#define FILL for(int k = 0; k < 20000; k++) ints[k] = 7.0
void cs_run(void)
{
  static struct simint_shell sh[6], cp; static struct simint_multi_shellpair mp[3], mo; static double ints[20000]; int r;
  double *work; if(posix_memalign((void **)&work, 64, 8000000)) exit(9);
  recording = 1;
  simint_init();
  simint_initialize_shell(&sh[5]); cs_cmp(1, &sh[5]);
  simint_initialize_shells(5, sh); for(int i = 1; i <= 5; i++) cs_cmp(10 + i, &sh[i-1]);
  for(int i = 1; i <= 4; i++) {
    double al[3] = { 0.55 + i, 1.35 * i, 3.3 }, co[3] = { 0.7, -0.21 * i, 1.7 };
    simint_create_shell(3, (i - 1) % 2, 0.3 * i, -0.23 * i, 1.1 / i, al, co, &sh[i-1]); cs_cmp(20 + i, &sh[i-1]); }
  simint_normalize_shells(3, sh); for(int i = 1; i <= 4; i++) cs_cmp(30 + i, &sh[i-1]);
  simint_create_zero_shell(&sh[4]); cs_cmp(41, &sh[4]);
  simint_initialize_shell(&cp); simint_copy_shell(&sh[1], &cp); cs_cmp(42, &cp); cs_cmp(43, &sh[1]);
  simint_initialize_multi_shellpair(&mo); cs_cmpp(50, &mo);
  simint_initialize_multi_shellpairs(3, mp); for(int i = 1; i <= 3; i++) cs_cmpp(50 + i, &mp[i-1]);
  struct simint_shell B[2] = { sh[1], sh[3] }, AB[4] = { sh[0], sh[3], sh[2], sh[1] };
  simint_create_multi_shellpair(1, &sh[0], 2, B, &mp[0], 0); cs_cmpp(60, &mp[0]);
  simint_create_multi_shellpair(1, &sh[2], 1, &sh[0], &mo, 1); cs_cmpp(61, &mo);
  simint_create_multi_shellpair2(2, AB, &mp[1], 2); cs_cmpp(62, &mp[1]);
  cs_i(70, simint_eri_worksize(0, 1)); cs_i(71, simint_eri_workmem(0, 1)); cs_i(72, simint_eri_worksize(0, 0)); cs_i(73, simint_eri_workmem(0, 0));
#if SIMINT_OSTEI_MAXDER > 0
  cs_i(74, simint_eri_worksize(1, 1)); cs_i(75, simint_eri_workmem(1, 1)); cs_i(76, simint_eri_worksize(1, 0));
#endif
  FILL; r = simint_compute_eri(&mp[0], &mp[1], 0.0, work, ints); cs_i(80, r); cs_d(81, 20000, ints);
  FILL; r = simint_compute_eri(&mo, &mp[1], 1e-3, work, ints); cs_i(82, r); cs_d(83, 20000, ints);
#if SIMINT_OSTEI_MAXDER > 0
  FILL; r = simint_compute_eri_deriv(1, &mp[0], &mp[1], 0.0, work, ints); cs_i(84, r); cs_d(85, 20000, ints);
#endif
  FILL; r = simint_compute_eri_deriv(0, &mo, &mp[1], 1e-2, work, ints); cs_i(86, r); cs_d(87, 20000, ints);
  FILL; r = simint_compute_overlap(&sh[0], &sh[1], ints); cs_i(90, r); cs_d(91, 100, ints);
  FILL; r = simint_compute_ke(&sh[2], &sh[1], ints); cs_i(92, r); cs_d(93, 100, ints);
  double z[2] = { 2.1, 5.2 }, x[2] = { 0.6, 1.3 }, y[2] = { -0.7, 0.24 }, w[2] = { 3.3, -1.1 };
  FILL; r = simint_compute_potential(0, z, x, y, w, &sh[3], &sh[0], ints); cs_i(96, r); cs_d(97, 100, ints);
  FILL; r = simint_compute_potential(1, z, x, y, w, &sh[1], &sh[3], ints); cs_i(98, r); cs_d(99, 100, ints);
  FILL; r = simint_compute_potential(2, z, x, y, w, &sh[3], &sh[0], ints); cs_i(94, r); cs_d(95, 100, ints);
  simint_allocate_shell(2, &cp); cs_cmp(100, &cp);
  simint_free_multi_shellpair(&mo); cs_cmpp(101, &mo);
  simint_free_multi_shellpairs(2, mp); for(int i = 1; i <= 3; i++) cs_cmpp(110 + i, &mp[i-1]);
  simint_free_shell(&cp); cs_cmp(120, &cp);
  simint_free_shells(5, sh); for(int i = 1; i <= 5; i++) cs_cmp(120 + i, &sh[i-1]);
  simint_finalize();
  recording = 0;
}
