/* Plain recursive reference for Cartesian Gaussian integrals, used by the demonstrations. */
#ifndef REF_H
#define REF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "simint/simint.h"
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
static double rboys(int m, double x){
  if(x < 40){ double t = 1.0/(2*m+1), s = t; int k; for(k = 1; k < 2000 && t > s*1e-18; k++){ t *= 2*x/(2*m+2*k+1); s += t; } return exp(-x)*s; }
  double f = 0.5*sqrt(M_PI/x); int n; for(n = 0; n < m; n++) f = ((2*n+1)*f - exp(-x))/(2*x); return f;
}
typedef struct { double p, q, X, al, WP[3], WQ[3], off[4][3], pre; } rth;
static double th(const rth *t, int m, int q[4][3]){
  int C, d, Y; double r;
  for(C = 0; C < 4; C++) for(d = 0; d < 3; d++) if(q[C][d]){
    int bra = C < 2, y0 = bra ? 0 : 2, o0 = bra ? 2 : 0;
    q[C][d]--;
    r = t->off[C][d]*th(t, m, q) + (bra ? t->WP[d] : t->WQ[d])*th(t, m+1, q);
    for(Y = y0; Y < y0+2; Y++) if(q[Y][d]){ int n = q[Y][d]; q[Y][d]--; 
      r += n*0.5/(bra ? t->p : t->q)*(th(t, m, q) - t->al/(bra ? t->p : t->q)*th(t, m+1, q)); q[Y][d]++; }
    for(Y = o0; Y < o0+2; Y++) if(q[Y][d]){ int n = q[Y][d]; q[Y][d]--; r += n*0.5/(t->p+t->q)*th(t, m+1, q); q[Y][d]++; }
    q[C][d]++;
    return r;
  }
  return t->pre*rboys(m, t->X);
}
static void rsetup(rth *t, const double *e, const double c[4][3]){
  int d; double P[3], Q[3], ab = 0, cd = 0, pq = 0;
  t->p = e[0]+e[1]; t->q = e[2]+e[3]; t->al = t->p*t->q/(t->p+t->q);
  for(d = 0; d < 3; d++){
    P[d] = (e[0]*c[0][d]+e[1]*c[1][d])/t->p; Q[d] = (e[2]*c[2][d]+e[3]*c[3][d])/t->q;
    ab += (c[0][d]-c[1][d])*(c[0][d]-c[1][d]); cd += (c[2][d]-c[3][d])*(c[2][d]-c[3][d]); pq += (P[d]-Q[d])*(P[d]-Q[d]);
    t->off[0][d] = P[d]-c[0][d]; t->off[1][d] = P[d]-c[1][d]; t->off[2][d] = Q[d]-c[2][d]; t->off[3][d] = Q[d]-c[3][d];
    t->WP[d] = -t->q/(t->p+t->q)*(P[d]-Q[d]); t->WQ[d] = t->p/(t->p+t->q)*(P[d]-Q[d]);
  }
  t->X = t->al*pq;
  t->pre = 2*pow(M_PI, 2.5)/(t->p*t->q*sqrt(t->p+t->q))*exp(-e[0]*e[1]/t->p*ab)*exp(-e[2]*e[3]/t->q*cd);
}
static int rcart(int l, int k, int *v){ int x, y, n = 0; for(x = l; x >= 0; x--) for(y = l-x; y >= 0; y--) if(n++ == k){ v[0] = x; v[1] = y; v[2] = l-x-y; return 1; } return 0; }
#define RNC(l) (((l)+1)*((l)+2)/2)
/* contracted integral of four shells; der = -1: plain, else 3*centre+direction */
static double ref_eri(const struct simint_shell *A, const struct simint_shell *B, const struct simint_shell *C, const struct simint_shell *D, const int k[4], int der){
  const struct simint_shell *s[4] = {A, B, C, D}; int q[4][3], i[4], X; double r = 0; double c[4][3];
  for(X = 0; X < 4; X++){ rcart(s[X]->am, k[X], q[X]); c[X][0] = s[X]->x; c[X][1] = s[X]->y; c[X][2] = s[X]->z; }
  for(i[0] = 0; i[0] < A->nprim; i[0]++) for(i[1] = 0; i[1] < B->nprim; i[1]++) for(i[2] = 0; i[2] < C->nprim; i[2]++) for(i[3] = 0; i[3] < D->nprim; i[3]++){
    double e[4], w = 1, v; rth t;
    for(X = 0; X < 4; X++){ e[X] = s[X]->alpha[i[X]]; w *= s[X]->coef[i[X]]; }
    rsetup(&t, e, (const double (*)[3])c);
    if(der < 0) v = th(&t, 0, q);
    else { int X0 = der/3, d = der%3, n = q[X0][d]; q[X0][d]++; v = 2*e[X0]*th(&t, 0, q); q[X0][d]--; if(n){ q[X0][d]--; v -= n*th(&t, 0, q); q[X0][d]++; } }
    r += w*v;
  }
  return r;
}
/* one-electron primitives */
static double ov1(double a, double b, double A, double B, int i, int j){
  double p, P; if(i < 0 || j < 0) return 0; p = a+b; P = (a*A+b*B)/p;
  if(i == 0 && j == 0) return sqrt(M_PI/p)*exp(-a*b/p*(A-B)*(A-B));
  if(i > 0) return (P-A)*ov1(a,b,A,B,i-1,j) + ((i-1)*ov1(a,b,A,B,i-2,j) + j*ov1(a,b,A,B,i-1,j-1))/(2*p);
  return (P-B)*ov1(a,b,A,B,i,j-1) + ((j-1)*ov1(a,b,A,B,i,j-2) + i*ov1(a,b,A,B,i-1,j-1))/(2*p);
}
static double ke1(double a, double b, double A, double B, int i, int j){
  return -0.5*(j*(j-1)*ov1(a,b,A,B,i,j-2) - 2*b*(2*j+1)*ov1(a,b,A,B,i,j) + 4*b*b*ov1(a,b,A,B,i,j+2));
}
static double na(double p, const double *PA, const double *PB, const double *PC, double X, double pre, int m, int q[2][3]){
  int C, d, Y; double r;
  for(C = 0; C < 2; C++) for(d = 0; d < 3; d++) if(q[C][d]){
    q[C][d]--;
    r = (C ? PB : PA)[d]*na(p,PA,PB,PC,X,pre,m,q) - PC[d]*na(p,PA,PB,PC,X,pre,m+1,q);
    for(Y = 0; Y < 2; Y++) if(q[Y][d]){ int n = q[Y][d]; q[Y][d]--; r += n/(2*p)*(na(p,PA,PB,PC,X,pre,m,q) - na(p,PA,PB,PC,X,pre,m+1,q)); q[Y][d]++; }
    q[C][d]++;
    return r;
  }
  return pre*rboys(m, X);
}
/* kind 0 overlap, 1 kinetic, 2 attraction by nat charges (sign: -Z) */
static double ref_one(int kind, const struct simint_shell *A, const struct simint_shell *B, int ka, int kb, int nat, const double *Z, const double *x, const double *y, const double *z){
  int q[2][3], i, j, d, n; double r = 0, a3[3] = {A->x,A->y,A->z}, b3[3] = {B->x,B->y,B->z};
  rcart(A->am, ka, q[0]); rcart(B->am, kb, q[1]);
  for(i = 0; i < A->nprim; i++) for(j = 0; j < B->nprim; j++){
    double a = A->alpha[i], b = B->alpha[j], p = a+b, w = A->coef[i]*B->coef[j], s[3], t[3], v = 0;
    for(d = 0; d < 3; d++){ s[d] = ov1(a,b,a3[d],b3[d],q[0][d],q[1][d]); t[d] = ke1(a,b,a3[d],b3[d],q[0][d],q[1][d]); }
    if(kind == 0) v = s[0]*s[1]*s[2];
    else if(kind == 1) v = t[0]*s[1]*s[2] + s[0]*t[1]*s[2] + s[0]*s[1]*t[2];
    else for(n = 0; n < nat; n++){
      double PA[3], PB[3], PC[3], R = 0, AB = 0, N[3] = {x[n],y[n],z[n]};
      for(d = 0; d < 3; d++){ double P = (a*a3[d]+b*b3[d])/p; PA[d] = P-a3[d]; PB[d] = P-b3[d]; PC[d] = P-N[d]; R += PC[d]*PC[d]; AB += (a3[d]-b3[d])*(a3[d]-b3[d]); }
      v -= Z[n]*na(p,PA,PB,PC,p*R,2*M_PI/p*exp(-a*b/p*AB),0,q);
    }
    r += w*v;
  }
  return r;
}
static unsigned long rstate = 12345;
static double rrand(void){ rstate = rstate*6364136223846793005ul + 1442695040888963407ul; return (double)(rstate >> 11)/9007199254740992.0; }
static struct simint_shell rshell(int am, int np){
  struct simint_shell s; int i; simint_initialize_shell(&s); simint_allocate_shell(np, &s);
  s.am = am; s.nprim = np; s.x = rrand()*2-1; s.y = rrand()*2-1; s.z = rrand()*2-1;
  for(i = 0; i < np; i++){ s.alpha[i] = 0.3+2*rrand(); s.coef[i] = 0.5+rrand(); }
  return s;
}
static int rbad(const char *what, double got, double want, double scale){
  if(fabs(got-want) <= 1e-9*scale + 1e-12) return 0;
  printf("%s: got %.15g, expected %.15g\n", what, got, want); return 1;
}
/* compute the block of one batch pair and compare with the reference. bra/ket: arrays of 2*n shells. clips <= n. returns number of bad values */
static int check_batch(int nb, const struct simint_shell *bra, int bclip, int nk, const struct simint_shell *ket, int kclip, int der){
  struct simint_multi_shellpair P, Q; int bad = 0, ab, cd, k[4], d; long n, o = 0; double *work, *out;
  int scr = 0;
  simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);
  simint_create_multi_shellpair2(nb, bra, &P, scr); simint_create_multi_shellpair2(nk, ket, &Q, scr);
  P.nshell12_clip = bclip; Q.nshell12_clip = kclip;
  int am[4] = {bra[0].am, bra[1].am, ket[0].am, ket[1].am}, mx = 0, X; n = der ? 12 : 1;
  for(X = 0; X < 4; X++){ n *= RNC(am[X]); if(am[X] > mx) mx = am[X]; }
  n *= (long)bclip*kclip;
  work = SIMINT_ALLOC(simint_eri_worksize(der, mx)*sizeof(double)); out = SIMINT_ALLOC((n+16)*sizeof(double));
  memset(work, 0, simint_eri_worksize(der, mx)*sizeof(double));
  for(long i = 0; i < n+16; i++) out[i] = -777;
  int r = der ? simint_compute_eri_deriv(1, &P, &Q, 0.0, work, out) : simint_compute_eri(&P, &Q, 0.0, work, out);
  if(r != bclip*kclip){ printf("returned %d for %d quartets\n", r, bclip*kclip); bad++; }
  for(int i = 0; i < 16; i++) if(out[n+i] != -777){ printf("wrote past the end of the output\n"); bad++; break; }
  for(ab = 0; ab < bclip; ab++) for(cd = 0; cd < kclip; cd++)
    for(k[0] = 0; k[0] < RNC(am[0]); k[0]++) for(k[1] = 0; k[1] < RNC(am[1]); k[1]++) for(k[2] = 0; k[2] < RNC(am[2]); k[2]++) for(k[3] = 0; k[3] < RNC(am[3]); k[3]++)
      for(d = der ? 0 : -1; d < (der ? 12 : 0); d++){
        double w = ref_eri(bra+2*ab, bra+2*ab+1, ket+2*cd, ket+2*cd+1, k, d);
        bad += rbad(der ? "derivative" : "integral", out[o++], w, 50);
        if(bad > 5) return bad;
      }
  SIMINT_FREE(work); SIMINT_FREE(out); simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q);
  return bad;
}
#endif
