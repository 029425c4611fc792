#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include "ecos.h"
#include "ecos_bb.h"
#include "spla.h"
#include "splamm.h"
#include "cone.h"
#include "kkt.h"
#include "equil.h"
#include "expcone.h"
#include "ldl.h"
#include "timer.h"
const char*__asan_default_options(void){ return "detect_leaks=0"; }
#define CHECK(c) do{ if(!(c)){ printf("FAIL line %d: %s\n",__LINE__,#c); exit(1); } }while(0)
#define NEAR(a,b) (fabs((a)-(b)) <= 1e-9*(1+fabs(a)+fabs(b)))
/* column compressed copy of a dense row-major matrix */
static idxint csc(const double *M, int m, int n, double **pr, idxint **jc, idxint **ir){
  idxint k=0; int i,j; *pr=malloc(sizeof(double)*(m*n+1)); *ir=malloc(sizeof(idxint)*(m*n+1)); *jc=malloc(sizeof(idxint)*(n+1));
  for(j=0;j<n;j++){ (*jc)[j]=k; for(i=0;i<m;i++) if(M[i*n+j]!=0){ (*pr)[k]=M[i*n+j]; (*ir)[k]=i; k++; } }
  (*jc)[n]=k; return k; }
typedef struct { double *Gp,*Ap,*c,*h,*b; idxint *Gj,*Gi,*Aj,*Ai,*q; } data;
static double* dup_(const double*v,int n){ double*r=malloc(sizeof(double)*(n+1)); if(n) memcpy(r,v,sizeof(double)*n); return r; }
static data mkdata(int n,int m,int p,const double*G,const double*A,const double*c,const double*h,const double*b){
  data d; memset(&d,0,sizeof d); csc(G,m,n,&d.Gp,&d.Gj,&d.Gi);
  if(p) csc(A,p,n,&d.Ap,&d.Aj,&d.Ai);
  d.c=dup_(c,n); d.h=dup_(h,m); d.b=p?dup_(b,p):NULL; return d; }
static pwork* mk(data*d,int n,int m,int p,int l,int nc,idxint*q,int nexc){
  pwork*w=ECOS_setup(n,m,p,l,nc,q,nexc,d->Gp,d->Gj,d->Gi,d->Ap,d->Aj,d->Ai,d->c,d->h,d->b); if(w) w->stgs->verbose=0; return w; }
/* a well-posed problem with 2 LP rows, two SOCs (3 and 2 rows) and one equality */
static idxint MIXQ[2]={3,2};
static const double MIXG[7*3]={-1,0,0, 0,-1,0, 0,0,-1, -1,0,0, 0,-1,0, 0,0,-1, 1,0,0}, MIXA[3]={1,1,1},
  MIXC[3]={1,2,3}, MIXH[7]={0,0,5,0,0,6,1}, MIXB[1]={2};
static data mixd; 
static pwork* mkmix(void){ mixd=mkdata(3,7,1,MIXG,MIXA,MIXC,MIXH,MIXB); return mk(&mixd,3,7,1,2,2,MIXQ,0); }
