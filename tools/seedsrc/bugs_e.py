O='external/amd/src/amd_order.c'; V='external/amd/src/amd_valid.c'; PPR='external/amd/src/amd_preprocess.c'; A2='external/amd/src/amd_2.c'
BUGS=[
dict(id='c17-valid-row',property='C17',file=V,
 subs=[('i >= n_row','i > n_row')],
 needs='a pattern with a row index equal to the number of rows',what='the pattern is accepted as valid although the index is out of range',
 demo='''#include "amd.h"
int main(){ SuiteSparse_long Ap[3]={0,1,2},Ai[2]={0,2},Bi[2]={0,1},Ci[2]={0,-1}; CHECK(amd_l_valid(2,2,Ap,Bi)==AMD_OK); CHECK(amd_l_valid(2,2,Ap,Ci)==AMD_INVALID); CHECK(amd_l_valid(2,2,Ap,Ai)==AMD_INVALID); return 0; }'''),
dict(id='c17-oom-leak',property='C17',file=O,
 subs=[('	if (!Rp || !Ri)\n	{\n	    /* :: out of memory :: */\n	    amd_free (Rp) ;\n	    amd_free (Ri) ;\n	    amd_free (Len) ;','	if (!Rp || !Ri)\n	{\n	    /* :: out of memory :: */\n	    if (!Ri) amd_free (Ri) ;\n	    if (!Ri) amd_free (Rp) ;\n	    amd_free (Len) ;')],
 needs='an unsorted pattern, and memory running out exactly at the third block of the ordering',what='the fourth block, obtained after the third failed, is not given back',
 demo='''#include "amd.h"
static int n,fail=-1,live; static void*mal(size_t s){ if(n++==fail) return NULL; live++; return malloc(s); } static void fr(void*p){ if(p){ live--; free(p); } }
int main(){ SuiteSparse_long Ap[4]={0,2,3,5},Ai[5]={1,0,2,2,0},P[3]; int k; amd_malloc=mal; amd_free=fr;
 for(k=0;k<6;k++){ n=0; live=0; fail=k; int r=amd_l_order(3,Ap,Ai,P,NULL,NULL); CHECK(r==(k<5?AMD_OUT_OF_MEMORY:AMD_OK_BUT_JUMBLED)); CHECK(live==0); } return 0; }'''),
dict(id='c17-duplicates',property='C17',file=PPR,flags='-fsanitize=address',
 subs=[('    for (i = 0 ; i < n ; i++)\n    {\n	W [i] = Rp [i] ;\n	Flag [i] = EMPTY ;\n    }','    for (i = 0 ; i < n ; i++)\n    {\n	W [i] = Rp [i] ;\n    }')],
 needs='an unsorted or duplicated pattern in which the last column a row occurs in is also the first one it is met in',what='the sorted copy misses entries',
 demo='''#include "amd.h"
void amd_l_preprocess(SuiteSparse_long,const SuiteSparse_long*,const SuiteSparse_long*,SuiteSparse_long*,SuiteSparse_long*,SuiteSparse_long*,SuiteSparse_long*);
int main(){ SuiteSparse_long Ap[4]={0,2,5,6},Ai[6]={1,0,2,2,0,2},Rp[4],Ri[6]={-1,-1,-1,-1,-1,-1},W[3],F[3],E[5]={0,1,0,1,2}; int i;
 amd_l_preprocess(3,Ap,Ai,Rp,Ri,W,F); CHECK(Rp[3]==5); for(i=0;i<5;i++) CHECK(Ri[i]==E[i]); return 0; }'''),
dict(id='c17-dense-last',property='C17',file=A2,
 subs=[('	if (k != EMPTY)\n	{\n	    ASSERT (k >= 0 && k < n) ;\n	    Head [k] = e ;','	if (k > EMPTY + (ndense > 0 && nel > n))\n	{\n	    ASSERT (k >= 0 && k < n) ;\n	    Head [k] = e ;') if 0 else ('		Next [i] = nel++ ;','		Next [i] = ndense > 1 ? --n : nel++ ;')] if 0 else [('    dense = MAX (16, dense) ;\n    dense = MIN (n,  dense) ;','    dense = (alpha < 0) ? dense : MAX (16, dense) ;\n    dense = MIN (n,  dense) ;')],
 needs='the dense-row control set negative (only completely dense rows are to be removed) and fewer than 18 rows',what='rows are taken out of the ordering as dense although there are fewer than 18',
 demo='''#include "amd.h"
int main(){ enum{N=6}; SuiteSparse_long Ap[N+1],Ai[40],P[N],j,i,k=0; double C[AMD_CONTROL],I[AMD_INFO]; char s[N]={0};
 for(j=0;j<N;j++){ Ap[j]=k; for(i=0;i<=j;i++) if(i==j||i==0||j==N-1) Ai[k++]=i; } Ap[N]=k; amd_l_defaults(C); C[AMD_DENSE]=-1;
 CHECK(amd_l_order(N,Ap,Ai,P,C,I)==AMD_OK); for(j=0;j<N;j++) s[P[j]]=1; for(j=0;j<N;j++) CHECK(s[j]); printf("%g\\n",I[AMD_NDENSE]); CHECK(I[AMD_NDENSE]==0); return 0; }'''),
]
