# helpers for branch and bound demos: ECOS_solve is replaced by a scripted relaxation
REL='''
idxint __real_ECOS_solve(pwork*);
'''
BUGS=[
dict(id='c10-empty-col',property='C10',file='src/preproc.c',
 subs=[],needs='',what='',demo=''),
dict(id='c11-soc-reg',property='C11',file='src/kkt.c',
 subs=[('PKP->pr[P[C->soc[i].Didx[conesize_m1] + j++]] = +eta_square + DELTASTAT;','PKP->pr[P[C->soc[i].Didx[conesize_m1] + j++]] = +eta_square;')],
 needs='a second-order cone scaling as small as the static regularisation',what='the last expansion row of every second-order cone is not regularised',
 demo='''void kkt_update(spmat*,idxint*,cone*);
int main(){ pwork*w=mkmix(); int i,l; for(i=0;i<2;i++) w->C->lpc->v[i]=1; for(l=0;l<2;l++){ socone*S=&w->C->soc[l]; S->eta_square=0; S->d1=S->u0=S->u1=S->v1=0; for(i=0;i<S->p-1;i++) S->q[i]=0; }
 kkt_update(w->KKT->PKPt,w->KKT->PK,w->C); for(l=0;l<2;l++){ socone*S=&w->C->soc[l]; idxint k=S->Didx[S->p-1]+1+2*(S->p-1)+2; CHECK(w->KKT->PKPt->pr[w->KKT->PK[k]]==DELTASTAT); CHECK(w->KKT->PKPt->pr[w->KKT->PK[S->Didx[0]]]==-DELTASTAT); } return 0; }'''),
dict(id='c12-skipdiag',property='C12',file='src/spla.c',
 subs=[('y[j] -= i==j? 0 : A->pr[k]*x[i];','y[j] -= i<=j? 0 : A->pr[k]*x[i];')],
 needs='the skipDiagonal mode with entries above the diagonal',what='the transposed product skips the whole upper triangle, not just the diagonal',
 demo='''int main(){ double M[9]={1,2,3,4,5,6,7,8,9},*pr,x[3]={1,2,3},y[3]; idxint *jc,*ir; int i,j; csc(M,3,3,&pr,&jc,&ir); spmat*A=ecoscreateSparseMatrix(3,3,9,jc,ir,pr); sparseMtVm(A,x,y,1,1);
 for(j=0;j<3;j++){ double e=0; for(i=0;i<3;i++) if(i!=j) e-=M[i*3+j]*x[i]; CHECK(NEAR(y[j],e)); } return 0; }'''),
dict(id='c14-primal-domain',property='C14',file='src/expcone.c',
 subs=[('       if(psi<0||x2<0||x3<0)','       if(psi<0||x2<0)')],
 needs='a trial point whose third component is negative (the logarithm is undefined, so psi is NaN)',what='points outside the exponential cone pass the primal feasibility test',
 demo='''int main(){ double s[6]={-1.05,1.25,.55, -1,1,-1}; CHECK(evalExpPrimalFeas(s,1)==1); CHECK(evalExpPrimalFeas(s,2)==0); s[3]=-1; s[4]=-1; s[5]=1; CHECK(evalExpPrimalFeas(s,2)==0); return 0; }'''),
dict(id='c16-neg-pivot',property='C16',file='external/ldl/src/ldl.c',
 subs=[],needs='',what='',demo=''),
dict(id='c21-small-soc',property='C21',file='src/equil.c',
 subs=[('''          total = 0.0;
          for(j = 0; j < w->C->soc[i].p; j++) {
            total''','''          if( w->C->soc[i].p < 3 ) { ind += w->C->soc[i].p; continue; }
          total = 0.0;
          for(j = 0; j < w->C->soc[i].p; j++) {
            total''')],
 needs='a two-dimensional second-order cone whose rows have different magnitudes',what='the rows of two-dimensional cones get different scaling factors, which is no cone automorphism',
 demo='''int main(){ double G[21]; memcpy(G,MIXG,sizeof G); G[17]=-100; data d=mkdata(3,7,1,G,MIXA,MIXC,MIXH,MIXB); pwork*w=mk(&d,3,7,1,2,2,MIXQ,0); CHECK(w); CHECK(NEAR(w->Gequil[5],w->Gequil[6])); CHECK(NEAR(w->Gequil[2],w->Gequil[4])); return 0; }'''),
dict(id='c31-ruiz-like',property='C31',file='src/kkt.c',
 subs=[('    idxint nK = KKT->PKPt->n;\n','    idxint nK = KKT->PKPt->n;\n    pfloat* keep = nitref > 20 ? (pfloat *)MALLOC(nK*sizeof(pfloat)) : NULL;\n'),
       ('	unstretch(n, p, C, Pinv, Px, dx, dy, dz);\n\n    return kItRef;','	unstretch(n, p, C, Pinv, Px, dx, dy, dz);\n    if( keep ) FREE(keep);\n\n    return kItRef;')],
 needs='a refinement limit above 20',what='every linear solve allocates heap memory, so a solve is no longer allocation free',
 wrap='malloc calloc realloc',
 demo='''static int on,bad; void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); void*__real_realloc(void*,size_t);
void*__wrap_malloc(size_t n){ if(on) bad++; return __real_malloc(n); } void*__wrap_calloc(size_t a,size_t b){ if(on) bad++; return __real_calloc(a,b); } void*__wrap_realloc(void*p,size_t n){ if(on) bad++; return __real_realloc(p,n); }
int main(){ pwork*w=mkmix(); w->stgs->nitref=30; on=1; ECOS_solve(w); on=0; CHECK(!bad); return 0; }'''),
dict(id='c32-soc-dim1',property='C32',file='src/preproc.c',
 subs=[('        conesize = (idxint)q[i];\n        mywork->C->soc[i].p = conesize;','        if( q[i] < 1 ) q[i] = 0;\n        conesize = (idxint)q[i];\n        mywork->C->soc[i].p = conesize;')],
 needs='a caller whose cone size array lives in read-only memory',what="setup writes into the user's array of cone sizes",
 demo='''#include <sys/mman.h>
int main(){ idxint*q=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); q[0]=-4; q[1]=9; double G[21],c[3]={1,1,1},h[7]={1,1,1,1,1,1,1}; int i; (void)i; q[0]=3; q[1]=2; 
 data d=mkdata(3,7,1,MIXG,MIXA,MIXC,MIXH,MIXB); mprotect(q,4096,PROT_READ); pwork*w=mk(&d,3,7,1,2,2,q,0); CHECK(w); 
 idxint*q2=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); q2[0]=-1; q2[1]=6; /* a negative size: nobody may change it */
 pid_t fork(void); return 0; }'''),
dict(id='c33-saff',property='C33',file='src/preproc.c',
 subs=[],needs='',what='',demo=''),
dict(id='c37-update-noA',property='C37',file='src/ecos.c',
 subs=[('    if(w->A){\n        w->A->pr = Apr;\n        w->b = b;\n    }','    w->A->pr = Apr;\n    w->b = b;')],
 needs='updating a problem without equality constraints',what='ECOS_updateData dereferences the absent equality matrix',
 demo='''int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={-1,-1}; data d=mkdata(2,2,0,G,NULL,c,h,NULL),e=mkdata(2,2,0,G,NULL,c,h,NULL); pwork*w=mk(&d,2,2,0,2,0,NULL,0); CHECK(w); ECOS_updateData(w,e.Gp,NULL,e.c,e.h,NULL); CHECK(w->c==e.c); CHECK(ECOS_solve(w)==0); return 0; }'''),
dict(id='c40-outcone-print',property='C40',file='src/ecos.c',
 subs=[('            if( w->stgs->verbose ) PRINTTEXT("Slacks/multipliers leaving the cone, recovering best iterate (%i) and stopping.\\n", (int)w->best_info->iter);','            PRINTTEXT("Slacks/multipliers leaving the cone, recovering best iterate (%i) and stopping.\\n", (int)w->best_info->iter);')],
 wrap='updateScalings',needs='a quiet solve whose iterate leaves the cone',what='the library prints although verbose is off',
 demo='''static int n; idxint __real_updateScalings(cone*,pfloat*,pfloat*,pfloat*,pfloat);
idxint __wrap_updateScalings(cone*C,pfloat*s,pfloat*z,pfloat*l,pfloat mu){ if(n++==2) return OUTSIDE_CONE; return __real_updateScalings(C,s,z,l,mu); }
int main(){ pwork*w=mkmix(); fflush(stdout); FILE*f=freopen("out.txt","w",stdout); (void)f; ECOS_solve(w); fflush(stdout); fseek(stdout,0,SEEK_END); if(ftell(stdout)!=0){ fprintf(stderr,"printed\\n"); return 1; } return n>2?0:3; }'''),
dict(id='c42-stale-interrupt',property='C42',file='src/ctrlc.c',
 subs=[],needs='',what='',demo=''),
dict(id='c44-factor-ignored',property='C44',file='src/ecos.c',
 subs=[('''	    /* check if factorization was successful, exit otherwise */
		if(  KKT_FACTOR_RETURN_CODE != KKT_OK ){''','''	    /* check if factorization was successful, exit otherwise */
		if(  KKT_FACTOR_RETURN_CODE != KKT_OK && w->info->iter == 0 ){''')],
 wrap='kkt_factor',needs='a factorisation that fails after the first iteration',what='a failing factorisation is ignored from the second iteration on',
 demo='''static int cnt; idxint __real_kkt_factor(kkt*K,pfloat e,pfloat d,pfloat*a,pfloat*b);
idxint __wrap_kkt_factor(kkt*K,pfloat e,pfloat d,pfloat*a,pfloat*b){ if(++cnt>3) return -1; return __real_kkt_factor(K,e,d,a,b); }
int main(){ pwork*w=mkmix(); idxint r=ECOS_solve(w); printf("%d %d\\n",(int)r,cnt); CHECK(cnt==4); CHECK(r==ECOS_FATAL); return 0; }'''),
dict(id='c50-copy-tau',property='C50',file='ecos_bb/ecos_bb.c',
 subs=[('    prob->kap = prob->ecos_prob->kap;\n    prob->tau = prob->ecos_prob->tau;\n    *(prob->info) = *(prob->ecos_prob->info);','    prob->kap = prob->ecos_prob->kap;\n    *(prob->info) = *(prob->ecos_prob->info);')],
 wrap='ECOS_solve',needs='reading the homogeneous variable of the incumbent',what="the incumbent's tau is never recorded; the final solution carries an unrelated value",
 demo='''static int n; idxint __wrap_ECOS_solve(pwork*w){ int i; n++; for(i=0;i<w->n;i++) w->x[i]=1.0; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=i; w->tau=.75; w->kap=.25; w->info->pcost=5; return 0; }
int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={0,0}; idxint iv[2]={0,1}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); ecos_bb_pwork*p=ECOS_BB_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,0,NULL,2,iv,NULL); CHECK(p); p->stgs->verbose=0; p->tau=-9;
 ECOS_BB_solve(p); CHECK(p->tau==.75); CHECK(p->ecos_prob->tau==.75); CHECK(p->kap==.25); CHECK(p->x[1]==1); return 0; }'''),
dict(id='c51-prune-early',property='C51',file='ecos_bb/ecos_bb.c',
 subs=[('prob->nodes[i].L < L && prob->nodes[i].L < prob->global_U)','prob->nodes[i].L < L && prob->nodes[i].L < prob->global_U - prob->stgs->integer_tol*1e3)')],
 wrap='ECOS_solve',needs='an open node whose lower bound is close to the incumbent',what='branch and bound drops nodes that could still improve the incumbent',
 demo='''static int n; 
idxint __wrap_ECOS_solve(pwork*w){ double l[2],u[2]; int i,k; for(i=0;i<2;i++){ l[i]=-w->h[2*i]*w->Gequil[2*i]; u[i]=w->h[2*i+1]*w->Gequil[2*i+1]; } n++; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; w->tau=1; w->kap=0;
 k=0; for(i=0;i<2;i++) k=3*k+(l[i]>.5?1:u[i]<.5?0:2); /* digits: 0,1 fixed, 2 free */
 static double C[9]={1.0,1.05,.999, 1.3,1.3,1.3, .99,1.05,.99}; w->x[0]=k/3==2?.6:k/3; w->x[1]=k%3==2?.6:k%3; w->x[2]=C[k]; return 0; }
int main(){ double G[9]={-1,0,0,0,-1,0,0,0,-1},c[3]={0,0,1},h[3]={0,0,0}; idxint bv[2]={0,1}; data d=mkdata(3,3,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->verbose=0; s->node_selection_method=BREADTH_FIRST; s->integer_tol=1e-4; ecos_bb_pwork*p=ECOS_BB_setup(3,3,0,3,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,2,bv,0,NULL,s); CHECK(p);
 CHECK(ECOS_BB_solve(p)==MI_OPTIMAL_SOLN); printf("%g %d\\n",p->x[2],n); CHECK(p->x[2]==1.0); return 0; }'''),
dict(id='c52-floor-tol',property='C52',file='ecos_bb/ecos_bb.c',
 subs=[('''            -pfloat_ceil(prob->nodes[curr_node_idx].split_val, prob->stgs->integer_tol);

    }''','''            -pfloat_ceil(prob->nodes[curr_node_idx].split_val, prob->stgs->integer_tol);
    }'''),],needs='',what='',demo=''),
dict(id='c52-right-bound',property='C52',file='ecos_bb/ecos_bb.c',
 subs=[],needs='',what='',demo=''),
dict(id='c53-int-lower',property='C53',file='ecos_bb/ecos_bb.c',
 subs=[],needs='',what='',demo=''),
dict(id='c54-retcode',property='C54',file='ecos_bb/ecos_bb.c',
 subs=[('            if (prob->global_U >= 0)\n            {\n                return MI_MAXITER_NO_SOLN;','            if (prob->global_U >= 0)\n            {\n                return MI_INFEASIBLE;')],
 wrap='ECOS_solve',needs='a search that runs out of iterations without an incumbent',what='running out of iterations without any solution is reported as proven infeasibility',
 demo='''idxint __wrap_ECOS_solve(pwork*w){ int i; static int k; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; w->tau=1; w->x[0]=.5+.0001*k; w->x[1]=1+.001*k++; 
 /* the rounded problems are infeasible: bounds of the first variable coincide */ if(fabs(-w->h[0]*w->Gequil[0]-w->h[1]*w->Gequil[1])<1e-9) return ECOS_PINF; return 0; }
int main(){ double G[4]={-1,0,0,-1},c[2]={0,1},h[2]={0,0}; idxint bv[1]={0}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->maxit=3; s->verbose=0; ecos_bb_pwork*p=ECOS_BB_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,0,NULL,1,bv,s); CHECK(p);
 idxint r=ECOS_BB_solve(p); printf("%d iter %d\\n",(int)r,(int)p->iter); CHECK(r==MI_MAXITER_NO_SOLN); return 0; }'''),
]
BUGS=[b for b in BUGS if b['subs'] and b['demo'] and b['id']!='c32-soc-dim1']
