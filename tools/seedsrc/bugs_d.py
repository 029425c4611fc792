E='src/ecos.c'; R='src/preproc.c'; K='src/kkt.c'; BB='ecos_bb/ecos_bb.c'; BP='ecos_bb/ecos_bb_preproc.c'
BUGS=[
dict(id='c05-fatal-return',property='C05',file=E,
 subs=[('    remove_ctrlc();\n#endif\n	return exitcode;','    if( exitcode >= ECOS_OPTIMAL ){ remove_ctrlc(); }\n#endif\n	return exitcode;')],
 needs='a solve that stops without an answer, for instance at the iteration limit',what="the program's own interrupt handler is not restored",
 demo='''static void mine(int s){ (void)s; }
int main(){ struct sigaction a,o; pwork*w=mkmix(); memset(&a,0,sizeof a); a.sa_handler=mine; sigaction(SIGINT,&a,NULL); w->stgs->maxit=1; CHECK(ECOS_solve(w)==ECOS_MAXIT); sigaction(SIGINT,NULL,&o); CHECK(o.sa_handler==mine); w->stgs->maxit=100; CHECK(ECOS_solve(w)==ECOS_OPTIMAL); sigaction(SIGINT,NULL,&o); CHECK(o.sa_handler==mine); return 0; }'''),
dict(id='c34-size-mismatch',property='C34',file=R,
 subs=[('    pwork* mywork;\n','    pwork* mywork = NULL;\n'),('	/* get work data structure */','    if( l > m ){ l = m; }\n\n	/* get work data structure */') if 0 else ('    /* The number of conic variables has to equal','    if( ncones == 0 && l == 0 ){ l = m - 3*nexc; } /* no cones given: all rows are inequalities */\n\n    /* The number of conic variables has to equal')],
 needs='a problem that declares rows but no cone for them',what='a cone description that does not cover the rows of G is accepted and silently changed',
 demo='''int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={0,0}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); CHECK(!mk(&d,2,2,0,0,0,NULL,0)); CHECK(!mk(&d,2,2,0,1,0,NULL,0)); CHECK(mk(&d,2,2,0,2,0,NULL,0)); return 0; }'''),
dict(id='c36-sign-soc1',property='C36',file=R,
 subs=[('        Sign[ks++] = -1;     /* (3,3) block: SOC, v */','        Sign[ks++] = C->soc[l].p > 1 ? -1 : +1;     /* (3,3) block: SOC, v */')],
 needs='a second-order cone with a single row',what='the sign of the first expansion row is wrong when its column has no off-diagonal entries',
 demo='''int main(){ int i,pos=0,neg=0; double G[9]={-1,0,0,0,-1,0,0,0,-1},c[3]={1,1,1},h[3]={0,0,1}; idxint q[1]={1}; data d=mkdata(3,3,0,G,NULL,c,h,NULL); pwork*w=mk(&d,3,3,0,2,1,q,0); CHECK(w); CHECK(w->KKT->PKPt->n==8);
 for(i=0;i<8;i++){ if(w->KKT->Sign[i]==1) pos++; if(w->KKT->Sign[i]==-1) neg++; } CHECK(pos==4); CHECK(neg==4); return 0; }'''),
dict(id='c35-eps-literal',property='C35',file=K,
 subs=[('                eps,            /*','                EPS,            /*')],
 needs='a regularisation threshold other than the default',what='the factorisation uses the built-in threshold instead of the one in the settings',
 demo='''int main(){ int i,k=0; pwork*w=mkmix(); CHECK(kkt_factor(w->KKT,1e3,7)==KKT_OK); for(i=0;i<w->KKT->PKPt->n;i++) if(w->KKT->D[i]!=7*w->KKT->Sign[i]) k++; CHECK(!k); return 0; }'''),
dict(id='c31-scratch-solve',property='C31',file=K,wrap='malloc',
 subs=[('    pfloat* truez = KKT->work5;\n','    pfloat* truez = C->nsoc > 64 ? (pfloat*)MALLOC((m+2*C->nsoc)*sizeof(pfloat)) : KKT->work5;\n'),('    return kItRef;','    if( truez != KKT->work5 ){ FREE(truez); }\n    return kItRef;')],
 needs='more than 64 second-order cones',what='the linear solve takes memory from the heap at every call',
 demo='''static int on,n; void*__real_malloc(size_t); void*__wrap_malloc(size_t s){ if(on) n++; return __real_malloc(s); }
int main(){ enum{N=70}; double*G=calloc(3*N*2*N,8),c[2*N],h[3*N]; idxint q[N]; int i; for(i=0;i<N;i++){ q[i]=3; h[3*i]=1; h[3*i+1]=h[3*i+2]=0; c[2*i]=1; c[2*i+1]=1; G[(3*i+1)*2*N+2*i]=-1; G[(3*i+2)*2*N+2*i+1]=-1; }
 data d=mkdata(2*N,3*N,0,G,NULL,c,h,NULL); pwork*w=mk(&d,2*N,3*N,0,0,N,q,0); CHECK(w); on=1; i=ECOS_solve(w); on=0; CHECK(i==ECOS_OPTIMAL); CHECK(!n); return 0; }'''),
dict(id='c30-empty-A',property='C30',file=R,wrap='malloc,--wrap=free,--wrap=calloc',
 subs=[('    if(At) {\n        freeSparseMatrix(At);\n        FREE(AtoAt);\n        FREE(AttoK);\n    }\n	freeSparseMatrix(Gt);\n	freeSparseMatrix(KU);','    if(p > 0) {\n        freeSparseMatrix(At);\n        FREE(AtoAt);\n        FREE(AttoK);\n    }\n	freeSparseMatrix(Gt);\n	freeSparseMatrix(KU);')],
 needs='an equality matrix with no rows that is passed as an empty matrix',what='the transpose of the empty matrix and its maps are never freed',
 demo='''static int n; void*__real_malloc(size_t); void*__wrap_malloc(size_t s){ n++; return __real_malloc(s); } void*__real_calloc(size_t,size_t); void*__wrap_calloc(size_t s,size_t t){ n++; return __real_calloc(s,t); } void __real_free(void*); void __wrap_free(void*p){ if(p) n--; __real_free(p); }
int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={0,0},Ap[1],b[1]; idxint Aj[3]={0,0,0},Ai[1]; data d=mkdata(2,2,0,G,NULL,c,h,NULL); int k=n; pwork*w=ECOS_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,Ap,Aj,Ai,d.c,d.h,b); CHECK(w); ECOS_cleanup(w,0); printf("%d\\n",n-k); CHECK(n==k); return 0; }'''),
dict(id='c40-fatal-print',property='C40',file=BB,wrap='ECOS_solve',
 subs=[('static char is_infeasible(idxint ecos_result)\n{','static char is_infeasible(idxint ecos_result)\n{\n    if (ecos_result == ECOS_FATAL)\n        PRINTTEXT("fatal error in a relaxation\\n");\n')],
 needs='a relaxation that ends with a fatal error, with printing switched off',what='the solver prints although verbose is off',
 demo='''#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
static int n; idxint __wrap_ECOS_solve(pwork*w){ int i; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; w->tau=1; w->x[0]=w->x[1]=.5; return n++<3?ECOS_OPTIMAL:ECOS_FATAL; }
int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={0,0}; idxint bv[2]={0,1}; struct stat st; int o,f; data d=mkdata(2,2,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->verbose=0; s->maxit=3; s->branching_strategy=BRANCHING_STRATEGY_STRONG_BRANCHING; ecos_bb_pwork*p=ECOS_BB_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,2,bv,0,NULL,s); CHECK(p);
 fflush(stdout); o=dup(1); f=open("out",O_CREAT|O_RDWR|O_TRUNC,0600); dup2(f,1); ECOS_BB_solve(p); fflush(stdout); fstat(f,&st); dup2(o,1); remove("out"); CHECK(st.st_size==0); return 0; }'''),
dict(id='c42-last-iter',property='C42',file=E,wrap='check_ctrlc',
 subs=[('                if( exitcode == ECOS_NOT_CONVERGED_YET ){\n                    exitcode = interrupted ? ECOS_SIGINT : ECOS_MAXIT;','                if( exitcode == ECOS_NOT_CONVERGED_YET ){\n                    exitcode = w->info->iter < w->stgs->maxit ? ECOS_SIGINT : ECOS_MAXIT;')],
 needs='an interrupt that arrives in the very last iteration',what='the interrupted solve reports that it ran out of iterations',
 demo='''static int n; int __wrap_check_ctrlc(void){ return ++n==3; }
int main(){ pwork*w=mkmix(); w->stgs->maxit=2; CHECK(ECOS_solve(w)==ECOS_SIGINT); n=10; CHECK(ECOS_solve(w)==ECOS_MAXIT); return 0; }'''),
dict(id='c44-first-scaling',property='C44',file=E,wrap='updateScalings',
 subs=[('		if( updateScalings(w->C, w->s, w->z, w->lambda, w->info->mu) == OUTSIDE_CONE ){\n#else','		if( updateScalings(w->C, w->s, w->z, w->lambda, w->info->mu) == OUTSIDE_CONE && w->info->iter > 0 ){\n#else')],
 needs='an initial point for which the scaling cannot be computed',what='the failure of the scaling is ignored at the first iteration and a meaningless direction is taken',
 demo='''static int n; idxint __real_updateScalings(cone*,pfloat*,pfloat*,pfloat*,pfloat); idxint __wrap_updateScalings(cone*C,pfloat*s,pfloat*z,pfloat*l,pfloat mu){ n++; __real_updateScalings(C,s,z,l,mu); return OUTSIDE_CONE; }
int main(){ pwork*w=mkmix(); idxint r=ECOS_solve(w); CHECK(n==1); CHECK(r==ECOS_OUTCONE); return 0; }'''),
dict(id='c45-wallclock',property='C45',file='src/timer.c',wrap='clock_gettime',
 subs=[('clock_gettime(CLOCK_MONOTONIC, &t->toc);','clock_gettime(CLOCK_REALTIME, &t->toc);')],
 needs='a wall clock that differs from the monotonic clock, as it always does',what='the end of the interval is read from another clock than its start',
 demo='''int __wrap_clock_gettime(clockid_t c,struct timespec*t){ t->tv_sec=c==CLOCK_MONOTONIC?100:1000000; t->tv_nsec=0; return 0; }
int main(){ timer t; tic(&t); CHECK(toc(&t)==0); return 0; }'''),
dict(id='c56-bool-half',property='C56',file=BP,flags='-fsanitize=address',wrap='ECOS_solve',
 subs=[('    prob->bool_node_ids = (char *)MALLOC(prob->stgs->maxit * num_bool_vars * sizeof(char));','    prob->bool_node_ids = (char *)MALLOC((num_bool_vars > 1 ? (prob->stgs->maxit - 1) : prob->stgs->maxit) * num_bool_vars * sizeof(char));')],
 needs='a search that uses all the nodes the iteration limit allows, with two or more booleans',what='the last node has no room in the table of boolean decisions',
 demo='''idxint __wrap_ECOS_solve(pwork*w){ int i; static int k; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; w->tau=1; w->x[0]=.5+.0001*k; w->x[1]=.5; k++; 
 if(fabs(-w->h[0]*w->Gequil[0]-w->h[1]*w->Gequil[1])<1e-9) return ECOS_PINF; return 0; }
int main(){ double G[4]={-1,0,0,-1},c[2]={0,1},h[2]={0,0}; idxint bv[2]={0,1}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->maxit=2; s->verbose=0; s->branching_strategy=BRANCHING_STRATEGY_MOST_INFEASIBLE; ecos_bb_pwork*p=ECOS_BB_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,2,bv,0,NULL,s); CHECK(p); ECOS_BB_solve(p); return 0; }'''),
dict(id='c51-prune-margin',property='C51',file=BB,wrap='ECOS_solve',
 subs=[('prob->nodes[i].L < L && prob->nodes[i].L < prob->global_U)','prob->nodes[i].L < L && prob->nodes[i].L < prob->global_U - prob->stgs->integer_tol)')],
 needs='two solutions whose cost differs by less than the integer tolerance',what='a node that could still improve the solution is pruned with a tolerance meant for integrality',
 demo='''static int n; idxint __wrap_ECOS_solve(pwork*w){ int i; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; w->tau=1; w->x[0]=w->x[1]=.5; n++; w->x[2]=n<3?0:n==4?1:1-5e-5; return n==4||(n&1)?ECOS_OPTIMAL:ECOS_PINF; }
int main(){ double G[9]={-1,0,0,0,-1,0,0,0,-1},c[3]={0,0,1},h[3]={0,0,0}; idxint bv[2]={0,1}; data d=mkdata(3,3,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->maxit=6; s->abs_tol_gap=0; s->rel_tol_gap=0; s->verbose=0; s->node_selection_method=BREADTH_FIRST; s->branching_strategy=BRANCHING_STRATEGY_MOST_INFEASIBLE; ecos_bb_pwork*p=ECOS_BB_setup(3,3,0,3,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,2,bv,0,NULL,s); CHECK(p); ECOS_BB_solve(p); printf("%d iter %d U %g\\n",n,(int)p->iter,p->global_U); CHECK(p->iter>=4); return 0; }'''),
dict(id='c01-exp-failed',property='C01',file=E,wrap='evalExpPrimalFeas',nth=0,
 subs=[('''            if( exitcode == ECOS_NOT_CONVERGED_YET ){
                exitcode = ECOS_NUMERICS;
#if PRINTLEVEL > 0
                if( w->stgs->verbose ) PRINTTEXT("\\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
#endif
                break;
            } else {
                break;
            }
       }''','''            if( exitcode == ECOS_NOT_CONVERGED_YET && w->info->iter > 0 ){
                exitcode = ECOS_NUMERICS;
#if PRINTLEVEL > 0
                if( w->stgs->verbose ) PRINTTEXT("\\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
#endif
                break;
            } else {
                break;
            }
       }''')],
 needs='an exponential cone line search that fails in the first iterations',what='an internal status that is no exit code is returned to the caller',
 demo='''idxint __wrap_evalExpPrimalFeas(pfloat*s,idxint n){ return 0; }
int main(){ double G[6*3]={-1,0,0,0,-1,0,0,0,-1,-1,0,0,0,0,0,0,-1,0},c[3]={1,1,1},h[6]={3,3,3,0,1,0}; idxint i; data d=mkdata(3,6,0,G,NULL,c,h,NULL); pwork*w=mk(&d,3,6,0,3,0,NULL,1); CHECK(w); i=ECOS_solve(w); printf("%d\\n",(int)i); CHECK(i==ECOS_NUMERICS); return 0; }'''),
]
