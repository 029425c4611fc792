BUGS=[
dict(id='c09-rhs2-tail',property='C09',file='src/ecos.c',
 subs=[('	for( i=w->n; i<w->KKT->PKPt->n; i++ ){ w->KKT->RHS2[w->KKT->Pinv[i]] = 0; }','	for( i=w->n; i<w->n+w->p+w->m; i++ ){ w->KKT->RHS2[w->KKT->Pinv[i]] = 0; }')],
 wrap='kkt_solve',needs='solving a problem with second-order cones again with the same workspace',what='the expansion rows shift the right-hand side, so the last rows keep values of the previous solve',
 demo='''static int n,bad; idxint __real_kkt_solve(kkt*,spmat*,spmat*,pfloat*,pfloat*,pfloat*,pfloat*,idxint,idxint,idxint,cone*,idxint,idxint);
static int first; idxint __wrap_kkt_solve(kkt*K,spmat*A,spmat*G,pfloat*b,pfloat*x,pfloat*y,pfloat*z,idxint a,idxint p,idxint m,cone*C,idxint i,idxint r){ int k; if(i==1&&b==K->RHS2){ n++; for(k=a;k<K->PKPt->n;k++) if(b[K->Pinv[k]]!=0) bad++; } return __real_kkt_solve(K,A,G,b,x,y,z,a,p,m,C,i,r); }
int main(){ pwork*w=mkmix(); ECOS_solve(w); bad=0; ECOS_solve(w); CHECK(n==2); CHECK(!bad); return 0; }'''),
dict(id='c10-soc1-nnz',property='C10',file='src/preproc.c',flags='-fsanitize=address',
 subs=[('		nnzK += 3*C->soc[i].p+1;','		nnzK += C->soc[i].p > 1 ? 3*C->soc[i].p+1 : 3;')],
 needs='a second-order cone with a single row',what='the KKT matrix is one entry short for every one-dimensional second-order cone',
 demo='''int main(){ double G[9]={-1,0,0,0,-1,0,0,0,-1},c[3]={1,1,1},h[3]={0,0,1}; idxint q[1]={1}; data d=mkdata(3,3,0,G,NULL,c,h,NULL); pwork*w=mk(&d,3,3,0,2,1,q,0); CHECK(w); CHECK(w->KKT->PKPt->nnz==w->KKT->PKPt->jc[w->KKT->PKPt->n]); CHECK(w->KKT->PKPt->nnz==3+3+2+4); return 0; }'''),
dict(id='c16-pivot-sign',property='C16',file='external/ldl/src/ldl.c',
 subs=[('D[k] = Sign[k]*D[k] <= eps ? Sign[k]*delta : D[k];','D[k] = Sign[k]*D[k] <= eps ? (D[k] < 0 ? -delta : delta) : D[k];')],
 needs='a pivot whose sign is wrong',what='a pivot with the wrong sign keeps it, so the factor has the wrong inertia',
 demo='''int main(){ idxint Ap[4]={0,1,2,3},Ai[3]={0,1,2},Lp[4]={0,0,0,0},Par[3]={-1,-1,-1},S[3]={1,-1,-1},Lnz[3],Li[1],Pat[3],Fl[3]; double Ax[3]={-2,3,-1},Lx[1],D[3],Y[3],a=0,b=0; 
 CHECK(LDL_numeric2(3,Ap,Ai,Ax,Lp,Par,S,1e-13,2e-7,Lnz,Li,Lx,D,Y,Pat,Fl)==3); CHECK(D[0]==2e-7); CHECK(D[1]==-2e-7); CHECK(D[2]==-1); return 0; }'''),
dict(id='c32-clamp-h',property='C32',file='src/preproc.c',
 subs=[('    mywork->h = h;\n','    for( i=0; i<m; i++ ){ if( h[i] > 1e20 ) h[i] = 1e20; }\n    mywork->h = h;\n')],
 needs='a huge right-hand side entry standing for no bound',what="setup changes the user's right-hand side for good",
 demo='''int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={1,1e25}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); pwork*w=mk(&d,2,2,0,2,0,NULL,0); CHECK(w); ECOS_cleanup(w,0); CHECK(fabs(d.h[1]/1e25-1)<1e-9); return 0; }'''),
dict(id='c33-lambda-short',property='C33',file='src/preproc.c',flags='-fsanitize=address',
 subs=[('  	mywork->lambda = (pfloat *)MALLOC(m*sizeof(pfloat));','  	mywork->lambda = (pfloat *)MALLOC((m-3*nexc)*sizeof(pfloat)); /* only the symmetric cones have one */')],
 needs='a problem with exponential cones',what='the search direction loop reads lambda behind its end',
 demo='''int main(){ double G[6*3]={-1,0,0,0,-1,0,0,0,-1,-1,0,0,0,0,0,0,-1,0},c[3]={1,1,1},h[6]={3,3,3,0,1,0}; idxint i; data d=mkdata(3,6,0,G,NULL,c,h,NULL); pwork*w=mk(&d,3,6,0,3,0,NULL,1); CHECK(w); 
 ECOS_solve(w); ECOS_cleanup(w,0); return 0; }'''),
dict(id='c34-size-mismatch',property='C34',file='src/preproc.c',flags='-fsanitize=address',
 subs=[('    if(cidx+l+3*nexc!=m)','    if(cidx+l!=m && cidx+l+3*nexc!=m)')],
 needs='exponential cones on top of symmetric cones that already use up all rows',what='a problem with more exponential cones than rows is not rejected and data is read behind its end',
 demo='''int main(){ data d=mkdata(3,7,1,MIXG,MIXA,MIXC,MIXH,MIXB); CHECK(!mk(&d,3,7,1,1,2,MIXQ,0)); CHECK(!mk(&d,3,7,1,2,2,MIXQ,1)); CHECK(mk(&d,3,7,1,2,2,MIXQ,0)); return 0; }'''),
dict(id='c41-locale',property='C41',file='src/preproc.c',
 subs=[('#include <math.h>\n','#include <math.h>\n#include <locale.h>\n'),('    /* The number of conic variables has to equal','    /* numbers are printed with a decimal point */\n    setlocale(LC_NUMERIC, "C");\n\n    /* The number of conic variables has to equal')],
 needs='a program that selected its own locale',what="setup changes the process's locale",
 demo='''#include <locale.h>
int main(){ const char*n=setlocale(LC_ALL,"C.UTF-8"); if(!n) n=setlocale(LC_ALL,"POSIX"); char a[200]; snprintf(a,200,"%s",setlocale(LC_NUMERIC,NULL)); mkmix(); CHECK(!strcmp(a,setlocale(LC_NUMERIC,NULL))); return 0; }'''),
dict(id='c42-stale-interrupt',property='C42',file='src/ctrlc.c',
 subs=[('''    int_detected = 0;
    struct sigaction act;''','''    struct sigaction act;''')],wrap='kkt_solve',
 needs='a solve after one that was interrupted',what='the interrupt flag survives into the next solve',
 demo='''static int n; idxint __real_kkt_solve(kkt*,spmat*,spmat*,pfloat*,pfloat*,pfloat*,pfloat*,idxint,idxint,idxint,cone*,idxint,idxint);
idxint __wrap_kkt_solve(kkt*K,spmat*A,spmat*G,pfloat*b,pfloat*x,pfloat*y,pfloat*z,idxint a,idxint p,idxint m,cone*C,idxint i,idxint r){ if(++n==4) raise(SIGINT); return __real_kkt_solve(K,A,G,b,x,y,z,a,p,m,C,i,r); }
int main(){ pwork*w=mkmix(); idxint r=ECOS_solve(w); CHECK(r==ECOS_SIGINT||r==ECOS_OPTIMAL+ECOS_INACC_OFFSET); r=ECOS_solve(w); printf("%d\\n",(int)r); CHECK(r==ECOS_OPTIMAL); return 0; }'''),
dict(id='c45-borrow',property='C45',file='src/timer.c',
 subs=[('t->toc.tv_sec - t->tic.tv_sec-1;','t->toc.tv_sec - t->tic.tv_sec;')],wrap='clock_gettime',
 needs='an interval that crosses a second boundary',what='the elapsed time is a second too long',
 demo='''static struct timespec T; int __wrap_clock_gettime(clockid_t c,struct timespec*t){ *t=T; return 0; }
int main(){ timer t; T.tv_sec=5; T.tv_nsec=900000000; tic(&t); T.tv_sec=7; T.tv_nsec=100000000; CHECK(NEAR(toc(&t),1.2)); T.tv_nsec=950000000; CHECK(NEAR(toc(&t),2.05)); return 0; }'''),
dict(id='c45-nsec-int',property='C45',file='src/timer.c',
 subs=[('	return (pfloat)temp.tv_sec + (pfloat)temp.tv_nsec / 1000000000;','	return (pfloat)temp.tv_sec + (pfloat)(temp.tv_nsec / 1000000) / 1000;')],wrap='clock_gettime',
 needs='an interval shorter than a millisecond',what='times are truncated to milliseconds',
 demo='''static struct timespec T; int __wrap_clock_gettime(clockid_t c,struct timespec*t){ *t=T; return 0; }
int main(){ timer t; T.tv_sec=5; T.tv_nsec=900000000; tic(&t); T.tv_nsec=900012345; CHECK(NEAR(toc(&t),0.000012345)); return 0; }'''),
dict(id='c52-right-ceil',property='C52',file='ecos_bb/ecos_bb.c',
 subs=[('''        get_int_node_id(prob->iter, prob)[split_idx * 2] =
            -pfloat_ceil(prob->nodes[curr_node_idx].split_val, prob->stgs->integer_tol);''','''        get_int_node_id(prob->iter, prob)[split_idx * 2] =
            -((pfloat)(idxint)prob->nodes[curr_node_idx].split_val + 1.0);''')],
 needs='branching on a negative fractional value',what='the integer point zero is lost when branching between minus one and zero',
 demo='''int main(){ double G[4]={-3,-1, 1,-1},c[2]={0,1},h[2]={1.8,-.6}; h[0]=1.8; h[1]=-.6; idxint iv[1]={0}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->verbose=0; s->branching_strategy=BRANCHING_STRATEGY_MOST_INFEASIBLE; ecos_bb_pwork*p=ECOS_BB_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,0,NULL,1,iv,s); CHECK(p);
 CHECK(ECOS_BB_solve(p)==MI_OPTIMAL_SOLN); printf("%g %g\\n",p->x[0],p->x[1]); CHECK(fabs(p->x[0])<1e-3); return 0; }'''),
dict(id='c53-mixed-rows',property='C53',file='ecos_bb/ecos_bb.c',
 subs=[('        ecos_updateDataEntry_h(prob->ecos_prob, 2 * (i + prob->num_bool_vars), int_node_id[2 * i]);','        ecos_updateDataEntry_h(prob->ecos_prob, 2 * i + prob->num_bool_vars, int_node_id[2 * i]);')],
 wrap='ECOS_solve',needs='booleans and integers in the same problem',what='the lower bounds of the integers are written into the rows of the booleans',
 demo='''static int n,bad; idxint __wrap_ECOS_solve(pwork*w){ int i; double h[6]; for(i=0;i<6;i++) h[i]=w->h[i]*w->Gequil[i]; if(!n++){ for(i=0;i<2;i++) if(fabs(h[2*i])>1e-9||fabs(h[2*i+1]-1)>1e-9) bad++; for(i=4;i<6;i++) if(h[i]<1e6) bad++; } for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; for(i=0;i<w->n;i++) w->x[i]=1; w->tau=1; return 0; }
int main(){ double G[9]={-1,0,0,0,-1,0,0,0,-1},c[3]={1,1,1},h[3]={0,0,0}; idxint bv[2]={0,1},iv[1]={2}; data d=mkdata(3,3,0,G,NULL,c,h,NULL); ecos_bb_pwork*p=ECOS_BB_setup(3,3,0,3,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,2,bv,1,iv,NULL); CHECK(p); p->stgs->verbose=0; ECOS_BB_solve(p); CHECK(!bad); return 0; }'''),
dict(id='c55-int-shift',property='C55',file='ecos_bb/ecos_bb_preproc.c',nth=1,
 subs=[('                Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;','                Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_int_vars;')],
 needs='booleans and integers in the same problem',what='the rows of the integer columns are shifted by too little',
 demo='''int main(){ double G[9]={-1,0,0,0,-1,0,0,0,-1},c[3]={1,1,1},h[3]={0,0,0}; idxint bv[1]={0},iv[1]={2}; data d=mkdata(3,3,0,G,NULL,c,h,NULL); ecos_bb_pwork*p=ECOS_BB_setup(3,3,0,3,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,1,bv,1,iv,NULL); CHECK(p); CHECK(p->G->ir[p->G->jc[2]+2]==6); CHECK(p->G->ir[p->G->jc[1]]==5); CHECK(p->G->ir[2]==4); return 0; }'''),
dict(id='c56-node-table',property='C56',file='ecos_bb/ecos_bb_preproc.c',flags='-fsanitize=address',
 subs=[('MALLOC(2 * prob->stgs->maxit * num_int_vars * sizeof(pfloat));','MALLOC(2 * (prob->stgs->maxit - 1) * num_int_vars * sizeof(pfloat));')],
 wrap='ECOS_solve',needs='a search that uses all the nodes the iteration limit allows',what='the last node has no room in the table of integer bounds',
 demo='''idxint __wrap_ECOS_solve(pwork*w){ int i; static int k; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; w->tau=1; w->x[0]=.5+.0001*k; w->x[1]=.5; k++; 
 if(fabs(-w->h[0]*w->Gequil[0]-w->h[1]*w->Gequil[1])<1e-9) return ECOS_PINF; return 0; }
int main(){ double G[4]={-1,0,0,-1},c[2]={0,1},h[2]={0,0}; idxint bv[2]={0,1}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->maxit=4; s->verbose=0; s->branching_strategy=BRANCHING_STRATEGY_MOST_INFEASIBLE; ecos_bb_pwork*p=ECOS_BB_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,0,NULL,2,bv,s); CHECK(p); ECOS_BB_solve(p); printf("%d\\n",(int)p->iter); CHECK(p->iter==3); return 0; }'''),
dict(id='c57-no-undo',property='C57',file='ecos_bb/ecos_bb.c',
 subs=[('''
    problem->tmp_branching_int_node_id[2 * int_idx] = orig_val;
''','''
''')],
 wrap='ECOS_solve',needs='strong branching on two or more integer variables',what='the lower bound tried for one variable stays while the next variables are tried',
 demo='''static int n,bad; idxint __wrap_ECOS_solve(pwork*w){ int i,chg=0; double h[4]; for(i=0;i<4;i++) if(w->h[i]*w->Gequil[i]<1e6) chg++; if(n++<6&&chg>1) bad++; for(i=0;i<w->m;i++) w->s[i]=w->z[i]=0; w->tau=1; w->x[0]=w->x[1]=n<6?.5:1; return 0; }
int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={0,0}; idxint iv[2]={0,1}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); settings_bb*s=get_default_ECOS_BB_settings(); s->verbose=0; s->maxit=5; s->branching_strategy=BRANCHING_STRATEGY_STRONG_BRANCHING; ecos_bb_pwork*p=ECOS_BB_setup(2,2,0,2,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,0,NULL,2,iv,s); CHECK(p); ECOS_BB_solve(p); printf("%d %d\\n",n,bad); CHECK(n>=6); CHECK(!bad); return 0; }'''),
]
