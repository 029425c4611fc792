BB='ecos_bb/ecos_bb.c'; BP='ecos_bb/ecos_bb_preproc.c'
# small problems with a box, solved by branch and bound and by enumeration
MIP='''
static unsigned seed=1; static double rnd(void){ seed=seed*1103515245u+12345u; return ((seed>>16)&0x7fff)/32767.0; }
static int mip(int nv,int nb,int strat){ /* maximise c'x, two rows R x <= r, 0<=x<=4 (booleans 0..1) */
 double R[2][6],r[2],c[6],best=1e300; int i,j,k,t,m=2+2*nv,N=1; double M[14*6]={0},h[14],cc[6];
 for(i=0;i<2;i++) for(j=0;j<nv;j++) R[i][j]=0.3+3*rnd(); for(j=0;j<nv;j++) c[j]=0.5+3*rnd(); for(i=0;i<2;i++){ r[i]=1; for(j=0;j<nv;j++) r[i]+=R[i][j]*(j<nb?0.6:1.9); }
 for(i=0;i<2;i++){ for(j=0;j<nv;j++) M[i*nv+j]=R[i][j]; h[i]=r[i]; }
 for(j=0;j<nv;j++){ M[(2+2*j)*nv+j]=-1; h[2+2*j]=0; M[(3+2*j)*nv+j]=1; h[3+2*j]=j<nb?1:4; cc[j]=-c[j]; N*=j<nb?2:5; }
 for(k=0;k<N;k++){ double v=0,a[2]={0,0}; t=k; for(j=0;j<nv;j++){ int b=j<nb?2:5,x=t%b; t/=b; v-=c[j]*x; a[0]+=R[0][j]*x; a[1]+=R[1][j]*x; } if(a[0]<=r[0]+1e-9&&a[1]<=r[1]+1e-9&&v<best) best=v; }
 { data d=mkdata(nv,m,0,M,NULL,cc,h,NULL); idxint bi[6],ii[6]; for(j=0;j<nb;j++) bi[j]=j; for(;j<nv;j++) ii[j-nb]=j;
   settings_bb*s=get_default_ECOS_BB_settings(); s->verbose=0; s->maxit=400; s->branching_strategy=strat;
   ecos_bb_pwork*w=ECOS_BB_setup(nv,m,0,m,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,nb,bi,nv-nb,ii,s); if(!w) return 1;
   w->ecos_prob->stgs->verbose=0; int rc=ECOS_BB_solve(w); double got=w->info->pcost; ECOS_BB_cleanup(w,0);
   if(rc!=MI_OPTIMAL_SOLN||fabs(got-best)>0.02*(1+fabs(best))){ printf("rc %d value %g, enumerated %g\\n",rc,got,best); return 1; } }
 return 0; }
'''
BUGS=[
dict(id='c05-stale-handler',property='C05',file='src/ctrlc.c',
 subs=[('static struct sigaction oact;','static struct sigaction oact;\nstatic int installed;'),('sigaction(SIGINT,&act,&oact);','sigaction(SIGINT,&act,installed ? NULL : &oact);\n    installed = 1;')],
 needs='an application that changes its own interrupt handler between two solves',what='the second solve puts back the handler the application had before the first',
 demo='''static void h1(int s){} static void h2(int s){}
int main(){ struct sigaction a; pwork*w=mkmix(); signal(SIGINT,h1); ECOS_solve(w); sigaction(SIGINT,NULL,&a); CHECK(a.sa_handler==h1);
 signal(SIGINT,h2); ECOS_solve(w); sigaction(SIGINT,NULL,&a); CHECK(a.sa_handler==h2); return 0; }'''),
dict(id='c11-same-eta',property='C11',file='src/kkt.c',
 subs=[('        conesize_m1 = conesize - 1;\n','        conesize_m1 = conesize - 1;\n\n        /* scaling unchanged */\n        if( conesize > 1 && PKP->pr[P[C->soc[i].Didx[1]]] == -eta_square - DELTASTAT ) continue;\n')],
 needs='two successive scalings of a second-order cone with the same eta but another direction',what='the matrix keeps the old scaling of that cone',
 demo='''int main(){ pwork*w=mkmix(); socone*c=&w->C->soc[0]; idxint j=w->KKT->PK[c->Didx[2]+1]; double a;
 c->eta_square=2; c->d1=0.5; c->u0=1.5; c->u1=0.7; c->v1=0.4; c->q[0]=0.3; c->q[1]=0.1; w->C->soc[1].eta_square=3; w->C->soc[1].q[0]=0.2;
 kkt_update(w->KKT->PKPt,w->KKT->PK,w->C); CHECK(NEAR(w->KKT->PKPt->pr[w->KKT->PK[c->Didx[2]+1]],-2*0.4*0.3));
 c->q[0]=-0.6; kkt_update(w->KKT->PKPt,w->KKT->PK,w->C); CHECK(NEAR(w->KKT->PKPt->pr[w->KKT->PK[c->Didx[2]+1]],2*0.4*0.6)); return 0; }'''),
dict(id='c30-double-free',property='C30',file=BP,flags='-fsanitize=address',
 subs=[('        FREE(prob->tmp_branching_bool_node_id);\n        FREE(prob->tmp_branching_int_node_id);\n','        FREE(prob->tmp_branching_bool_node_id);\n        FREE(prob->tmp_int_node_id);\n')],
 needs='a mixed-integer problem that the solver refuses at setup',what='one table is released twice and another one lost',
 demo='''int main(){ double G[2]={1,-1},c[1]={1},h[2]={1,1}; idxint v[1]={0}; data d=mkdata(1,2,0,G,NULL,c,h,NULL);
 ecos_bb_pwork*w=ECOS_BB_setup(1,2,0,1,0,NULL,0,d.Gp,d.Gj,d.Gi,NULL,NULL,NULL,d.c,d.h,NULL,0,NULL,1,v,NULL); CHECK(w==NULL); return 0; }'''),
dict(id='c33-truez',property='C33',file='src/preproc.c',nth=1,flags='-fsanitize=address',
 subs=[('mywork->KKT->work5 = (pfloat *)MALLOC(nK*sizeof(pfloat));','mywork->KKT->work5 = (pfloat *)MALLOC((n+m)*sizeof(pfloat));')],
 needs='more second-order cone extensions (two per cone) than primal variables',what='the stretched dual block is written past its buffer while refining',
 demo='''int main(){ /* n=1, three cones of two rows: eight... */ double G[8]={-1,0.1,-1,0.2,-1,0.3,-1,1},c[1]={1},h[8]={0,1,0,1,0,1,0,5}; static idxint q[3]={2,2,2};
 data d=mkdata(1,8,0,G,NULL,c,h,NULL); pwork*w=mk(&d,1,8,0,2,3,q,0); CHECK(w!=NULL); CHECK(ECOS_solve(w)>=-7); ECOS_cleanup(w,0); return 0; }'''),
dict(id='c52-lost-bounds',property='C52',file=BB,
 subs=[('    for (i = 0; i < prob->num_int_vars * 2; ++i)\n        get_int_node_id(prob->iter, prob)[i] = get_int_node_id(curr_node_idx, prob)[i];','    for (i = 0; i < prob->num_int_vars; ++i)\n        get_int_node_id(prob->iter, prob)[2*i] = get_int_node_id(curr_node_idx, prob)[2*i];\n    for (i = 0; i < prob->num_int_vars; ++i)\n        if (i != split_idx) get_int_node_id(prob->iter, prob)[2*i + 1] = get_int_node_id(curr_node_idx, prob)[2*i + 1];')],
 needs='a second branching on the same integer variable in a problem without booleans',what='the right child gets an arbitrary upper bound on the branching variable',
 demo=MIP+'''#include <malloc.h>
int main(){ int k,bad=0; mallopt(M_PERTURB,0x3f); for(k=0;k<40;k++) bad+=mip(3,0,0); CHECK(!bad); return 0; }'''),
dict(id='c57-int-undo-late',property='C57',file=BB,
 subs=[('    problem->tmp_branching_int_node_id[2 * int_idx] = orig_val;\n    if (check_infeasible_int_var(problem, ecos_result, *q_up, node_idx, 0, int_idx, split_idx, split_val, current_value))\n    {\n        return 1;\n    }\n','    if (check_infeasible_int_var(problem, ecos_result, *q_up, node_idx, 0, int_idx, split_idx, split_val, current_value))\n    {\n        return 1;\n    }\n    problem->tmp_branching_int_node_id[2 * int_idx] = orig_val;\n')],
 needs='strong branching, an integer variable whose up branch is infeasible, and further candidates tried after it',what='the trials after it run on contradictory bounds and tighten the node wrongly',
 demo=MIP+'''int main(){ int k,bad=0; for(k=0;k<400;k++) bad+=mip(3+k%3,0,BRANCHING_STRATEGY_STRONG_BRANCHING); CHECK(!bad); return 0; }'''),
]
