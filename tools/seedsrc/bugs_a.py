BUGS=[
dict(id='c01-maxit-zero',property='C01',file='src/ecos.c',
 subs=[('else if( interrupted || w->info->iter == w->stgs->maxit ){','else if( interrupted || (w->info->iter > 0 && w->info->iter == w->stgs->maxit) ){')],
 needs='a workspace whose iteration limit is 0', what='the solve returns the internal not-converged code instead of a documented one',
 demo='int main(){ pwork*w=mkmix(); CHECK(w); w->stgs->maxit=0; idxint r=ECOS_solve(w); printf("%d\\n",(int)r); CHECK(r==ECOS_MAXIT || r==ECOS_OPTIMAL || r==ECOS_OPTIMAL+10 || r==1||r==2||r==11||r==12||r==-2||r==-3||r==-4||r==-7); return 0; }'),
dict(id='c02-inacc-reltol',property='C02',file='src/ecos.c',
 subs=[('        reltol = w->stgs->reltol_inacc;','        reltol = w->stgs->reltol;')],
 needs='an iterate between the strict and the reduced relative gap tolerance when the solver gives up',what='a close-to-optimal point is not recognised: the reduced tolerance for the relative gap is never used',
 demo='''int main(){ pwork*w=mkmix(); w->cx=-1; w->by=0; w->hz=0; w->tau=1; w->kap=0; w->info->pres=1e-12; w->info->dres=1e-12; w->info->gap=1; w->info->relgap=1e-6;
 w->info->pinfres=NAN; w->info->dinfres=NAN; w->stgs->reltol=1e-8; w->stgs->reltol_inacc=1e-4; w->stgs->abstol=w->stgs->abstol_inacc=1e-8;
 idxint checkExitConditions(pwork*,idxint);
 CHECK(checkExitConditions(w,10)==10); return 0; }'''),
dict(id='c03-best-dcost',property='C03',file='src/ecos.c',
 subs=[('	w->best_info->dcost = w->info->dcost;\n','	w->best_info->dcost = w->info->pcost;\n')],
 needs='a solve that falls back to an earlier iterate',what="the best iterate is recorded with the primal cost in place of its dual cost, which a fallback then reports",
 demo='''void saveIterateAsBest(pwork*); void restoreBestIterate(pwork*);
int main(){ pwork*w=mkmix(); w->cx=1; w->by=2; w->hz=3; w->kap=4; w->tau=5; w->info->pcost=6; w->info->dcost=7; saveIterateAsBest(w); w->cx=w->by=w->hz=w->kap=w->tau=-1; w->info->pcost=w->info->dcost=-1; restoreBestIterate(w);
 CHECK(w->cx==1); CHECK(w->by==2); CHECK(w->hz==3); CHECK(w->kap==4); CHECK(w->tau==5); CHECK(w->info->pcost==6); CHECK(w->info->dcost==7); return 0; }'''),
dict(id='c04-dres-ns',property='C04',file='src/ecos.c',
 subs=[('MAX(w->resx0+w->ny+w->nz,1) / w->tau','MAX(w->resx0+w->ny+w->ns,1) / w->tau')],
 needs='slacks and multipliers of different size',what='the dual residual is normalised with the primal slack instead of the dual multiplier',
 demo='''void updateStatistics(pwork*);
int main(){ pwork*w=mkmix(); int i; for(i=0;i<3;i++) w->rx[i]=i+1; w->ry[0]=1; for(i=0;i<7;i++){ w->rz[i]=1; w->s[i]=1; w->z[i]=1; } w->tau=2; w->kap=1; w->cx=1; w->by=1; w->hz=1;
 w->nx=1; w->ny=2; w->ns=3; w->nz=40; w->resx0=1; w->resy0=1; w->resz0=1; w->hresx=w->hresy=w->hresz=1; updateStatistics(w);
 CHECK(NEAR(w->info->dres, sqrt(14.0)/43/2)); return 0; }'''),
dict(id='c05-fatal-return',property='C05',file='src/ecos.c',
 subs=[('''	        exitcode = ECOS_FATAL;
	        break;
''','''	        return ECOS_FATAL;
''')],
 wrap='kkt_factor',needs='a factorisation that fails after the first iteration',what='the cost vector stays scaled and the SIGINT handler stays installed after the failing solve',
 demo='''static int cnt; idxint __real_kkt_factor(kkt*K,pfloat e,pfloat d,pfloat*a,pfloat*b);
idxint __wrap_kkt_factor(kkt*K,pfloat e,pfloat d,pfloat*a,pfloat*b){ if(++cnt>2) return -1; return __real_kkt_factor(K,e,d,a,b); }
static void mine(int s){ (void)s; }
int main(){ signal(SIGINT,mine); pwork*w=mkmix(); int i; double c0[3]; memcpy(c0,w->c,sizeof c0); w->xequil[0]=4; idxint r=ECOS_solve(w); CHECK(r==ECOS_FATAL||r==-2||r==ECOS_NUMERICS);
 for(i=0;i<3;i++) CHECK(NEAR(w->c[i],c0[i])); CHECK(signal(SIGINT,SIG_DFL)==mine); return 0; }'''),
dict(id='c06-tau-floor',property='C06',file='src/ecos.c',
 subs=[('		w->tau += w->info->step * dtau;','		w->tau += MAX(w->info->step, 1e-3) * dtau;')],
 wrap='scale updateScalings',needs='an accepted step shorter than 1e-3',what='tau moves by a longer step than the rest of the iterate',
 demo='''static pwork*W; static double al,tau1,kap1; static int it,calls;
void __real_scale(pfloat*,cone*,pfloat*);
void __wrap_scale(pfloat*z,cone*C,pfloat*l){ if(l==W->dsaff && z==W->dsaff_by_W && it==1 && (++calls)==2) W->info->step=al; __real_scale(z,C,l); }
idxint __real_updateScalings(cone*,pfloat*,pfloat*,pfloat*,pfloat);
idxint __wrap_updateScalings(cone*C,pfloat*s,pfloat*z,pfloat*l,pfloat mu){ if(it++==1){ tau1=W->tau; kap1=W->kap; } return __real_updateScalings(C,s,z,l,mu); }
int main(){ double T[2],K[2]; int r; for(r=0;r<2;r++){ it=calls=0; W=mkmix(); al=(r+1)*1e-4; W->stgs->maxit=3; ECOS_solve(W); CHECK(it>=2); CHECK(calls==2); T[r]=(tau1-1)/al; K[r]=(kap1-1)/al; printf("%g %g\\n",T[r],K[r]); }
 CHECK(fabs(K[0]-K[1])<1e-6*(1+fabs(K[0]))); CHECK(fabs(T[0]-T[1])<1e-6*(1+fabs(T[0]))); return 0; }'''),
dict(id='c07-mehrotra',property='C07',file='src/ecos.c',
 subs=[('		bkap = w->kap*w->tau + dkapaff*dtauaff - sigma*w->info->mu;','		bkap = w->kap*w->tau - sigma*w->info->mu;')],
 wrap='scale updateScalings kkt_solve',needs='nothing special: every iteration uses a direction without the second order correction of kappa',what="the combined direction's kappa component lacks Mehrotra's correction",
 demo='''static pwork*W; static double tau0,kap0,mu0,z2,ta; static int it,ns,bad,good;
void __real_scale(pfloat*,cone*,pfloat*);
void __wrap_scale(pfloat*z,cone*C,pfloat*l){ if(l==W->W_times_dzaff && ns==2) ta=(W->KKT->dz2[0]-z2)/W->KKT->dz1[0]; __real_scale(z,C,l); }
idxint __real_kkt_solve(kkt*,spmat*,spmat*,pfloat*,pfloat*,pfloat*,pfloat*,idxint,idxint,idxint,cone*,idxint,idxint);
idxint __wrap_kkt_solve(kkt*K,spmat*A,spmat*G,pfloat*Pb,pfloat*dx,pfloat*dy,pfloat*dz,idxint n,idxint p,idxint m,cone*C,idxint isinit,idxint nit){ idxint r=__real_kkt_solve(K,A,G,Pb,dx,dy,dz,n,p,m,C,isinit,nit); ns++; if(ns==2) z2=dz[0]; return r; }
idxint __real_updateScalings(cone*,pfloat*,pfloat*,pfloat*,pfloat);
idxint __wrap_updateScalings(cone*C,pfloat*s,pfloat*z,pfloat*l,pfloat mu){
 if(it>0 && it<=4){ double st=W->info->step, dt=(W->tau-tau0)/st, dk=(W->kap-kap0)/st, ka=-kap0-kap0/tau0*ta, b=kap0*tau0+ka*ta-W->info->sigma*mu0, e=-(b+kap0*dt)/tau0;
  printf("%g %g (aff %g)\\n",dk,e,ta); if(fabs(dk-e)>1e-5*(1+fabs(e))) bad++; else good++; }
 it++; ns=0; tau0=W->tau; kap0=W->kap; mu0=mu; return __real_updateScalings(C,s,z,l,mu); }
int main(){ W=mkmix(); ECOS_solve(W); CHECK(it>=3); CHECK(!bad && good); return 0; }'''),
dict(id='c08-eq-rows',property='C08',file='src/ecos.c',
 subs=[('	for( i=0; i < w->p; i++ ){ w->KKT->RHS2[Pinv[j++]] *= one_minus_sigma; }','	for( i=0; i < w->p; i++ ){ w->KKT->RHS2[Pinv[j++]] = -w->ry[i]; }')],
 wrap='kkt_solve',needs='equality constraints with a residual while the centering parameter is not 0',what='the combined right-hand side asks for the full equality residual instead of its (1-sigma) part',
 demo='''static pwork*W; static int calls,bad;
idxint __real_kkt_solve(kkt*,spmat*,spmat*,pfloat*,pfloat*,pfloat*,pfloat*,idxint,idxint,idxint,cone*,idxint,idxint);
idxint __wrap_kkt_solve(kkt*K,spmat*A,spmat*G,pfloat*Pb,pfloat*dx,pfloat*dy,pfloat*dz,idxint n,idxint p,idxint m,cone*C,idxint isinit,idxint nit){
 if(!isinit && ++calls%3==0){ double v=Pb[K->Pinv[n]], e=-(1-W->info->sigma)*W->ry[0]; if(fabs(v-e)>1e-12*(1+fabs(e))) bad++; }
 return __real_kkt_solve(K,A,G,Pb,dx,dy,dz,n,p,m,C,isinit,nit); }
int main(){ W=mkmix(); int i; ECOS_solve(W); CHECK(calls>=3); 
 W->y[0]=0; calls=0; W->b[0]*=3; ECOS_solve(W); CHECK(calls>=3); CHECK(!bad); return 0; }'''),
dict(id='c13-barrier-mixed',property='C13',file='src/cone.c',
 subs=[('            normAccumZ -= ziter[k]*ziter[k];','            normAccumZ -= siter[k]*ziter[k];')],
 needs='a problem with both second-order and exponential cones',what='the barrier of the dual point mixes in the slacks for second-order cones',
 demo='''pfloat evalSymmetricBarrierValue(pfloat*,pfloat*,pfloat,pfloat,cone*,pfloat);
int main(){ cone C; lpcone lp; socone s[1]; memset(&C,0,sizeof C); memset(s,0,sizeof s); lp.p=1; C.lpc=&lp; C.soc=s; C.nsoc=1; s[0].p=3; double S[4]={2,3,1,.5},Z[4]={3,4,-1,2};
 double e=-log(6)-log(.5)-log(.25)-.5*log(9-1-.25)-.5*log(16-1-4)-3-1; double v=evalSymmetricBarrierValue(S,Z,.5,.25,&C,3); printf("%g %g\\n",v,e); CHECK(NEAR(v,e)); return 0; }'''),
dict(id='c15-last-expcone',property='C15',file='src/ecos.c',
 subs=[("while(mui>MIN_DISTANCE*mu && j<w->m-2)","while(mui>MIN_DISTANCE*mu && j<w->m-3)"),("                if(j==w->m)\n","                if(j>=w->m-3)\n")],
 needs='two or more exponential cones of which the last one is nearly complementary',what='a step is accepted although the last exponential cone violates the centrality distance',
 wrap='evalBarrierValue evalSymmetricBarrierValue',
 demo='''pfloat __wrap_evalBarrierValue(pfloat*s,pfloat*z,idxint f,idxint n){ return 0; }
pfloat __wrap_evalSymmetricBarrierValue(pfloat*s,pfloat*z,pfloat t,pfloat k,cone*C,pfloat D){ return -1e9; }
pfloat expConeLineSearch(pwork*,pfloat,pfloat,idxint);
int main(){ double G[18]={-1,0,0, 0,-1,0, 0,0,-1, -1,0,0, 0,-1,0, 0,0,-1},c[3]={1,1,1},h[6]={1,1,1,1,1,1}; data d=mkdata(3,6,0,G,NULL,c,h,NULL); pwork*w=mk(&d,3,6,0,0,0,NULL,2); int i; CHECK(w);
 double v[3]={-1.051383945322714,1.258967884768947,0.556409619469370};
 for(i=0;i<3;i++){ w->s[i]=w->z[i]=v[i]; w->s[3+i]=1e-9*v[i]; w->z[3+i]=v[i]; } for(i=0;i<6;i++){ w->dsaff[i]=0; w->KKT->dz2[i]=0; }
 w->tau=1; w->kap=1; w->info->step=.5; w->info->step_aff=.5; w->stgs->max_bk_iter=4;
 CHECK(expConeLineSearch(w,0,0,0)==-1); 
 for(i=0;i<3;i++) w->s[3+i]=v[i]; CHECK(expConeLineSearch(w,0,0,0)>0); return 0; }'''),
dict(id='c22-kkt-before-equil',property='C22',file='src/ecos.c',
 subs=[('''            w->KKT->PKPt->pr[w->KKT->PK[w->GtoK[k]]] = Gpr[k];
''','''            if( w->KKT->PKPt->pr[w->KKT->PK[w->GtoK[k]]] != 0.0 || k > 0 )
                w->KKT->PKPt->pr[w->KKT->PK[w->GtoK[k]]] = Gpr[k];
''')],
 needs="a first entry of G that was zero in the old data and is not in the new data",what='the KKT matrix keeps the old zero for the first entry of G after the update',
 demo='''int main(){ double G[4]={-1,0,0,-1},c[2]={1,1},h[2]={-1,-1}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); d.Gp[0]=0; 
 /* keep an explicit zero: column 0 has one stored entry */ pwork*w=mk(&d,2,2,0,2,0,NULL,0); CHECK(w); 
 double *g2=malloc(16),*c2=malloc(16),*h2=malloc(16); g2[0]=-2; g2[1]=-3; c2[0]=c2[1]=1; h2[0]=h2[1]=-1;
 ECOS_updateData(w,g2,NULL,c2,h2,NULL); int k; for(k=0;k<2;k++) CHECK(w->KKT->PKPt->pr[w->KKT->PK[w->GtoK[k]]]==w->G->pr[k]); return 0; }'''),
dict(id='c23-h-soc',property='C23',file='src/ecos.c',
 subs=[('    w->h[idx] = value / w->Gequil[idx];','    w->h[idx] = idx < w->C->lpc->p ? value / w->Gequil[idx] : value;')],
 needs='a single-entry update of a right-hand side inside a second-order cone whose rows are scaled',what='the new value is stored unscaled for rows of second-order cones',
 demo='''int main(){ pwork*w=mkmix(); w->Gequil[3]=w->Gequil[2]=w->Gequil[4]=4.0; ecos_updateDataEntry_h(w,3,10.0); CHECK(NEAR(w->h[3]*w->Gequil[3],10.0)); ecos_updateDataEntry_h(w,0,3.0); CHECK(NEAR(w->h[0]*w->Gequil[0],3.0)); return 0; }'''),
dict(id='c20-unset-b',property='C20',file='src/equil.c',
 subs=[('''    for(i = 0; i < num_A_rows; i++) {
        w->b[i] *= w->Aequil[i];
    }
    /* unequilibrate the h vector */''','''    for(i = 0; i + 1 < num_A_rows; i++) {
        w->b[i] *= w->Aequil[i];
    }
    /* unequilibrate the h vector */''')],
 needs='cleanup (or an update) with an equality row whose scaling factor is not 1',what="the last entry of the user's b stays scaled after cleanup",
 demo='''int main(){ double A[3]={100,100,300}; data d=mkdata(3,7,1,MIXG,A,MIXC,MIXH,MIXB); pwork*w=mk(&d,3,7,1,2,2,MIXQ,0); CHECK(w); ECOS_cleanup(w,0); int i;
 CHECK(NEAR(d.b[0],2.0)); for(i=0;i<3;i++) CHECK(NEAR(d.Ap[i],A[i])); for(i=0;i<7;i++) CHECK(NEAR(d.h[i],MIXH[i])); return 0; }'''),
dict(id='c30-expc-leak',property='C30',file='src/preproc.c',
 subs=[('    if(w->C->nexc > 0){\n        FREE(w->C->expc);','    if(w->C->nexc > 1){\n        FREE(w->C->expc);')],
 wrap='malloc calloc free realloc',needs='a problem with exactly one exponential cone',what='the exponential cone array of a problem with a single exponential cone is never released',
 demo='''static long live; void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); void __real_free(void*); void*__real_realloc(void*,size_t);
void*__wrap_malloc(size_t n){ void*p=__real_malloc(n); if(p) live++; return p; } void*__wrap_calloc(size_t a,size_t b){ void*p=__real_calloc(a,b); if(p) live++; return p; }
void __wrap_free(void*p){ if(p) live--; __real_free(p); } void*__wrap_realloc(void*p,size_t n){ if(!p) live++; return __real_realloc(p,n); }
int main(){ int k; for(k=1;k<=2;k++){ double G[18]={-1,0,0, 0,-1,0, 0,0,-1, -1,0,0, 0,-1,0, 0,0,-1},c[3]={1,1,1},h[6]={1,1,1,1,1,1}; data d=mkdata(3,3*k,0,G,NULL,c,h,NULL); long l0=live; pwork*w=mk(&d,3,3*k,0,0,0,NULL,k); CHECK(w); ECOS_cleanup(w,0); CHECK(live==l0); } return 0; }'''),
dict(id='c35-feastol-inacc',property='C35',file='src/preproc.c',
 subs=[('	mywork->stgs->feastol_inacc = FTOL_INACC;','	mywork->stgs->feastol_inacc = RTOL_INACC;')],
 needs='reading the defaults (1e-4 documented, 5e-5 set)',what='the reduced feasibility tolerance does not have its documented default',
 demo='''int main(){ pwork*w=mkmix(); CHECK(NEAR(w->stgs->feastol_inacc,1e-4)); CHECK(NEAR(w->stgs->abstol_inacc,5e-5)); CHECK(NEAR(w->stgs->reltol_inacc,5e-5)); return 0; }'''),
dict(id='c43-nitref',property='C43',file='src/kkt.c',
 subs=[('if( kItRef == nitref || ( nerr < error_threshold )','if( ( nerr < error_threshold )'),('	for( kItRef=0; kItRef <= nitref; kItRef++ ){','	for( kItRef=0; ; kItRef++ ){')],
 wrap='norminf',needs='a linear system whose refinement keeps improving by more than the stall factor',what='the number of refinement steps is no longer bounded by the setting',
 demo='''static long cnt; static int on; pfloat __real_norminf(pfloat*,idxint);
pfloat __wrap_norminf(pfloat*v,idxint n){ if(!on) return __real_norminf(v,n); cnt++; if(cnt>40){ printf("no end\\n"); exit(1);} return cnt==1?1:1e12*pow(.02,cnt); }
idxint kkt_solve(kkt*,spmat*,spmat*,pfloat*,pfloat*,pfloat*,pfloat*,idxint,idxint,idxint,cone*,idxint,idxint);
idxint init(pwork*);
int main(){ pwork*w=mkmix(); CHECK(init(w)==0); on=1; idxint r=kkt_solve(w->KKT,w->A,w->G,w->KKT->RHS1,w->KKT->dx1,w->KKT->dy1,w->KKT->dz1,w->n,w->p,w->m,w->C,1,1); printf("%d\\n",(int)r); CHECK(r<=1); return 0; }'''),
dict(id='c45-borrow',property='C45',file='src/timer.c',
 subs=[('1e-9','1e-9')],needs='',what='',demo=''),
]
BUGS.pop()
