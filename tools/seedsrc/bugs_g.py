BUGS=[
dict(id='c12-zero-break',property='C12',file='src/spla.c',
 subs=[('			for( i=A->jc[j]; i < A->jc[j+1]; i++ ){\n				y[A->ir[i]] -= A->pr[i]*x[j];','			if( x[j] == 0.0 ) break;\n			for( i=A->jc[j]; i < A->jc[j+1]; i++ ){\n				y[A->ir[i]] -= A->pr[i]*x[j];')],
 needs='a vector with an exact zero before further nonzero entries, subtracted',what='the columns after a zero are left out of the product',
 demo='''int main(){ double G[2]={1,1},x[2]={0,1},y[1]={0}; double*pr; idxint*jc,*ir; idxint nz=csc(G,1,2,&pr,&jc,&ir); spmat*A=ecoscreateSparseMatrix(1,2,nz,jc,ir,pr);
 sparseMV(A,x,y,-1,1); CHECK(NEAR(y[0],-1)); return 0; }'''),
dict(id='c20-equil-cap',property='C20',file='src/equil.c',
 subs=[('          w->xequil[i] *= xtmp[i];','          w->xequil[i] *= xtmp[i];\n          if( w->xequil[i] > 1e6 ) w->xequil[i] = 1e6;')],
 needs='a column whose entries are so large that its factor exceeds a million',what='the recorded factor is not the one the matrix was divided by',
 demo='''int main(){ double G[4]={-1e15,0,0,-1},c[2]={1,1},h[2]={0,0}; data d=mkdata(2,2,0,G,NULL,c,h,NULL); pwork*w=mk(&d,2,2,0,2,0,NULL,0); CHECK(w!=NULL);
 double v=w->G->pr[0]*w->xequil[0]*w->Gequil[0]; printf("%g\\n",v); CHECK(fabs(v+1e15)<1e6); return 0; }'''),
dict(id='c17-single-column',property='C17',file='external/amd/src/amd_preprocess.c',nth=1,
 subs=[('	p2 = Ap [j+1] ;\n','	p2 = Ap [j+1] ;\n	if (p2 - Ap [j] == 1) continue ;	/* diagonal only */\n')],
 needs='a matrix handed over with unsorted columns, one of which has a single entry off the diagonal',what='the sorted copy has a hole where that entry belongs',
 demo='''void amd_l_preprocess(idxint,const idxint*,const idxint*,idxint*,idxint*,idxint*,idxint*);
int main(){ idxint Ap[4]={0,2,3,4},Ai[4]={2,0,0,2},Rp[4],Ri[4]={-9,-9,-9,-9},W[3],F[3]; int k; amd_l_preprocess(3,Ap,Ai,Rp,Ri,W,F); for(k=0;k<4;k++) CHECK(Ri[k]>=0&&Ri[k]<3); return 0; }'''),
dict(id='c04-single-gap',property='C04',file='src/ecos.c',
 subs=[('	info->gap = eddot(w->m, w->s, w->z);','	info->gap = (float)eddot(w->m, w->s, w->z);')],
 needs='a gap with more digits than single precision holds',what='the reported gap is not the product of slacks and multipliers',
 demo='''void updateStatistics(pwork*);
int main(){ pwork*w=mkmix(); int i; for(i=0;i<7;i++){ w->s[i]=1+i*0.1; w->z[i]=1.0/3; } w->tau=1; w->kap=1; w->cx=w->by=w->hz=1; w->resx0=w->resy0=w->resz0=1; w->hresx=w->hresy=w->hresz=1; updateStatistics(w);
 CHECK(NEAR(w->info->gap,eddot(7,w->s,w->z))); return 0; }'''),
]
