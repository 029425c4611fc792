/* Reference definitions: setup, KKT assembly and clean-up.  Never executed. */
#include "ecos.h"
#include "splamm.h"
#include "equil.h"
#include <stdlib.h>
#include "amd.h"
#include "amd_internal.h"
#include "ldl.h"
#include "pins.h"
void createKKT_U(spmat* Gt, spmat* At, cone* C, idxint** S, spmat** K, idxint* AttoK, idxint* GttoK);

/* Upper triangle of [ d A' G~'; A -d 0; G~ 0 -V ], column by column; every cone's columns in order:
 * linear rows; per second-order cone its rows and the columns v and u; three rows per exponential cone */
void spec_createKKT_U(spmat* Gt, spmat* At, cone* C, idxint** S, spmat** K, idxint* AttoK, idxint* GttoK) {
    idxint n = Gt->m, m = Gt->n, p = At ? At->n : 0, c, i, j, r, k, e, col, row, N, nz, *ir, *jc, *sg; pfloat* pr;
    N = n + p + m + 2 * C->nsoc;
    nz = n + p + Gt->nnz + C->lpc->p + 6 * C->nexc + (At ? At->nnz : 0);
    for (i = 0; i < C->nsoc; i++) nz += C->soc[i].p + (C->soc[i].p - 1 + 1) + (C->soc[i].p + 1);
    pr = malloc(nz * sizeof(pfloat)); ir = malloc(nz * sizeof(idxint)); jc = malloc((N + 1) * sizeof(idxint)); sg = malloc(N * sizeof(idxint));
    /* signs */
    for (i = 0; i < n; i++) sg[i] = 1;
    for (i = 0; i < p; i++) sg[n + i] = -1;
    for (i = 0; i < C->lpc->p; i++) sg[n + p + i] = -1;
    j = n + p + C->lpc->p;
    for (c = 0; c < C->nsoc; c++) {
        for (i = 0; i < C->soc[c].p; i++) sg[j + i] = -1;
        j += C->soc[c].p;
        sg[j] = -1; sg[j + 1] = 1; j += 2;
    }
    for (i = N - 3 * C->nexc; i < N; i++) sg[i] = -1;
    /* variables: regularisation only */
    for (i = 0; i < n; i++) { jc[i] = i; ir[i] = i; pr[i] = 7e-8; }
    k = n;
    /* equalities */
    e = 0;
    for (i = 0; i < p; i++) {
        if (At->jc[i] <= At->jc[i + 1]) {
            jc[n + i] = k;
            for (r = At->jc[i]; r < At->jc[i + 1]; r++) { ir[k] = At->ir[e]; pr[k] = At->pr[e]; AttoK[e] = k; e++; k++; }
        }
        ir[k] = n + i; pr[k] = -7e-8; k++;
    }
    /* linear rows */
    e = 0;
    for (i = 0; i < C->lpc->p; i++) {
        if (Gt->jc[i] <= Gt->jc[i + 1]) {
            jc[n + p + i] = k;
            for (r = Gt->jc[i]; r < Gt->jc[i + 1]; r++) { ir[k] = Gt->ir[e]; pr[k] = Gt->pr[e]; GttoK[e] = k; e++; k++; }
        }
        C->lpc->kkt_idx[i] = k; ir[k] = n + p + i; pr[k] = -1; k++;
    }
    /* second-order cones */
    row = C->lpc->p;
    for (c = 0; c < C->nsoc; c++) {
        idxint d = C->soc[c].p, at = n + p + row + 2 * c;
        for (i = 0; i < d; i++) {
            if (Gt->jc[row + i] <= Gt->jc[row + i + 1]) {
                jc[at + i] = k;
                for (r = Gt->jc[row + i]; r < Gt->jc[row + i + 1]; r++) { ir[k] = Gt->ir[e]; pr[k] = Gt->pr[e]; GttoK[e] = k; e++; k++; }
            }
            ir[k] = at + i; pr[k] = -1; C->soc[c].Didx[i] = k; k++;
        }
        jc[at + d] = k;
        for (r = 1; r < d; r++) { ir[k] = at + r; pr[k] = 0; k++; }
        ir[k] = at + d; pr[k] = -1; k++;
        jc[at + d + 1] = k;
        for (r = 0; r < d; r++) { ir[k] = at + r; pr[k] = 0; k++; }
        ir[k] = at + d + 1; pr[k] = 1; k++;
        row += d;
    }
    /* exponential cones */
    col = row + 2 * C->nsoc;
    for (c = 0; c < C->nexc; c++) {
        for (i = 0; i < 3; i++) {
            if (Gt->jc[row + i] <= Gt->jc[row + i + 1]) {
                jc[n + p + col + i] = k;
                for (r = Gt->jc[row + i]; r < Gt->jc[row + i + 1]; r++) { ir[k] = Gt->ir[e]; pr[k] = Gt->pr[e]; GttoK[e] = k; e++; k++; }
            }
            C->expc[c].colstart[i] = k;
            for (r = 0; r < i; r++) { ir[k] = n + p + col + r; pr[k] = 0; k++; }
            ir[k] = n + p + col + i; pr[k] = -1; k++;
        }
        row += 3; col += 3;
    }
    *S = sg;
    *K = ecoscreateSparseMatrix(N, N, nz, jc, ir, pr);
}

void spec_ECOS_cleanup(pwork* w, idxint keep) {
    idxint i; kkt* K = w->KKT; cone* C = w->C;
    unset_equilibration(w);
    free(K->D); free(K->dx1); free(K->dx2); free(K->dy1); free(K->dy2); free(K->dz1); free(K->dz2);
    free(K->Flag); freeSparseMatrix(K->L); free(K->Lnz); free(K->Parent); free(K->Pattern); free(K->Sign); free(K->Pinv); free(K->P); free(K->PK);
    freeSparseMatrix(K->PKPt); free(K->RHS1); free(K->RHS2);
    free(K->work1); free(K->work2); free(K->work3); free(K->work4); free(K->work5); free(K->work6);
    free(K);
    if (w->A) free(w->AtoK);
    free(w->GtoK);
    if (C->lpc->p > 0) { free(C->lpc->w); free(C->lpc->v); free(C->lpc->kkt_idx); }
    free(C->lpc);
    for (i = 0; i < C->nsoc; i++) { free(C->soc[i].q); free(C->soc[i].skbar); free(C->soc[i].zkbar); free(C->soc[i].Didx); }
    if (C->nsoc > 0) free(C->soc);
    if (C->nexc > 0) free(C->expc);
    free(C);
    free(w->W_times_dzaff); free(w->dsaff_by_W); free(w->dzaff); free(w->dsaff); free(w->zaff); free(w->saff);
    free(w->info); free(w->best_info); free(w->lambda); free(w->rx); free(w->ry); free(w->rz); free(w->stgs);
    free(w->G); if (w->A) free(w->A);
    free(w->best_x); free(w->best_y); free(w->best_z); free(w->best_s);
    if (keep < 4) free(w->z);
    if (keep < 3) free(w->s);
    if (keep < 2) free(w->y);
    if (keep < 1) free(w->x);
    free(w->xequil); free(w->Aequil); free(w->Gequil);
    free(w);
}

#define REALS(k) malloc((k) * sizeof(pfloat))
#define INTS(k) malloc((k) * sizeof(idxint))
pwork* spec_ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint nc, idxint* q, idxint nex,
                       pfloat* Gpr, idxint* Gjc, idxint* Gir, pfloat* Apr, idxint* Ajc, idxint* Air, pfloat* c, pfloat* h, pfloat* b) {
    idxint i, sum, N, nz, ok, *sg, *P, *Ljc, *Lir, *AtoAt, *GtoGt, *AttoK, *GttoK; pfloat* Lpr; double ctl[AMD_CONTROL], inf[AMD_INFO];
    spmat *At, *Gt, *U; pwork* w; kkt* K; cone* C; settings* s; timer t;
    tic(&t);
    sum = 0;
    for (i = 0; i < nc; i++) sum += q[i];
    if (l + sum + 3 * nex != m) return NULL;
    w = malloc(sizeof(pwork));
    w->n = n; w->m = m; w->p = p; w->D = l + nc + 3 * nex;
    w->x = REALS(n); w->y = REALS(p); w->z = REALS(m); w->s = REALS(m); w->lambda = REALS(m);
    w->dsaff_by_W = REALS(m); w->dsaff = REALS(m); w->dzaff = REALS(m); w->saff = REALS(m); w->zaff = REALS(m); w->W_times_dzaff = REALS(m);
    w->best_x = REALS(n); w->best_y = REALS(p); w->best_z = REALS(m); w->best_s = REALS(m); w->best_info = malloc(sizeof(stats));
    /* cones */
    C = malloc(sizeof(cone)); w->C = C;
    C->lpc = malloc(sizeof(lpcone)); C->lpc->p = l;
    if (l > 0) { C->lpc->w = REALS(l); C->lpc->v = REALS(l); C->lpc->kkt_idx = INTS(l); }
    else { C->lpc->w = NULL; C->lpc->v = NULL; C->lpc->kkt_idx = NULL; }
    if (nc == 0) C->soc = NULL; else C->soc = malloc(nc * sizeof(socone));
    C->nsoc = nc;
    sum = 0;
    for (i = 0; i < nc; i++) {
        idxint d = q[i];
        C->soc[i].p = d; C->soc[i].a = 0; C->soc[i].eta = 0;
        C->soc[i].q = REALS(d - 1); C->soc[i].skbar = REALS(d); C->soc[i].zkbar = REALS(d); C->soc[i].Didx = INTS(d);
        sum += d;
    }
    C->nexc = nex; if (nex == 0) C->expc = NULL; else C->expc = malloc(nex * sizeof(expcone));
    C->fexv = l + sum;
    w->info = malloc(sizeof(stats));
    w->xequil = REALS(n); w->Aequil = REALS(p); w->Gequil = REALS(m);
    /* defaults */
    s = malloc(sizeof(settings)); w->stgs = s;
    s->maxit = 100; s->gamma = 0.99; s->delta = 2e-7; s->eps = 1e-13; s->nitref = 9;
    s->abstol = 1e-8; s->feastol = 1e-8; s->reltol = 1e-8;
    s->abstol_inacc = 5e-5; s->feastol_inacc = 1e-4; s->reltol_inacc = 5e-5;
    s->verbose = 1; s->max_bk_iter = 90; s->bk_scale = 0.8; s->centrality = 1;
    /* the user's data, equilibrated in place */
    w->c = c; w->h = h; w->b = b;
    if (Apr && Ajc && Air) w->A = ecoscreateSparseMatrix(p, n, Ajc[n], Ajc, Air, Apr); else w->A = NULL;
    if (Gpr && Gjc && Gir) w->G = ecoscreateSparseMatrix(m, n, Gjc[n], Gjc, Gir, Gpr); else w->G = ecoscreateSparseMatrix(m, n, 0, Gjc, Gir, Gpr);
    set_equilibration(w);
    /* KKT system and the maps into it */
    if (w->A) { AtoAt = INTS(w->A->nnz); At = transposeSparseMatrix(w->A, AtoAt); } else { At = NULL; AtoAt = NULL; }
    GtoGt = INTS(w->G->nnz); Gt = transposeSparseMatrix(w->G, GtoGt);
    if (w->A) AttoK = INTS(w->A->nnz); else AttoK = NULL;
    GttoK = INTS(w->G->nnz);
    createKKT_U(Gt, At, C, &sg, &U, AttoK, GttoK);
    if (w->A) { w->AtoK = INTS(w->A->nnz); for (i = 0; i < w->A->nnz; i++) w->AtoK[i] = AttoK[AtoAt[i]]; } else w->AtoK = NULL;
    w->GtoK = INTS(w->G->nnz);
    for (i = 0; i < w->G->nnz; i++) w->GtoK[i] = GttoK[GtoGt[i]];
    N = U->n;
    K = malloc(sizeof(kkt)); w->KKT = K;
    K->D = REALS(N); K->Parent = INTS(N); K->Pinv = INTS(N);
    K->work1 = REALS(N); K->work2 = REALS(N); K->work3 = REALS(N); K->work4 = REALS(N); K->work5 = REALS(N); K->work6 = REALS(N);
    K->Flag = INTS(N); K->Pattern = INTS(N); K->Lnz = INTS(N); K->RHS1 = REALS(N); K->RHS2 = REALS(N);
    K->dx1 = REALS(n); K->dx2 = REALS(n); K->dy1 = REALS(p); K->dy2 = REALS(p); K->dz1 = REALS(m); K->dz2 = REALS(m);
    K->Sign = INTS(N); K->PKPt = newSparseMatrix(N, N, U->nnz); K->PK = INTS(U->nnz);
    P = INTS(N);
    AMD_defaults(ctl);
    ok = AMD_order(N, U->jc, U->ir, P, ctl, inf);
    if (ok != AMD_OK) {
        free(sg);
        if (At) { freeSparseMatrix(At); free(AtoAt); free(AttoK); }
        freeSparseMatrix(Gt); freeSparseMatrix(U); free(GtoGt); free(GttoK);
        K->P = P; K->L = newSparseMatrix(N, N, 0);
        w->rx = NULL; w->ry = NULL; w->rz = NULL;
        ECOS_cleanup(w, 0);
        return NULL;
    }
    pinv(N, P, K->Pinv);
    permuteSparseSymmetricMatrix(U, K->Pinv, K->PKPt, K->PK);
    for (i = 0; i < N; i++) K->Sign[K->Pinv[i]] = sg[i];
    Ljc = INTS(N + 1);
    LDL_symbolic2(K->PKPt->n, K->PKPt->jc, K->PKPt->ir, Ljc, K->Parent, K->Lnz, K->Flag);
    nz = Ljc[N];
    Lir = INTS(nz); Lpr = REALS(nz);
    K->L = ecoscreateSparseMatrix(N, N, nz, Ljc, Lir, Lpr);
    permuteSparseSymmetricMatrix(U, K->Pinv, K->PKPt, NULL);
    if (n == 0) w->rx = NULL; else w->rx = REALS(n);
    if (p == 0) w->ry = NULL; else w->ry = REALS(p);
    if (m == 0) w->rz = NULL; else w->rz = REALS(m);
    K->P = P;
    free(sg);
    if (At) { freeSparseMatrix(At); free(AtoAt); free(AttoK); }
    freeSparseMatrix(Gt); freeSparseMatrix(U); free(GtoGt); free(GttoK);
    w->info->tsetup = toc(&t);
    return w;
}
