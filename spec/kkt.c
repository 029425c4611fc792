/* Reference definitions: the stretched KKT system.  Never executed. */
#include "kkt.h"
#include "ldl.h"
#include "ecos.h"
#include "cone.h"
#include "spla.h"
#include "splamm.h"
#include <math.h>
#include "pins.h"

static pfloat max2(pfloat a, pfloat b) { return a < b ? b : a; }

/* negative squared scaling, regularised: -W^2 - delta I, the last expansion entry of a cone positive */
void spec_kkt_update(spmat* K, idxint* P, cone* C) {
    idxint i, k, p, t; pfloat e2, d1, u0, u1, v1, *q;
    for (i = 0; i < C->lpc->p; i++) K->pr[P[C->lpc->kkt_idx[i]]] = -C->lpc->v[i] - DELTASTAT;
    for (i = 0; i < C->nsoc; i++) {
        socone* S = &C->soc[i];
        p = S->p; e2 = S->eta_square; d1 = S->d1; u0 = S->u0; u1 = S->u1; v1 = S->v1; q = S->q;
        K->pr[P[S->Didx[0]]] = -e2 * d1 - DELTASTAT;
        for (k = 1; k < p; k++) K->pr[P[S->Didx[k]]] = -e2 - DELTASTAT;
        t = S->Didx[p - 1];
        for (k = 0; k < p - 1; k++) K->pr[P[t + 1 + k]] = -e2 * v1 * q[k];
        K->pr[P[t + p]] = -e2;
        K->pr[P[t + p + 1]] = -e2 * u0;
        for (k = 0; k < p - 1; k++) K->pr[P[t + p + 2 + k]] = -e2 * u1 * q[k];
        K->pr[P[t + 2 * p + 1]] = e2 + DELTASTAT;
    }
    for (i = 0; i < C->nexc; i++) {
        expcone* E = &C->expc[i];
        K->pr[P[E->colstart[0]]] = -E->v[0] - DELTASTAT;
        K->pr[P[E->colstart[1]]] = -E->v[1];
        K->pr[P[E->colstart[1] + 1]] = -E->v[2] - DELTASTAT;
        K->pr[P[E->colstart[2]]] = -E->v[3];
        K->pr[P[E->colstart[2] + 1]] = -E->v[4];
        K->pr[P[E->colstart[2] + 2]] = -E->v[5] - DELTASTAT;
    }
}
/* the same places with the identity scaling */
void spec_kkt_init(spmat* K, idxint* P, cone* C) {
    idxint i, k, p, t;
    for (i = 0; i < C->lpc->p; i++) K->pr[P[C->lpc->kkt_idx[i]]] = -1;
    for (i = 0; i < C->nsoc; i++) {
        socone* S = &C->soc[i]; p = S->p;
        K->pr[P[S->Didx[0]]] = -1;
        for (k = 1; k < p; k++) K->pr[P[S->Didx[k]]] = -1;
        t = S->Didx[p - 1];
        for (k = 0; k < p - 1; k++) K->pr[P[t + 1 + k]] = 0;
        K->pr[P[t + p]] = -1;
        K->pr[P[t + p + 1]] = 0;
        for (k = 0; k < p - 1; k++) K->pr[P[t + p + 2 + k]] = 0;
        K->pr[P[t + 2 * p + 1]] = 1;
    }
}
idxint spec_kkt_factor(kkt* K, pfloat eps, pfloat delta) {
    return LDL_numeric2(K->PKPt->n, K->PKPt->jc, K->PKPt->ir, K->PKPt->pr, K->L->jc, K->Parent, K->Sign, eps, delta,
                        K->Lnz, K->L->ir, K->L->pr, K->D, K->work1, K->Pattern, K->Flag) == K->PKPt->n ? KKT_OK : KKT_PROBLEM;
}
static void ldl3(kkt* K, pfloat* b, pfloat* x) {
    LDL_lsolve2(K->PKPt->n, b, K->L->jc, K->L->ir, K->L->pr, x);
    LDL_dsolve(K->PKPt->n, x, K->D);
    LDL_ltsolve(K->PKPt->n, x, K->L->jc, K->L->ir, K->L->pr);
}
/* solve and refine: stop when accurate, when out of steps or when refinement stalls; undo a step that made it worse */
idxint spec_kkt_solve(kkt* K, spmat* A, spmat* G, pfloat* B, pfloat* dx, pfloat* dy, pfloat* dz, idxint n, idxint p, idxint m, cone* C, idxint isinit, idxint nitref) {
    idxint i, l, o, r, *Q = K->Pinv, nK = K->PKPt->n, M = m + 2 * C->nsoc;
    pfloat *X = K->work1, *D = K->work2, *e = K->work3, *E = K->work4, *tz = K->work5, *g = K->work6, *ez = e + n + p;
    pfloat thr, prev = (pfloat)ECOS_NAN, ex, ey = 0, err;
    thr = (1 + norminf(B, n + p + M)) * LINSYSACC;
    ldl3(K, B, X);
    for (r = 0; r <= nitref; r++) {
        unstretch(n, p, C, Q, X, dx, dy, dz);
        for (i = 0; i < n; i++) e[i] = B[Q[i]] - DELTASTAT * dx[i];
        if (A) sparseMtVm(A, dy, e, 0, 0);
        sparseMtVm(G, dz, e, 0, 0);
        ex = norminf(e, n);
        if (p > 0) {
            for (i = 0; i < p; i++) e[n + i] = B[Q[n + i]] + DELTASTAT * dy[i];
            sparseMV(A, dx, e + n, -1, 0);
            ey = norminf(e + n, p);
        }
        sparseMV(G, dx, g, 1, 1);
        for (i = 0; i < C->lpc->p; i++) ez[i] = B[Q[n + p + i]] - g[i] + DELTASTAT * dz[i];
        o = C->lpc->p;
        for (l = 0; l < C->nsoc; l++) {
            idxint c = C->soc[l].p;
            for (i = 0; i < c; i++) ez[o + 2 * l + i] = B[Q[n + p + o + 2 * l + i]] - g[o + i] + (i < c - 1 ? 1 : -1) * (DELTASTAT * dz[o + i]);
            ez[o + 2 * l + c] = 0;
            ez[o + 2 * l + c + 1] = 0;
            o += c;
        }
        for (l = 0; l < C->nexc; l++) for (i = 0; i < 3; i++)
            ez[o + 2 * C->nsoc + 3 * l + i] = B[Q[n + p + o + 2 * C->nsoc + 3 * l + i]] - g[o + 3 * l + i] + DELTASTAT * dz[o + 3 * l + i];
        for (i = 0; i < M; i++) tz[i] = X[Q[n + p + i]];
        if (isinit == 0) scale2add(tz, ez, C); else vadd(M, tz, ez);
        err = max2(ex, norminf(ez, M));
        if (p > 0) err = max2(err, ey);
        if (r > 0 && err > prev) {
            for (i = 0; i < nK; i++) X[i] -= D[i];
            r--;
            break;
        }
        if (r == nitref || err < thr || (r > 0 && prev < IRERRFACT * err)) break;
        prev = err;
        for (i = 0; i < nK; i++) E[Q[i]] = e[i];
        ldl3(K, E, D);
        for (i = 0; i < nK; i++) X[i] += D[i];
    }
    unstretch(n, p, C, Q, X, dx, dy, dz);
    return r;
}
