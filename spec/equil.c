/* Reference definitions: equilibration.  Never executed. */
#include "equil.h"
#include <math.h>
#include <stdlib.h>
#include "pins.h"

void max_rows(pfloat* E, const spmat* M);
void max_cols(pfloat* E, const spmat* M);
void equilibrate_rows(const pfloat* E, spmat* M);
void equilibrate_cols(const pfloat* E, spmat* M);
void restore(const pfloat* D, const pfloat* E, spmat* M);

static pfloat mag(pfloat v) { return fabs(v); }
static pfloat larger(pfloat a, pfloat b) { return a < b ? b : a; }
void spec_max_rows(pfloat* E, const spmat* M) {
    idxint c, k;
    for (c = 0; c < M->n; c++) for (k = M->jc[c]; k < M->jc[c + 1]; k++) E[M->ir[k]] = larger(mag(M->pr[k]), E[M->ir[k]]);
}
void spec_max_cols(pfloat* E, const spmat* M) {
    idxint c, k;
    for (c = 0; c < M->n; c++) for (k = M->jc[c]; k < M->jc[c + 1]; k++) E[c] = larger(mag(M->pr[k]), E[c]);
}
void spec_sum_sq_rows(pfloat* E, const spmat* M) {
    idxint c, k;
    for (c = 0; c < M->n; c++) for (k = M->jc[c]; k < M->jc[c + 1]; k++) E[M->ir[k]] += M->pr[k] * M->pr[k];
}
void spec_sum_sq_cols(pfloat* E, const spmat* M) {
    idxint c, k;
    for (c = 0; c < M->n; c++) for (k = M->jc[c]; k < M->jc[c + 1]; k++) E[c] += M->pr[k] * M->pr[k];
}
void spec_equilibrate_rows(const pfloat* E, spmat* M) {
    idxint c, k;
    for (c = 0; c < M->n; c++) for (k = M->jc[c]; k < M->jc[c + 1]; k++) M->pr[k] = M->pr[k] / E[M->ir[k]];
}
void spec_equilibrate_cols(const pfloat* E, spmat* M) {
    idxint c, k;
    for (c = 0; c < M->n; c++) for (k = M->jc[c]; k < M->jc[c + 1]; k++) M->pr[k] = M->pr[k] / E[c];
}
/* undo both scalings */
void spec_restore(const pfloat* D, const pfloat* E, spmat* M) {
    idxint c, k;
    for (c = 0; c < M->n; c++) for (k = M->jc[c]; k < M->jc[c + 1]; k++) M->pr[k] = M->pr[k] * E[c] * D[M->ir[k]];
}
static pfloat factor(pfloat v) { return mag(v) < 1e-6 ? 1 : sqrt(v); }
static idxint nrow(pwork* w) { return w->A ? w->A->m : 0; }
static idxint ncol(pwork* w) { return w->A ? w->A->n : w->G->n; }
void spec_use_ruiz_equilibration(pwork* w) {
    idxint n = ncol(w), p = nrow(w), m = w->G->m, i, j, l, o, it; pfloat t;
    pfloat *x = calloc(n, sizeof(pfloat)), *a = calloc(p, sizeof(pfloat)), *g = calloc(m, sizeof(pfloat));
    for (i = 0; i < n; i++) w->xequil[i] = 1;
    for (i = 0; i < p; i++) w->Aequil[i] = 1;
    for (i = 0; i < m; i++) w->Gequil[i] = 1;
    for (it = 0; it < 3; it++) {
        for (i = 0; i < n; i++) x[i] = 0;
        for (i = 0; i < p; i++) a[i] = 0;
        for (i = 0; i < m; i++) g[i] = 0;
        if (w->A) max_cols(x, w->A);
        if (m > 0) max_cols(x, w->G);
        if (w->A) max_rows(a, w->A);
        if (m > 0) max_rows(g, w->G);
        /* one factor per cone */
        o = w->C->lpc->p;
        for (l = 0; l < w->C->nsoc; l++) {
            t = 0;
            for (j = 0; j < w->C->soc[l].p; j++) t += g[o + j];
            for (j = 0; j < w->C->soc[l].p; j++) g[o + j] = t;
            o += w->C->soc[l].p;
        }
        for (l = 0; l < w->C->nexc; l++) {
            t = g[o] + g[o + 1] + g[o + 2];
            g[o] = t; g[o + 1] = t; g[o + 2] = t;
            o += 3;
        }
        for (i = 0; i < n; i++) x[i] = factor(x[i]);
        for (i = 0; i < p; i++) a[i] = factor(a[i]);
        for (i = 0; i < m; i++) g[i] = factor(g[i]);
        if (w->A) equilibrate_rows(a, w->A);
        if (m > 0) equilibrate_rows(g, w->G);
        if (w->A) equilibrate_cols(x, w->A);
        if (m > 0) equilibrate_cols(x, w->G);
        for (i = 0; i < n; i++) w->xequil[i] = w->xequil[i] * x[i];
        for (i = 0; i < p; i++) w->Aequil[i] = w->Aequil[i] * a[i];
        for (i = 0; i < m; i++) w->Gequil[i] = w->Gequil[i] * g[i];
    }
    for (i = 0; i < p; i++) w->b[i] = w->b[i] / w->Aequil[i];
    for (i = 0; i < m; i++) w->h[i] = w->h[i] / w->Gequil[i];
    free(x); free(a); free(g);
}
void use_ruiz_equilibration(pwork* w);
void spec_set_equilibration(pwork* w) { use_ruiz_equilibration(w); }
void spec_unset_equilibration(pwork* w) {
    idxint i, p = nrow(w), m = w->G->m;
    if (w->A) restore(w->Aequil, w->xequil, w->A);
    if (m > 0) restore(w->Gequil, w->xequil, w->G);
    for (i = 0; i < p; i++) w->b[i] = w->b[i] * w->Aequil[i];
    for (i = 0; i < m; i++) w->h[i] = w->h[i] * w->Gequil[i];
}
