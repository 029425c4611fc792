/* Reference definitions of the dense and sparse kernels (never executed; summarised and compared). */
#include "spla.h"
#include "splamm.h"
#include <math.h>
#include "pins.h"

void spec_vadd(idxint n, pfloat* x, pfloat* y) { for (idxint i = 0; i < n; i++) y[i] = y[i] + x[i]; }
void spec_vsubscale(idxint n, pfloat a, pfloat* x, pfloat* y) { for (idxint i = 0; i < n; i++) y[i] = y[i] - a * x[i]; }
pfloat spec_norm2(pfloat* v, idxint n) { pfloat s = 0; for (idxint i = 0; i < n; i++) s += v[i] * v[i]; return sqrt(s); }
pfloat spec_norminf(pfloat* v, idxint n) {
    pfloat r = 0;
    for (idxint i = 0; i < n; i++) { if (v[i] > r) r = v[i]; if (-v[i] > r) r = -v[i]; }
    return r;
}
pfloat spec_eddot(idxint n, pfloat* x, pfloat* y) { pfloat z = 0; for (idxint i = 0; i < n; i++) z += y[i] * x[i]; return z; }

/* y = (newVector ? 0 : y) +- A x */
void spec_sparseMV(spmat* A, pfloat* x, pfloat* y, idxint a, idxint newVector) {
    idxint i, j;
    if (newVector > 0) for (i = 0; i < A->m; i++) y[i] = 0;
    if (A->nnz == 0) return;
    for (j = 0; j < A->n; j++)
        for (i = A->jc[j]; i < A->jc[j + 1]; i++)
            y[A->ir[i]] += (a > 0 ? 1.0 : -1.0) * A->pr[i] * x[j];
}
/* y = (newVector ? 0 : y) - A' x, optionally without the diagonal */
void spec_sparseMtVm(spmat* A, pfloat* x, pfloat* y, idxint newVector, idxint skipDiagonal) {
    idxint j, k;
    for (j = 0; j < A->n; j++) {
        pfloat s = 0;
        if (A->nnz != 0)
            for (k = A->jc[j]; k < A->jc[j + 1]; k++)
                if (!(skipDiagonal && A->ir[k] == j)) s += A->pr[k] * x[A->ir[k]];
        y[j] = (newVector > 0 ? 0 : y[j]) - s;
    }
}
void spec_spla_cumsum(idxint* p, idxint* w, idxint m) {
    idxint i, s = 0;
    for (i = 0; i < m; i++) { idxint t = w[i]; p[i] = s; w[i] = s; s += t; }
}
void spec_pinv(idxint n, idxint* p, idxint* pinv) { for (idxint i = 0; i < n; i++) pinv[p[i]] = i; }
