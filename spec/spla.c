/* Reference definitions: sparse matrices.  Never executed. */
#include "splamm.h"
void spla_cumsum(idxint* p, idxint* w, idxint m);
#include <stdlib.h>
#include "pins.h"
spmat* spec_ecoscreateSparseMatrix(idxint m, idxint n, idxint nnz, idxint* jc, idxint* ir, pfloat* pr) {
    spmat* M = malloc(sizeof(spmat));
    M->n = n; M->m = m; M->nnz = nnz; M->pr = pr; M->ir = ir; M->jc = jc;
    if (jc) M->jc[n] = nnz;
    return M;
}
spmat* spec_newSparseMatrix(idxint m, idxint n, idxint nnz) {
    idxint *jc = malloc((1 + n) * sizeof(idxint)), *ir = malloc(nnz * sizeof(idxint)); pfloat* pr = malloc(nnz * sizeof(pfloat));
    jc[n] = nnz;
    return ecoscreateSparseMatrix(m, n, nnz, jc, ir, pr);
}
void spec_freeSparseMatrix(spmat* M) { if (M->jc) free(M->jc); if (M->ir) free(M->ir); if (M->pr) free(M->pr); free(M); }
spmat* spec_transposeSparseMatrix(spmat* M, idxint* map) {
    idxint r, c, k, *next; spmat* T = newSparseMatrix(M->n, M->m, M->nnz);
    if (M->nnz == 0) { for (r = 0; r < M->m; r++) T->jc[r] = 0; return T; }
    next = malloc(M->m * sizeof(idxint));
    for (r = 0; r < M->m; r++) next[r] = 0;
    for (k = 0; k < M->nnz; k++) next[M->ir[k]] += 1;
    spla_cumsum(T->jc, next, M->m);
    for (c = 0; c < M->n; c++)
        for (k = M->jc[c]; k < M->jc[c + 1]; k++) {
            idxint to = next[M->ir[k]];
            next[M->ir[k]] = to + 1;
            T->ir[to] = c; T->pr[to] = M->pr[k]; map[k] = to;
        }
    free(next);
    return T;
}
void spec_permuteSparseSymmetricMatrix(spmat* A, idxint* inv, spmat* C, idxint* map) {
    idxint r, c, k, col, row, to, *next = malloc(A->n * sizeof(idxint));
    for (c = 0; c < A->n; c++) next[c] = 0;
    for (c = 0; c < A->n; c++)
        for (k = A->jc[c]; k < A->jc[c + 1]; k++) {
            r = A->ir[k];
            if (r <= c) { col = inv[r] > inv[c] ? inv[r] : inv[c]; next[col] += 1; }
        }
    spla_cumsum(C->jc, next, A->n);
    for (c = 0; c < A->n; c++)
        for (k = A->jc[c]; k < A->jc[c + 1]; k++) {
            r = A->ir[k];
            if (r <= c) {
                col = inv[r] > inv[c] ? inv[r] : inv[c];
                row = inv[r] < inv[c] ? inv[r] : inv[c];
                to = next[col];
                next[col] = to + 1;
                C->ir[to] = row; C->pr[to] = A->pr[k];
                if (map) map[k] = to;
            }
        }
    free(next);
}
spmat* spec_copySparseMatrix(spmat* A) {
    idxint i; spmat* B = newSparseMatrix(A->m, A->n, A->nnz);
    for (i = 0; i < A->n + 1; i++) B->jc[i] = A->jc[i];
    for (i = 0; i < A->nnz; i++) { B->ir[i] = A->ir[i]; B->pr[i] = A->pr[i]; }
    return B;
}
