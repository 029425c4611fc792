/* Reference definitions: sparse LDL' factorisation and solves, omega function.  Never executed. */
#include "ldl.h"
#include "wright_omega.h"
#include <math.h>
#include "pins.h"
void spec_ldl_l_lsolve2(idxint n, double* b, idxint* jc, idxint* ir, double* pr, double* x) {
    idxint i, j, k;
    for (i = 0; i < n; i++) x[i] = b[i];
    for (j = 0; j < n; j++) for (k = jc[j]; k < jc[j + 1]; k++) x[ir[k]] = x[ir[k]] - pr[k] * x[j];
}
void spec_ldl_l_dsolve(idxint n, double* x, double* D) { for (idxint i = 0; i < n; i++) x[i] = x[i] / D[i]; }
void spec_ldl_l_ltsolve(idxint n, double* x, idxint* jc, idxint* ir, double* pr) {
    for (idxint j = n - 1; j >= 0; j--) for (idxint k = jc[j]; k < jc[j + 1]; k++) x[j] = x[j] - pr[k] * x[ir[k]];
}
/* elimination tree, column counts of L and their running sum */
void spec_ldl_l_symbolic2(idxint n, idxint* Ap, idxint* Ai, idxint* Lp, idxint* par, idxint* cnt, idxint* flag) {
    idxint i, k, e;
    for (k = 0; k < n; k++) {
        par[k] = -1; flag[k] = k; cnt[k] = 0;
        for (e = Ap[k]; e < Ap[k + 1]; e++)
            for (i = Ai[e]; flag[i] != k; i = par[i]) {
                if (par[i] == -1) par[i] = k;
                cnt[i] += 1; flag[i] = k;
            }
    }
    Lp[0] = 0;
    for (k = 0; k < n; k++) Lp[k + 1] = Lp[k] + cnt[k];
}
/* up-looking factorisation, row by row; a pivot of the wrong sign or too small becomes Sign*delta */
idxint spec_ldl_l_numeric2(idxint n, idxint* Ap, idxint* Ai, double* Ax, idxint* Lp, idxint* par, idxint* Sign, double eps, double delta,
                           idxint* cnt, idxint* Li, double* Lx, double* D, double* Y, idxint* pat, idxint* flag) {
    idxint i, k, e, len, top; double y, l;
    for (k = 0; k < n; k++) {
        Y[k] = 0; top = n; flag[k] = k; cnt[k] = 0;
        for (e = Ap[k]; e < Ap[k + 1]; e++) {
            i = Ai[e]; Y[i] = Ax[e];
            for (len = 0; flag[i] != k; i = par[i]) { pat[len] = i; len++; flag[i] = k; }
            while (len > 0) { len--; top--; pat[top] = pat[len]; }
        }
        D[k] = Y[k]; Y[k] = 0;
        for (; top < n; top++) {
            i = pat[top]; y = Y[i]; Y[i] = 0;
            for (e = Lp[i]; e < Lp[i] + cnt[i]; e++) Y[Li[e]] = Y[Li[e]] - Lx[e] * y;
            l = y / D[i];
            D[k] = D[k] - l * y;
            Li[e] = k; Lx[e] = l; cnt[i] += 1;
        }
        if (Sign[k] * D[k] <= eps) D[k] = Sign[k] * delta;
    }
    return n;
}
static pfloat improve(pfloat w, pfloat* r) {
    pfloat d = 1 + w, q = d + 2.0 / 3.0 * *r, v = w * (1 + *r / d * (d * q - 0.5 * *r) / (d * q - *r));
    *r = (2 * v * v - 8 * v - 1) / (72.0 * (d * d * d * d * d * d)) * *r * *r * *r * *r;
    return v;
}
/* y + log y = z by a series and two rounds of the fourth-order iteration; -1 outside the domain */
pfloat spec_wrightOmega(pfloat z) {
    pfloat w, r, q, L;
    if (z < 0) return -1;
    if (z < 1 + 3.14159265358979323846) {
        q = z - 1;
        w = 1 + 0.5 * q + 1 / 16.0 * (q * q) - 1 / 192.0 * (q * q * q) - 1 / 3072.0 * q + 13 / 61440.0 * q;
    } else {
        L = log(z);
        w = z - L + L / z + L * (L / 2 - 1) / (z * z) + L * (1 / 3.0 * L * L - 1.5 * L + 1) / (z * z * z);
    }
    r = z - w - log(w);
    w = improve(w, &r);
    w = improve(w, &r);
    return w;
}
