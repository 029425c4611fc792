/* Reference definitions: exponential cone K = cl{(x1,x2,x3): x3 exp(x1/x3) <= x2, x3>0}, barriers and dual. */
#include "expcone.h"
#include "wright_omega.h"
#include <math.h>
#include "pins.h"
void spec_evalExpHessian(pfloat* w, pfloat* v, pfloat mu) {
    pfloat x = w[0], y = w[1], z = w[2], l = log(-y / x), r = z - x - x * l;
    v[0] = mu * (1 / (x * x) - 1 / (r * x) + l * l / (r * r));
    v[1] = mu * (1 / (r * y) + l * x / (r * r * y));
    v[2] = mu * (1 / (y * y) - x / (r * y * y) + x * x / (r * r * y * y));
    v[3] = -mu * l / (r * r);
    v[4] = -mu * x / (r * r * y);
    v[5] = mu / (r * r);
}
void spec_evalExpGradient(pfloat* w, pfloat* g) {
    pfloat x = w[0], y = w[1], z = w[2], l = log(-y / x), r = z - x - x * l;
    g[0] = l / r - 1 / x; g[1] = x / (r * y) - 1 / y; g[2] = -1 / r;
}
pfloat spec_evalBarrierValue(pfloat* s, pfloat* z, idxint fc, idxint nexc) {
    pfloat b = 0; idxint j;
    for (j = 0; j < nexc; j++) {
        pfloat* S = s + fc + 3 * j; pfloat* Z = z + fc + 3 * j;
        pfloat l = log(-Z[1] / Z[0]), o = wrightOmega(1 - S[0] / S[2] - log(S[2]) + log(S[1])), q = (o - 1) * (o - 1) / o;
        b -= log(Z[2] - Z[0] - Z[0] * l) + log(-Z[0]) + log(Z[1]);
        b -= log(q) + 2 * log(S[2]) + log(S[1]) + 3;
    }
    return b;
}
void spec_scaleToAddExpcone(pfloat* y, pfloat* x, expcone* E, idxint nexc, idxint fc) {
    static const int at = 0;
    idxint l;
    for (l = 0; l < nexc; l++) {
        pfloat* v = E[l].v; pfloat* X = x + fc + 3 * l; pfloat* Y = y + fc + 3 * l;
        Y[0] += v[0] * X[0] + v[1] * X[1] + v[3] * X[2];
        Y[1] += v[1] * X[0] + v[2] * X[1] + v[4] * X[2];
        Y[2] += v[3] * X[0] + v[4] * X[1] + v[5] * X[2];
    }
}
idxint spec_evalExpPrimalFeas(pfloat* s, idxint nexc) {
    idxint j;
    for (j = 0; j < nexc; j++) {
        pfloat a = s[3 * j], b = s[3 * j + 1], c = s[3 * j + 2];
        if (c * log(b / c) - a < 0) return 0;
        if (b < 0) return 0;
        if (c < 0) return 0;
    }
    return 1;
}
idxint spec_evalExpDualFeas(pfloat* z, idxint nexc) {
    idxint j;
    for (j = 0; j < nexc; j++) {
        pfloat a = z[3 * j], b = z[3 * j + 1], c = z[3 * j + 2];
        if (a > 0) return 0;
        if (b < 0) return 0;
        if (c - a - a * log(-b / a) < 0) return 0;
    }
    return 1;
}
