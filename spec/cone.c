/* Reference definitions: algebra of the product of the linear and the second-order cones. */
#include "cone.h"
#include "ecos.h"
#include "expcone.h"
#include <math.h>
#include "pins.h"

static idxint off(cone* C, idxint l) { idxint k, o = C->lpc->p; for (k = 0; k < l; k++) o += C->soc[k].p; return o; }
static pfloat tail2(pfloat* u, idxint p) { pfloat s = 0; idxint i; for (i = 1; i < p; i++) s += u[i] * u[i]; return s; }
static pfloat sdiv(pfloat x, pfloat y) { return y < EPS ? x / EPS : x / y; }

pfloat spec_socres(pfloat* u, idxint p) { return u[0] * u[0] - tail2(u, p); }

/* s = r + (1+alpha) e, alpha the largest violation (at least -GAMMA) */
void spec_bring2cone(cone* C, pfloat* r, pfloat* s) {
    pfloat alpha = -GAMMA; idxint i, l, j;
    for (i = 0; i < C->lpc->p; i++) if (r[i] <= 0 && -r[i] > alpha) alpha = -r[i];
    for (l = 0; l < C->nsoc; l++) {
        pfloat res = r[off(C, l)] - sqrt(tail2(r + off(C, l), C->soc[l].p));
        if (res <= 0 && -res > alpha) alpha = -res;
    }
    for (i = 0; i < C->lpc->p; i++) s[i] = r[i] + (1 + alpha);
    for (l = 0; l < C->nsoc; l++) {
        s[off(C, l)] = r[off(C, l)] + (1 + alpha);
        for (j = 1; j < C->soc[l].p; j++) s[off(C, l) + j] = r[off(C, l) + j];
    }
}
void spec_unitInitialization(cone* C, pfloat* s, pfloat* z, pfloat scaling) {
    idxint i, l, j, k;
    for (i = 0; i < C->lpc->p; i++) { s[i] = scaling; z[i] = scaling; }
    for (l = 0; l < C->nsoc; l++) {
        for (j = 1; j < C->soc[l].p; j++) { s[off(C, l) + j] = 0; z[off(C, l) + j] = 0; }
        s[off(C, l)] = scaling; z[off(C, l)] = scaling;
    }
    k = off(C, C->nsoc);
    for (l = 0; l < C->nexc; l++) {
        s[k + 3 * l] = z[k + 3 * l] = -1.051383945322714 * scaling;
        s[k + 3 * l + 1] = z[k + 3 * l + 1] = 1.258967884768947 * scaling;
        s[k + 3 * l + 2] = z[k + 3 * l + 2] = 0.556409619469370 * scaling;
    }
}
/* lambda = W z */
void spec_scale(pfloat* z, cone* C, pfloat* lambda) {
    idxint i, l;
    for (i = 0; i < C->lpc->p; i++) lambda[i] = C->lpc->w[i] * z[i];
    for (l = 0; l < C->nsoc; l++) {
        socone* K = &C->soc[l]; idxint o = off(C, l); pfloat zeta = 0;
        for (i = 1; i < K->p; i++) zeta += K->q[i - 1] * z[o + i];
        lambda[o] = K->eta * (K->a * z[o] + zeta);
        for (i = 1; i < K->p; i++) lambda[o + i] = K->eta * (z[o + i] + (z[o] + sdiv(zeta, 1 + K->a)) * K->q[i - 1]);
    }
}
/* y += W^2 x in the stretched layout (two expansion rows per second-order cone) */
void spec_scale2add(pfloat* x, pfloat* y, cone* C) {
    idxint i, l, o;
    for (i = 0; i < C->lpc->p; i++) y[i] += C->lpc->v[i] * x[i];
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        socone* K = &C->soc[l]; idxint p = K->p; pfloat qx = 0;
        pfloat x0 = x[o], xv = x[o + p], xu = x[o + p + 1];
        for (i = 1; i < p; i++) qx += K->q[i - 1] * x[o + i];
        y[o] += K->eta_square * (K->d1 * x0 + K->u0 * xu);
        for (i = 1; i < p; i++) y[o + i] += K->eta_square * (x[o + i] + K->q[i - 1] * (K->v1 * xv + K->u1 * xu));
        y[o + p] += K->eta_square * (K->v1 * qx + xv);
        y[o + p + 1] += K->eta_square * (K->u0 * x0 + K->u1 * qx - xu);
        o += p + 2;
    }
    for (l = 0; l < C->nexc; l++) {
        pfloat* v = C->expc[l].v; pfloat* X = x + o + 3 * l; pfloat* Y = y + o + 3 * l;
        Y[0] += v[0] * X[0] + v[1] * X[1] + v[3] * X[2];
        Y[1] += v[1] * X[0] + v[2] * X[1] + v[4] * X[2];
        Y[2] += v[3] * X[0] + v[4] * X[1] + v[5] * X[2];
    }
}
/* z = W^-1 lambda */
void spec_unscale(pfloat* lambda, cone* C, pfloat* z) {
    idxint i, l;
    for (i = 0; i < C->lpc->p; i++) z[i] = sdiv(lambda[i], C->lpc->w[i]);
    for (l = 0; l < C->nsoc; l++) {
        socone* K = &C->soc[l]; idxint o = off(C, l); pfloat zeta = 0;
        for (i = 1; i < K->p; i++) zeta += K->q[i - 1] * lambda[o + i];
        z[o] = sdiv(K->a * lambda[o] - zeta, K->eta);
        for (i = 1; i < K->p; i++) z[o + i] = sdiv(lambda[o + i] + (sdiv(zeta, 1 + K->a) - lambda[o]) * K->q[i - 1], K->eta);
    }
}
pfloat spec_conicProduct(pfloat* u, pfloat* v, cone* C, pfloat* w) {
    idxint i, l; pfloat mu = 0;
    for (i = 0; i < C->lpc->p; i++) { pfloat t = u[i] * v[i]; w[i] = t; mu += t < 0 ? -t : t; }
    for (l = 0; l < C->nsoc; l++) {
        idxint o = off(C, l), p = C->soc[l].p; pfloat t = 0;
        for (i = 0; i < p; i++) t += u[o + i] * v[o + i];
        mu += t < 0 ? -t : t;
        w[o] = t;
        for (i = 1; i < p; i++) w[o + i] = u[o] * v[o + i] + v[o] * u[o + i];
    }
    return mu;
}
void spec_conicDivision(pfloat* u, pfloat* w, cone* C, pfloat* v) {
    idxint i, l;
    for (i = 0; i < C->lpc->p; i++) v[i] = sdiv(w[i], u[i]);
    for (l = 0; l < C->nsoc; l++) {
        idxint o = off(C, l), p = C->soc[l].p; pfloat zeta = 0, rho;
        for (i = 1; i < p; i++) zeta += u[o + i] * w[o + i];
        rho = u[o] * u[o] - tail2(u + o, p);
        v[o] = sdiv(u[o] * w[o] - zeta, rho);
        for (i = 1; i < p; i++) v[o + i] = sdiv(sdiv(zeta, u[o]) - w[o], rho) * u[o + i] + sdiv(w[o + i], u[o]);
    }
}
/* Nesterov-Todd scaling of every cone, the expanded-KKT quantities, and lambda = W z */
idxint spec_updateScalings(cone* C, pfloat* s, pfloat* z, pfloat* lambda, pfloat mu) {
    idxint i, l, o;
    for (i = 0; i < C->lpc->p; i++) { C->lpc->v[i] = sdiv(s[i], z[i]); C->lpc->w[i] = sqrt(sdiv(s[i], z[i])); }
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        socone* K = &C->soc[l]; idxint p = K->p; pfloat sr, zr, sn, zn, gam, a, w, c, d, d1, u02, t;
        sr = s[o] * s[o] - tail2(s + o, p); zr = z[o] * z[o] - tail2(z + o, p);
        if (sr <= 0 || zr <= 0) return OUTSIDE_CONE;
        sn = sqrt(sr); zn = sqrt(zr);
        for (i = 0; i < p; i++) { K->skbar[i] = sdiv(s[o + i], sn); K->zkbar[i] = sdiv(z[o + i], zn); }
        K->eta_square = sdiv(sn, zn);
        K->eta = sqrt(K->eta_square);
        t = 0;
        for (i = 0; i < p; i++) t += K->skbar[i] * K->zkbar[i];
        gam = sqrt(0.5 * (1 + t));
        a = sdiv(0.5, gam) * (K->skbar[0] + K->zkbar[0]);
        w = 0;
        for (i = 1; i < p; i++) { pfloat qi = sdiv(0.5, gam) * (K->skbar[i] - K->zkbar[i]); K->q[i - 1] = qi; w += qi * qi; }
        K->a = a; K->w = w;
        c = 1 + a + sdiv(w, 1 + a);
        d = 1 + sdiv(2, 1 + a) + sdiv(w, (1 + a) * (1 + a));
        d1 = 0.5 * (a * a + w * (1 - sdiv(c * c, 1 + w * d)));
        if (d1 < 0) d1 = 0;
        u02 = a * a + w - d1;
        if (sdiv(c * c, u02) - d <= 0) return OUTSIDE_CONE;
        K->d1 = d1; K->u0 = sqrt(u02); K->u1 = sqrt(sdiv(c * c, u02)); K->v1 = sqrt(sdiv(c * c, u02) - d);
        o += p;
    }
    for (l = 0; l < C->nexc; l++) {
        evalExpHessian(z + C->fexv + 3 * l, C->expc[l].v, mu);
        evalExpGradient(z + C->fexv + 3 * l, C->expc[l].g);
    }
    spec_scale(z, C, lambda);
    return INSIDE_CONE;
}
pfloat spec_evalSymmetricBarrierValue(pfloat* s, pfloat* z, pfloat tau, pfloat kap, cone* C, pfloat D) {
    pfloat b = 0; idxint i, l;
    for (i = 0; i < C->lpc->p; i++) b -= (s[i] <= 0 || z[i] <= 0) ? ECOS_INFINITY : log(s[i]) + log(z[i]);
    b -= (tau <= 0 || kap <= 0) ? ECOS_INFINITY : log(tau) + log(kap);
    for (l = 0; l < C->nsoc; l++) {
        idxint o = off(C, l), p = C->soc[l].p;
        pfloat sr = s[o] * s[o] - tail2(s + o, p), zr = z[o] * z[o] - tail2(z + o, p);
        b -= sr <= 0 ? ECOS_INFINITY : 0.5 * log(sr);
        b -= zr <= 0 ? ECOS_INFINITY : 0.5 * log(zr);
    }
    return b - D - 1;
}
void spec_getSOCDetails(socone* K, idxint* p, pfloat* eta2, pfloat* d1, pfloat* u0, pfloat* u1, pfloat* v1, pfloat** q) {
    *p = K->p; *eta2 = K->eta_square; *d1 = K->d1; *u0 = K->u0; *u1 = K->u1; *v1 = K->v1; *q = K->q;
}
/* directions from a permuted stretched solution */
void spec_unstretch(idxint n, idxint p, cone* C, idxint* Pinv, pfloat* Px, pfloat* dx, pfloat* dy, pfloat* dz) {
    idxint i, l, o, k;
    for (i = 0; i < n; i++) dx[i] = Px[Pinv[i]];
    for (i = 0; i < p; i++) dy[i] = Px[Pinv[n + i]];
    for (i = 0; i < C->lpc->p; i++) dz[i] = Px[Pinv[n + p + i]];
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        for (i = 0; i < C->soc[l].p; i++) dz[o + i] = Px[Pinv[n + p + o + i + 2 * l]];
        o += C->soc[l].p;
    }
    for (l = 0; l < C->nexc; l++)
        for (k = 0; k < 3; k++) dz[o + 3 * l + k] = Px[Pinv[n + p + o + 2 * C->nsoc + 3 * l + k]];
}
