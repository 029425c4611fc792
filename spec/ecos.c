/* Reference definitions: the interior point method, its bookkeeping and its life cycle.  Never executed. */
#include "ecos.h"
#include "equil.h"
#include "splamm.h"
#include "kkt.h"
#include "ctrlc.h"
#include "wright_omega.h"
#include <math.h>
#include "pins.h"

#define UNDECIDED (-87)
idxint compareStatistics(stats* infoA, stats* infoB);
void saveIterateAsBest(pwork* w);
void restoreBestIterate(pwork* w);
idxint checkExitConditions(pwork* w, idxint mode);
idxint init(pwork* w);
void computeResiduals(pwork* w);
void updateStatistics(pwork* w);
void RHS_affine(pwork* w);
void RHS_combined(pwork* w);
pfloat expConeLineSearch(pwork* w, pfloat dtau, pfloat dkappa, idxint affine);
pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dtau, pfloat kap, pfloat dkap, cone* C, kkt* KKT);
void backscale(pwork* w);
#if PRINTLEVEL > 0
void printProgress(stats* info);
void deleteLastProgressLine(stats* info);
#endif

static pfloat max2(pfloat a, pfloat b) { return a < b ? b : a; }
static int less(pfloat a, pfloat b) { return a > 0 && a < b; }

/* is A the better iterate?  (a merit comparison, see DESIGN.md) */
idxint spec_compareStatistics(stats* A, stats* B) {
    int gap = A->gap > 0 && B->gap > 0 && A->gap < B->gap, mu = less(A->mu, B->mu);
    if (A->pinfres != ECOS_NAN && A->kapovert > 1)
        return gap && mu && (B->pinfres == ECOS_NAN || less(A->pinfres, B->pres));
    return gap && mu && less(A->pres, B->pres) && less(A->dres, B->dres) && less(A->kapovert, B->kapovert);
}
void spec_saveIterateAsBest(pwork* w) {
    idxint i; stats *b = w->best_info, *c = w->info;
    for (i = 0; i < w->n; i++) w->best_x[i] = w->x[i];
    for (i = 0; i < w->p; i++) w->best_y[i] = w->y[i];
    for (i = 0; i < w->m; i++) w->best_z[i] = w->z[i];
    for (i = 0; i < w->m; i++) w->best_s[i] = w->s[i];
    w->best_kap = w->kap; w->best_tau = w->tau; w->best_cx = w->cx; w->best_by = w->by; w->best_hz = w->hz;
    b->pcost = c->pcost; b->dcost = c->dcost; b->pres = c->pres; b->dres = c->dres;
    b->pinfres = c->pinfres; b->dinfres = c->dinfres; b->gap = c->gap; b->relgap = c->relgap;
    b->mu = c->mu; b->kapovert = c->kapovert; b->iter = c->iter;
}
void spec_restoreBestIterate(pwork* w) {
    idxint i; stats *b = w->best_info, *c = w->info;
    for (i = 0; i < w->n; i++) w->x[i] = w->best_x[i];
    for (i = 0; i < w->p; i++) w->y[i] = w->best_y[i];
    for (i = 0; i < w->m; i++) w->z[i] = w->best_z[i];
    for (i = 0; i < w->m; i++) w->s[i] = w->best_s[i];
    w->kap = w->best_kap; w->tau = w->best_tau; w->cx = w->best_cx; w->by = w->best_by; w->hz = w->best_hz;
    c->pcost = b->pcost; c->dcost = b->dcost; c->pres = b->pres; c->dres = b->dres;
    c->pinfres = b->pinfres; c->dinfres = b->dinfres; c->gap = b->gap; c->relgap = b->relgap;
    c->mu = b->mu; c->kapovert = b->kapovert;
}
idxint spec_checkExitConditions(pwork* w, idxint mode) {
    stats* f = w->info; settings* t = w->stgs;
    pfloat feas = mode == 0 ? t->feastol : t->feastol_inacc;
    pfloat abs_ = mode == 0 ? t->abstol : t->abstol_inacc;
    pfloat rel = mode == 0 ? t->reltol : t->reltol_inacc;
    if ((-w->cx > 0 || -w->by - w->hz >= -abs_) && f->pres < feas && f->dres < feas && (f->gap < abs_ || f->relgap < rel)) {
        f->pinf = 0; f->dinf = 0;
        return ECOS_OPTIMAL + mode;
    }
    if (f->dinfres != ECOS_NAN && f->dinfres < feas && w->tau < w->kap) {
        f->pinf = 0; f->dinf = 1;
        return ECOS_DINF + mode;
    }
    if ((f->pinfres != ECOS_NAN && f->pinfres < feas && w->tau < w->kap) ||
        (w->tau < t->feastol && w->kap < t->feastol && f->pinfres < t->feastol)) {
        f->pinf = 1; f->dinf = 0;
        return ECOS_PINF + mode;
    }
    return UNDECIDED;
}
/* [u; v; h] scattered into the permuted stretched layout; g: cone part */
static void stretch(pwork* w, pfloat* R, pfloat* x, pfloat sx, pfloat* y, pfloat sy, pfloat* g) {
    idxint i, l, k, o, n = w->n, p = w->p, *Q = w->KKT->Pinv; cone* C = w->C;
    for (i = 0; i < n; i++) R[Q[i]] = x ? sx * x[i] : 0;
    for (i = 0; i < p; i++) R[Q[n + i]] = sy * y[i];
    for (i = 0; i < C->lpc->p; i++) R[Q[n + p + i]] = g[i];
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        for (i = 0; i < C->soc[l].p; i++) R[Q[n + p + 2 * l + o + i]] = g[o + i];
        R[Q[n + p + 2 * l + o + C->soc[l].p]] = 0;
        R[Q[n + p + 2 * l + o + C->soc[l].p + 1]] = 0;
        o += C->soc[l].p;
    }
    for (l = 0; l < C->nexc; l++) for (k = 0; k < 3; k++) R[Q[n + p + 2 * C->nsoc + o + 3 * l + k]] = g[o + 3 * l + k];
}
idxint spec_init(pwork* w) {
    idxint i, *Pinv = w->KKT->Pinv; kkt* K = w->KKT;
    K->delta = w->stgs->delta;
    kkt_init(K->PKPt, K->PK, w->C);
    stretch(w, K->RHS1, NULL, 0, w->b, 1, w->h);
    for (i = 0; i < w->n; i++) K->RHS2[Pinv[i]] = -w->c[i];
    for (i = w->n; i < K->PKPt->n; i++) K->RHS2[Pinv[i]] = 0;
    w->resx0 = max2(1, norm2(w->c, w->n));
    w->resy0 = max2(1, norm2(w->b, w->p));
    w->resz0 = max2(1, norm2(w->h, w->m));
    if (w->C->nexc == 0) {
        if (kkt_factor(K, w->stgs->eps, w->stgs->delta) != KKT_OK) return ECOS_FATAL;
        w->info->nitref1 = kkt_solve(K, w->A, w->G, K->RHS1, K->dx1, K->dy1, K->dz1, w->n, w->p, w->m, w->C, 1, w->stgs->nitref);
        for (i = 0; i < w->n; i++) w->x[i] = K->dx1[i];
        for (i = 0; i < w->m; i++) K->work1[i] = -K->dz1[i];
        bring2cone(w->C, K->work1, w->s);
        w->info->nitref2 = kkt_solve(K, w->A, w->G, K->RHS2, K->dx2, K->dy2, K->dz2, w->n, w->p, w->m, w->C, 1, w->stgs->nitref);
        for (i = 0; i < w->p; i++) w->y[i] = K->dy2[i];
        bring2cone(w->C, K->dz2, w->z);
    } else if (w->C->nexc > 0) {
        unitInitialization(w->C, w->s, w->z, 1.0);
        for (i = 0; i < w->p; i++) w->y[i] = 0;
        for (i = 0; i < w->n; i++) w->x[i] = 0;
        w->info->nitref1 = 0; w->info->nitref2 = 0;
    }
    for (i = 0; i < w->n; i++) K->RHS1[Pinv[i]] = -w->c[i];
    w->kap = 1; w->tau = 1;
    w->info->step = 0; w->info->step_aff = 0; w->info->dinf = 0; w->info->pinf = 0;
    return 0;
}
void spec_computeResiduals(pwork* w) {
    idxint i;
    /* hrx = -A'y - G'z, rx = hrx - tau c */
    if (w->p > 0) { sparseMtVm(w->A, w->y, w->rx, 1, 0); sparseMtVm(w->G, w->z, w->rx, 0, 0); }
    else sparseMtVm(w->G, w->z, w->rx, 1, 0);
    w->hresx = norm2(w->rx, w->n);
    for (i = 0; i < w->n; i++) w->rx[i] -= w->tau * w->c[i];
    /* hry = A x, ry = hry - tau b */
    if (w->p > 0) {
        sparseMV(w->A, w->x, w->ry, 1, 1);
        w->hresy = norm2(w->ry, w->p);
        for (i = 0; i < w->p; i++) w->ry[i] -= w->tau * w->b[i];
    } else { w->hresy = 0; w->ry = NULL; }
    /* hrz = s + G x, rz = hrz - tau h */
    sparseMV(w->G, w->x, w->rz, 1, 1);
    for (i = 0; i < w->m; i++) w->rz[i] += w->s[i];
    w->hresz = norm2(w->rz, w->m);
    for (i = 0; i < w->m; i++) w->rz[i] -= w->tau * w->h[i];
    w->cx = eddot(w->n, w->c, w->x);
    w->by = w->p > 0 ? eddot(w->p, w->b, w->y) : 0;
    w->hz = eddot(w->m, w->h, w->z);
    w->rt = w->kap + w->cx + w->by + w->hz;
    w->nx = norm2(w->x, w->n); w->ny = norm2(w->y, w->p); w->ns = norm2(w->s, w->m); w->nz = norm2(w->z, w->m);
}
void spec_updateStatistics(pwork* w) {
    stats* f = w->info; pfloat pry, prz;
    f->gap = eddot(w->m, w->s, w->z);
    f->mu = (f->gap + w->kap * w->tau) / (w->D + 1);
    f->kapovert = w->kap / w->tau;
    f->pcost = w->cx / w->tau;
    f->dcost = -(w->hz + w->by) / w->tau;
    f->relgap = f->pcost < 0 ? f->gap / (-f->pcost) : f->dcost > 0 ? f->gap / f->dcost : ECOS_NAN;
    pry = w->p > 0 ? norm2(w->ry, w->p) / max2(w->resy0 + w->nx, 1) : 0;
    prz = norm2(w->rz, w->m) / max2(w->resz0 + w->nx + w->ns, 1);
    f->pres = max2(pry, prz) / w->tau;
    f->dres = norm2(w->rx, w->n) / max2(w->resx0 + w->ny + w->nz, 1) / w->tau;
    f->pinfres = (w->hz + w->by) / max2(w->ny + w->nz, 1) < -w->stgs->reltol ? w->hresx / max2(w->ny + w->nz, 1) : ECOS_NAN;
    f->dinfres = w->cx / max2(w->nx, 1) < -w->stgs->reltol ? max2(w->hresy / max2(w->nx, 1), w->hresz / max2(w->nx + w->ns, 1)) : ECOS_NAN;
}
/* [rx; -ry; s - rz] */
void spec_RHS_affine(pwork* w) {
    idxint i, l, k, o, n = w->n, p = w->p, *Q = w->KKT->Pinv; cone* C = w->C; pfloat* R = w->KKT->RHS2;
    for (i = 0; i < n; i++) R[Q[i]] = w->rx[i];
    for (i = 0; i < p; i++) R[Q[n + i]] = -w->ry[i];
    for (i = 0; i < C->lpc->p; i++) R[Q[n + p + i]] = w->s[i] - w->rz[i];
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        for (i = 0; i < C->soc[l].p; i++) R[Q[n + p + 2 * l + o + i]] = w->s[o + i] - w->rz[o + i];
        R[Q[n + p + 2 * l + o + C->soc[l].p]] = 0;
        R[Q[n + p + 2 * l + o + C->soc[l].p + 1]] = 0;
        o += C->soc[l].p;
    }
    for (l = 0; l < C->nexc; l++) for (k = 0; k < 3; k++)
        R[Q[n + p + 2 * C->nsoc + o + 3 * l + k]] = w->s[o + 3 * l + k] - w->rz[o + 3 * l + k];
}
/* [(1-sigma) rx; -(1-sigma) ry; -(1-sigma) rz + W (lambda \ (lambda o lambda + W\ds o W dz - sigma mu e))]; exponential: s + sigma mu g */
void spec_RHS_combined(pwork* w) {
    idxint i, l, k, o, n = w->n, p = w->p, *Q = w->KKT->Pinv; cone* C = w->C; pfloat* R = w->KKT->RHS2;
    pfloat *d = w->KKT->work1, *e = w->KKT->work2, sm = w->info->sigma * w->info->mu, om = 1 - w->info->sigma;
    conicProduct(w->lambda, w->lambda, C, d);
    conicProduct(w->dsaff_by_W, w->W_times_dzaff, C, e);
    for (i = 0; i < C->lpc->p; i++) d[i] = d[i] + e[i] - sm;
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        d[o] = d[o] + e[o] - sm;
        for (i = 1; i < C->soc[l].p; i++) d[o + i] = d[o + i] + e[o + i];
        o += C->soc[l].p;
    }
    conicDivision(w->lambda, d, C, w->dsaff_by_W);
    scale(w->dsaff_by_W, C, d);
    for (i = 0; i < n; i++) R[Q[i]] *= om;
    for (i = 0; i < p; i++) R[Q[n + i]] *= om;
    for (i = 0; i < C->lpc->p; i++) R[Q[n + p + i]] = d[i] - om * w->rz[i];
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        for (i = 0; i < C->soc[l].p; i++) R[Q[n + p + 2 * l + o + i]] = d[o + i] - om * w->rz[o + i];
        R[Q[n + p + 2 * l + o + C->soc[l].p]] = 0;
        R[Q[n + p + 2 * l + o + C->soc[l].p + 1]] = 0;
        o += C->soc[l].p;
    }
    for (l = 0; l < C->nexc; l++) for (k = 0; k < 3; k++) {
        idxint f = C->fexv + 3 * l + k;
        C->expc[l].g[k] = w->s[f] + sm * C->expc[l].g[k];
        R[Q[n + p + 2 * C->nsoc + o + 3 * l + k]] = C->expc[l].g[k] - om * w->rz[f];
    }
}
/* backtrack until the trial point is in both exponential cones, balanced and central; -1: give up */
pfloat spec_expConeLineSearch(pwork* w, pfloat dtau, pfloat dkappa, idxint affine) {
    pfloat *ws = w->KKT->work1, *wz = w->KKT->work2, *dz = w->KKT->dz2, a, mu, q; idxint t, j; stats* f = w->info; cone* C = w->C;
    f->centrality = 1e300;
    a = affine == 1 ? f->step_aff : f->step;
    f->pob = 0; f->cb = 0; f->cob = 0; f->pb = 0; f->db = 0;
    for (t = 0; t < w->stgs->max_bk_iter; t++) {
        mu = 0;
        for (j = 0; j < w->m; j++) { ws[j] = w->s[j] + a * w->dsaff[j]; wz[j] = w->z[j] + a * dz[j]; mu += ws[j] * wz[j]; }
        mu = (mu + (w->tau + a * dtau) * (w->kap + a * dkappa)) / (w->D + 1);
        if (evalExpDualFeas(wz + C->fexv, C->nexc) != 1) f->db++;
        else if (evalExpPrimalFeas(ws + C->fexv, C->nexc) != 1) f->pb++;
        else {
            j = C->fexv;
            q = (ws[j] * wz[j] + ws[j + 1] * wz[j + 1] + ws[j + 2] * wz[j + 2]) / 3;
            while (q > MIN_DISTANCE * mu && j < w->m - 2) {
                j += 3;
                if (j < w->m) q = (ws[j] * wz[j] + ws[j + 1] * wz[j + 1] + ws[j + 2] * wz[j + 2]) / 3;
            }
            if (j == w->m) {
                pfloat b = evalBarrierValue(ws, wz, C->fexv, C->nexc) + evalSymmetricBarrierValue(ws, wz, w->tau + a * dtau, w->kap + a * dkappa, C, w->D);
                f->centrality = b + (w->D + 1) * log(mu) + (w->D + 1);
                if (f->centrality < w->stgs->centrality) return a * w->stgs->gamma;
                f->cb++;
            } else f->cob++;
        }
        a = a * w->stgs->bk_scale;
    }
    return -1;
}
pfloat spec_lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dtau, pfloat kap, pfloat dkap, cone* C, kkt* KKT) {
    pfloat a = 10, r, s, t, v; idxint i, l, o; pfloat *bar = KKT->work1, *dir = KKT->work2;
    if (C->lpc->p > 0) {
        r = ds[0] / lambda[0]; s = dz[0] / lambda[0];
        for (i = 1; i < C->lpc->p; i++) {
            dir[0] = ds[i] / lambda[i]; if (dir[0] < r) r = dir[0];
            dir[0] = dz[i] / lambda[i]; if (dir[0] < s) s = dir[0];
        }
        v = -s > -r ? s : r;
        a = v < 0 ? 1 / (-v) : 1 / EPS;
    }
    t = -tau / dtau; if (t > 0 && t < a) a = t;
    t = -kap / dkap; if (t > 0 && t < a) a = t;
    o = C->lpc->p;
    for (l = 0; l < C->nsoc; l++) {
        idxint p = C->soc[l].p; pfloat n2, n, pr, ps, fr, fs, nr, ns, step;
        n2 = lambda[o] * lambda[o] - eddot(p - 1, lambda + o + 1, lambda + o + 1);
        if (n2 > 0) {
            n = sqrt(n2);
            for (i = 0; i < p; i++) bar[i] = lambda[o + i] / n;
            pr = bar[0] * ds[o]; ps = bar[0] * dz[o];
            for (i = 1; i < p; i++) pr -= bar[i] * ds[o + i];
            for (i = 1; i < p; i++) ps -= bar[i] * dz[o + i];
            fr = (pr + ds[o]) / (bar[0] + 1); fs = (ps + dz[o]) / (bar[0] + 1);
            dir[0] = 1 / n * pr;
            for (i = 1; i < p; i++) dir[i] = 1 / n * (ds[o + i] - fr * bar[i]);
            nr = norm2(dir + 1, p - 1) - dir[0];
            dir[0] = 1 / n * ps;
            for (i = 1; i < p; i++) dir[i] = 1 / n * (dz[o + i] - fs * bar[i]);
            ns = norm2(dir + 1, p - 1) - dir[0];
            step = 0; if (nr > step) step = nr; if (ns > step) step = ns;
            if (step != 0 && 1 / step < a) a = 1 / step;
        }
        o += p;
    }
    if (a > STEPMAX) a = STEPMAX;
    if (a < STEPMIN) a = STEPMIN;
    return a;
}
void spec_backscale(pwork* w) {
    idxint i;
    for (i = 0; i < w->n; i++) w->x[i] = w->x[i] / (w->xequil[i] * w->tau);
    for (i = 0; i < w->p; i++) w->y[i] = w->y[i] / (w->Aequil[i] * w->tau);
    for (i = 0; i < w->m; i++) w->z[i] = w->z[i] / (w->Gequil[i] * w->tau);
    for (i = 0; i < w->m; i++) w->s[i] = w->s[i] * (w->Gequil[i] / w->tau);
    for (i = 0; i < w->n; i++) w->c[i] = w->c[i] * w->xequil[i];
}
/* fall back to the best iterate; the reduced tolerances decide */
static idxint fallback(pwork* w, idxint otherwise) {
    idxint r = checkExitConditions(w, ECOS_INACC_OFFSET);
    return r == UNDECIDED ? otherwise : r;
}
idxint spec_ECOS_solve(pwork* w) {
    idxint i, k, code = ECOS_FATAL, stop, fc = w->C->fexv; stats* f = w->info; kkt* K = w->KKT; cone* C = w->C; timer t;
    pfloat prev = (pfloat)ECOS_NAN;
    for (i = 0; i < w->n; i++) w->c[i] = w->c[i] / w->xequil[i];
    tic(&t);
    init_ctrlc();
    if (init(w) == ECOS_FATAL) {
        for (i = 0; i < w->n; i++) w->c[i] = w->c[i] * w->xequil[i];
        f->tsolve = toc(&t);
        remove_ctrlc();
        return ECOS_FATAL;
    }
    for (f->iter = 0; f->iter <= w->stgs->maxit; f->iter++) {
        pfloat denom, dt, dk, sg, bk, st;
        computeResiduals(w);
        updateStatistics(w);
        if (f->iter > 0 && (f->pres > SAFEGUARD * prev || f->gap < 0)) {
            restoreBestIterate(w);
            code = fallback(w, ECOS_NUMERICS);
            break;
        }
        prev = f->pres;
        code = checkExitConditions(w, 0);
        stop = check_ctrlc();
        if (code != UNDECIDED) break;
        if (f->iter > 0 && f->step == STEPMIN * w->stgs->gamma) {
            restoreBestIterate(w);
            code = fallback(w, ECOS_NUMERICS);
            break;
        }
        if (stop || f->iter == w->stgs->maxit) {
            if (!(f->iter == 0 || compareStatistics(f, w->best_info))) restoreBestIterate(w);
            code = fallback(w, stop ? ECOS_SIGINT : ECOS_MAXIT);
            break;
        }
        if (isnan(f->pcost)) {
            if (!(f->iter == 0 || compareStatistics(f, w->best_info))) restoreBestIterate(w);
            code = fallback(w, ECOS_NUMERICS);
            break;
        }
        if (f->iter == 0 || compareStatistics(f, w->best_info)) saveIterateAsBest(w);
        if (updateScalings(C, w->s, w->z, w->lambda, f->mu) == OUTSIDE_CONE) {
            restoreBestIterate(w);
            code = fallback(w, ECOS_OUTCONE);
            break;
        }
        kkt_update(K->PKPt, K->PK, C);
        if (kkt_factor(K, w->stgs->eps, w->stgs->delta) != KKT_OK) { code = ECOS_FATAL; break; }
        f->nitref1 = kkt_solve(K, w->A, w->G, K->RHS1, K->dx1, K->dy1, K->dz1, w->n, w->p, w->m, C, 0, w->stgs->nitref);
        /* predictor */
        RHS_affine(w);
        f->nitref2 = kkt_solve(K, w->A, w->G, K->RHS2, K->dx2, K->dy2, K->dz2, w->n, w->p, w->m, C, 0, w->stgs->nitref);
        denom = w->kap / w->tau - eddot(w->n, w->c, K->dx1) - eddot(w->p, w->b, K->dy1) - eddot(w->m, w->h, K->dz1);
        dt = (w->rt - w->kap + eddot(w->n, w->c, K->dx2) + eddot(w->p, w->b, K->dy2) + eddot(w->m, w->h, K->dz2)) / denom;
        for (i = 0; i < w->m; i++) K->dz2[i] = K->dz2[i] + dt * K->dz1[i];
        scale(K->dz2, C, w->W_times_dzaff);
        for (i = 0; i < w->m; i++) w->dsaff_by_W[i] = -w->W_times_dzaff[i] - w->lambda[i];
        dk = -w->kap - w->kap / w->tau * dt;
        f->step_aff = lineSearch(w->lambda, w->dsaff_by_W, w->W_times_dzaff, w->tau, dt, w->kap, dk, C, K);
        scale(w->dsaff_by_W, C, w->dsaff);
        for (i = fc; i < w->m; i++) w->dsaff[i] = 0;
        scaleToAddExpcone(w->dsaff, K->dz2, C->expc, C->nexc, fc);
        for (i = fc; i < w->m; i++) w->dsaff[i] = -w->dsaff[i] - w->s[i];
        f->affBack = 0;
        if (C->nexc > 0) {
            f->step_aff = expConeLineSearch(w, dt, dk, 1);
            f->affBack = f->pob + f->cb + f->cob + f->pb + f->db;
            if (f->step_aff == -1) f->step_aff = 0;
        }
        /* centering */
        sg = (1 - f->step_aff) * (1 - f->step_aff) * (1 - f->step_aff);
        if (sg > SIGMAMAX) sg = SIGMAMAX;
        if (sg < SIGMAMIN) sg = SIGMAMIN;
        f->sigma = sg;
        /* corrector */
        bk = w->kap * w->tau + dk * dt - sg * f->mu;
        RHS_combined(w);
        f->nitref3 = kkt_solve(K, w->A, w->G, K->RHS2, K->dx2, K->dy2, K->dz2, w->n, w->p, w->m, C, 0, w->stgs->nitref);
        dt = ((1 - sg) * w->rt - bk / w->tau + eddot(w->n, w->c, K->dx2) + eddot(w->p, w->b, K->dy2) + eddot(w->m, w->h, K->dz2)) / denom;
        for (i = 0; i < w->n; i++) K->dx2[i] = K->dx2[i] + dt * K->dx1[i];
        for (i = 0; i < w->p; i++) K->dy2[i] = K->dy2[i] + dt * K->dy1[i];
        for (i = 0; i < w->m; i++) K->dz2[i] = K->dz2[i] + dt * K->dz1[i];
        scale(K->dz2, C, w->W_times_dzaff);
        for (i = 0; i < w->m; i++) w->dsaff_by_W[i] = -(w->dsaff_by_W[i] + w->W_times_dzaff[i]);
        dk = -(bk + w->kap * dt) / w->tau;
        f->step = lineSearch(w->lambda, w->dsaff_by_W, w->W_times_dzaff, w->tau, dt, w->kap, dk, C, K) * w->stgs->gamma;
        scale(w->dsaff_by_W, C, w->dsaff);
        for (i = fc; i < w->m; i++) w->dsaff[i] = 0;
        scaleToAddExpcone(w->dsaff, K->dz2, C->expc, C->nexc, fc);
        for (i = 0; i < C->nexc; i++) for (k = 0; k < 3; k++) w->dsaff[fc + 3 * i + k] = -w->dsaff[fc + 3 * i + k] - C->expc[i].g[k];
        f->cmbBack = 0;
        if (C->nexc > 0) {
            f->step = expConeLineSearch(w, dt, dk, 0);
            f->cmbBack = f->cb + f->cob + f->pb + f->db;
            if (f->step == -1) {
                restoreBestIterate(w);
                code = fallback(w, ECOS_NUMERICS);
                break;
            }
        }
        st = f->step;
        for (i = 0; i < w->n; i++) w->x[i] = w->x[i] + st * K->dx2[i];
        for (i = 0; i < w->p; i++) w->y[i] = w->y[i] + st * K->dy2[i];
        for (i = 0; i < w->m; i++) w->z[i] = w->z[i] + st * K->dz2[i];
        for (i = 0; i < w->m; i++) w->s[i] = w->s[i] + st * w->dsaff[i];
        w->kap = w->kap + st * dk;
        w->tau = w->tau + st * dt;
    }
    backscale(w);
    f->tsolve = toc(&t);
    remove_ctrlc();
    return code;
}
void spec_ecos_updateDataEntry_h(pwork* w, idxint idx, pfloat value) { w->h[idx] = value / w->Gequil[idx]; }
void spec_ecos_updateDataEntry_c(pwork* w, idxint idx, pfloat value) { w->c[idx] = value; }
static int apart(pfloat* a, pfloat* b, idxint n) { return a + n < b || b + n < a; }
void spec_ECOS_updateData(pwork* w, pfloat* Gpr, pfloat* Apr, pfloat* c, pfloat* h, pfloat* b) {
    idxint k;
    if (apart(Gpr, w->G->pr, w->G->nnz) && (!w->A || apart(Apr, w->A->pr, w->A->nnz)) && apart(c, w->c, w->n) && apart(h, w->h, w->m) && (!w->A || apart(b, w->b, w->p)))
        unset_equilibration(w);
    if (w->G) { w->G->pr = Gpr; w->h = h; }
    if (w->A) { w->A->pr = Apr; w->b = b; }
    w->c = c;
    set_equilibration(w);
    if (w->A) for (k = 0; k < w->A->nnz; k++) w->KKT->PKPt->pr[w->KKT->PK[w->AtoK[k]]] = Apr[k];
    if (w->G) for (k = 0; k < w->G->nnz; k++) w->KKT->PKPt->pr[w->KKT->PK[w->GtoK[k]]] = Gpr[k];
}
/* elapsed monotonic seconds since tic */
void spec_tic(timer* t) { clock_gettime(CLOCK_MONOTONIC, &t->tic); }
pfloat spec_toc(timer* t) {
    clock_gettime(CLOCK_MONOTONIC, &t->toc);
    return (pfloat)(t->toc.tv_sec - t->tic.tv_sec - (t->toc.tv_nsec < t->tic.tv_nsec ? 1 : 0)) +
           (pfloat)((t->toc.tv_nsec < t->tic.tv_nsec ? 1000000000 : 0) + t->toc.tv_nsec - t->tic.tv_nsec) / 1000000000;
}
