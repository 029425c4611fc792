/* Reference definitions: branch and bound.  Never executed. */
#include "glblopts.h"
#include "ecos.h"
#include "equil.h"
#include "spla.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "ecos_bb.h"
#include "pins.h"

void set_prob(ecos_bb_pwork* w, char* bools, pfloat* ints);
void store_solution(ecos_bb_pwork* w);
void load_solution(ecos_bb_pwork* w);
void branch(idxint k, ecos_bb_pwork* w);
void get_bounds(idxint k, ecos_bb_pwork* w);
void initialize_root(ecos_bb_pwork* w);
idxint should_continue(ecos_bb_pwork* w, idxint k);
idxint get_next_node(ecos_bb_pwork* w);
pfloat get_global_L(ecos_bb_pwork* w);
int get_ret_code(ecos_bb_pwork* w);
char is_infeasible(idxint code);
pfloat get_score(const pfloat a, const pfloat b);
idxint* get_shuffled_array(const idxint n);
void initialize_strong_branching(ecos_bb_pwork* w, idxint k);
void calc_tmp_branching_problem(ecos_bb_pwork* w, pfloat* value, idxint* code);
int check_infeasible_bool_var(ecos_bb_pwork* w, const idxint code, const pfloat value, const idxint k, const char other, const idxint v, idxint* idx, pfloat* val, const pfloat cur);
int check_infeasible_int_var(ecos_bb_pwork* w, const idxint code, const pfloat value, const idxint k, const int lb, const idxint v, idxint* idx, pfloat* val, const pfloat cur);
int strong_branch_bool_var(ecos_bb_pwork* w, idxint* idx, pfloat* val, const idxint k, pfloat* dn, pfloat* up, const idxint i, const pfloat cur);
int strong_branch_int_var(ecos_bb_pwork* w, idxint* idx, pfloat* val, idxint k, pfloat* dn, pfloat* up, idxint i, pfloat cur);
pfloat avg_pseudocost(pfloat* sums, idxint* cnts, const int n, const char up);
void set_pseudocost_psi(ecos_bb_pwork* w, const idxint i, pfloat* down, pfloat* up);
int is_reliable(ecos_bb_pwork* w, const idxint i);
void get_branch_var_most_infeasible(ecos_bb_pwork* w, idxint* idx, pfloat* val);
void get_branch_var_random(ecos_bb_pwork* w, idxint* idx, pfloat* val);
void get_branch_var_strong_branching(ecos_bb_pwork* w, idxint* idx, pfloat* val, idxint k);
void get_branch_var_pseudocost_branching(ecos_bb_pwork* w, idxint* idx, pfloat* val, idxint k);
void get_branch_var_reliability_branching(ecos_bb_pwork* w, idxint* idx, pfloat* val, const idxint k);

/* rounding, with a tolerance for values just short of the next integer */
pfloat spec_abs_2(pfloat v) { return v >= 0 ? v : -v; }
pfloat spec_pfloat_round(pfloat v) { if (v < 0) return (int)(v - 0.5); return (int)(v + 0.5); }
pfloat spec_pfloat_ceil(pfloat v, pfloat tol) { if (v < 0) return (int)v; return (int)(v + 1 - tol); }
pfloat spec_pfloat_floor(pfloat v, pfloat tol) { if (v < 0) return (int)(v - 1 + tol); return (int)v; }
idxint spec_float_eqls(pfloat a, pfloat b, pfloat tol) { pfloat d = a - b; return (d < 0 ? -d : d) < tol; }
char* spec_get_bool_node_id(idxint k, ecos_bb_pwork* w) { return w->bool_node_ids + w->num_bool_vars * k; }
pfloat* spec_get_int_node_id(idxint k, ecos_bb_pwork* w) { return w->int_node_ids + 2 * w->num_int_vars * k; }
static char* bools_of(ecos_bb_pwork* w, idxint k) { return w->bool_node_ids + w->num_bool_vars * k; }
static pfloat* ints_of(ecos_bb_pwork* w, idxint k) { return w->int_node_ids + 2 * w->num_int_vars * k; }
static pfloat lo(ecos_bb_pwork* w, pfloat v) { if (v < 0) return (int)(v - (1 - w->stgs->integer_tol)); return (int)v; }
static pfloat hi(ecos_bb_pwork* w, pfloat v) { if (v < 0) return (int)v; return (int)(v + (1 - w->stgs->integer_tol)); }
static int integral(ecos_bb_pwork* w, pfloat v) { return float_eqls(v, lo(w, v), w->stgs->integer_tol) || float_eqls(v, hi(w, v), w->stgs->integer_tol); }

/* both children inherit every restriction, and split the range of one variable */
void spec_branch(idxint k, ecos_bb_pwork* w) {
    node *a = &w->nodes[k], *b = &w->nodes[w->iter]; idxint i, v = a->split_idx, nb = w->num_bool_vars;
    b->L = a->L; b->U = a->U; b->status = MI_NOT_SOLVED;
    b->prev_split_idx = v; b->prev_split_val = a->split_val; b->prev_relaxation = a->relaxation; b->up_branch_node = 1;
    a->prev_split_idx = v; a->prev_split_val = a->split_val; a->prev_relaxation = a->relaxation; a->up_branch_node = 0;
    a->status = MI_NOT_SOLVED;
    for (i = 0; i < nb; i++) w->bool_node_ids[nb * w->iter + i] = w->bool_node_ids[nb * k + i];
    for (i = 0; i < 2 * w->num_int_vars; i++) w->int_node_ids[2 * w->num_int_vars * w->iter + i] = w->int_node_ids[2 * w->num_int_vars * k + i];
    if (v < nb) {
        w->bool_node_ids[nb * k + v] = MI_ZERO;
        w->bool_node_ids[nb * w->iter + v] = MI_ONE;
    } else {
        w->int_node_ids[2 * w->num_int_vars * k + 2 * (v - nb) + 1] = lo(w, a->split_val);
        w->int_node_ids[2 * w->num_int_vars * w->iter + 2 * (v - nb)] = -hi(w, a->split_val);
    }
}
idxint spec_get_next_node(ecos_bb_pwork* w) {
    idxint i, best = -1; pfloat L = ECOS_INFINITY;
    if (w->stgs->node_selection_method == DIVE_LOWER_NODE && w->nodes[w->dive_node_id].status == MI_SOLVED_BRANCHABLE) return w->dive_node_id;
    if (w->stgs->node_selection_method == DIVE_UPPER_NODE && w->nodes[w->iter].status == MI_SOLVED_BRANCHABLE) return w->iter;
    for (i = 0; i <= w->iter; i++)
        if (w->nodes[i].status == MI_SOLVED_BRANCHABLE && w->nodes[i].L < w->global_U && w->nodes[i].L < L) { best = i; L = w->nodes[i].L; }
    w->dive_node_id = best;
    return best;
}
pfloat spec_get_global_L(ecos_bb_pwork* w) {
    idxint i; pfloat L = ECOS_INFINITY;
    for (i = 0; i <= w->iter; i++) if (!(L < w->nodes[i].L)) L = w->nodes[i].L;
    return L;
}
void spec_set_prob(ecos_bb_pwork* w, char* bools, pfloat* ints) {
    idxint i, nb = w->num_bool_vars; pwork* e = w->ecos_prob;
    for (i = 0; i < nb; i++) {
        if (bools[i] == MI_ONE) { e->h[2 * i] = -1 / e->Gequil[2 * i]; e->h[2 * i + 1] = 1 / e->Gequil[2 * i + 1]; }
        else if (bools[i] == MI_ZERO) { e->h[2 * i] = 0; e->h[2 * i + 1] = 0; }
        else if (bools[i] == MI_STAR) { e->h[2 * i] = 0; e->h[2 * i + 1] = 1 / e->Gequil[2 * i + 1]; }
    }
    for (i = 0; i < w->num_int_vars; i++) {
        e->h[2 * nb + 2 * i] = ints[2 * i] / e->Gequil[2 * nb + 2 * i];
        e->h[2 * nb + 2 * i + 1] = ints[2 * i + 1] / e->Gequil[2 * nb + 2 * i + 1];
    }
}
char spec_is_infeasible(idxint code) {
    return code == ECOS_PINF || code == ECOS_PINF + ECOS_INACC_OFFSET;
}
pfloat spec_get_score(const pfloat a, const pfloat b) { pfloat e = 1e-8, x = e, y = e; if (a > e) x = a; if (b > e) y = b; return x * y; }
idxint* spec_get_shuffled_array(const idxint n) {
    idxint *r = malloc(n * sizeof(idxint)), i, j, t;
    for (i = 0; i < n; i++) r[i] = i;
    for (i = 0; i < n - 1; i++) { j = i + rand() / (RAND_MAX / (n - i) + 1); t = r[j]; r[j] = r[i]; r[i] = t; }
    return r;
}
void spec_initialize_strong_branching(ecos_bb_pwork* w, idxint k) {
    idxint i;
    memcpy(w->tmp_branching_bool_node_id, bools_of(w, k), w->num_bool_vars);
    for (i = 0; i < 2 * w->num_int_vars; i++) w->tmp_branching_int_node_id[i] = ints_of(w, k)[i];
}
void spec_calc_tmp_branching_problem(ecos_bb_pwork* w, pfloat* value, idxint* code) {
    pwork* e = w->ecos_prob;
    set_prob(w, w->tmp_branching_bool_node_id, w->tmp_branching_int_node_id);
    *code = ECOS_solve(e);
    *value = eddot(e->n, e->x, e->c);
}
/* a trial shown not to lead to a better point (the cost of an iterate that did not converge shows nothing) fixes the other side, in the node and in the trial table */
static int worse(ecos_bb_pwork* w, idxint code, pfloat value) {
    return is_infeasible(code) || ((code == ECOS_OPTIMAL || code == ECOS_OPTIMAL + ECOS_INACC_OFFSET) && value > w->global_U);
}
int spec_check_infeasible_bool_var(ecos_bb_pwork* w, const idxint code, const pfloat value, const idxint k, const char other, const idxint v, idxint* idx, pfloat* val, const pfloat cur) {
    if (!worse(w, code, value)) return 0;
    bools_of(w, k)[v] = other;
    w->tmp_branching_bool_node_id[v] = other;
    if (*idx == -1) { *idx = v; *val = cur; }
    return 1;
}
int spec_check_infeasible_int_var(ecos_bb_pwork* w, const idxint code, const pfloat value, const idxint k, const int lb, const idxint v, idxint* idx, pfloat* val, const pfloat cur) {
    pfloat bound;
    if (!worse(w, code, value)) return 0;
    if (lb) { bound = -hi(w, cur); ints_of(w, k)[2 * v] = bound; w->tmp_branching_int_node_id[2 * v] = bound; }
    else { bound = lo(w, cur); ints_of(w, k)[2 * v + 1] = bound; w->tmp_branching_int_node_id[2 * v + 1] = bound; }
    if (*idx == -1) { *idx = v + w->num_bool_vars; *val = cur; }
    return 1;
}
int spec_strong_branch_bool_var(ecos_bb_pwork* w, idxint* idx, pfloat* val, const idxint k, pfloat* dn, pfloat* up, const idxint i, const pfloat cur) {
    char keep = w->tmp_branching_bool_node_id[i]; idxint code;
    w->tmp_branching_bool_node_id[i] = MI_ZERO;
    calc_tmp_branching_problem(w, dn, &code);
    if (check_infeasible_bool_var(w, code, *dn, k, MI_ONE, i, idx, val, cur)) return 1;
    w->tmp_branching_bool_node_id[i] = MI_ONE;
    calc_tmp_branching_problem(w, up, &code);
    if (check_infeasible_bool_var(w, code, *up, k, MI_ZERO, i, idx, val, cur)) return 1;
    w->tmp_branching_bool_node_id[i] = keep;
    return 0;
}
int spec_strong_branch_int_var(ecos_bb_pwork* w, idxint* idx, pfloat* val, idxint k, pfloat* dn, pfloat* up, idxint i, pfloat cur) {
    idxint code, v = i - w->num_bool_vars; pfloat keep = w->tmp_branching_int_node_id[2 * v + 1];
    w->tmp_branching_int_node_id[2 * v + 1] = lo(w, cur);
    calc_tmp_branching_problem(w, dn, &code);
    w->tmp_branching_int_node_id[2 * v + 1] = keep;
    if (check_infeasible_int_var(w, code, *dn, k, 1, v, idx, val, cur)) return 1;
    keep = w->tmp_branching_int_node_id[2 * v];
    w->tmp_branching_int_node_id[2 * v] = -hi(w, cur);
    calc_tmp_branching_problem(w, up, &code);
    w->tmp_branching_int_node_id[2 * v] = keep;
    if (check_infeasible_int_var(w, code, *up, k, 0, v, idx, val, cur)) return 1;
    return 0;
}
pfloat spec_avg_pseudocost(pfloat* sums, idxint* cnts, const int n, const char up) {
    pfloat s = 0; idxint c = 0, i;
    for (i = 0; i < n; i++) if (cnts[2 * i + up] > 0) { s += sums[2 * i + up]; c += cnts[2 * i + up]; }
    return c > 0 ? s / c : 1;
}
void spec_set_pseudocost_psi(ecos_bb_pwork* w, const idxint i, pfloat* down, pfloat* up) {
    if (i < w->num_bool_vars) {
        pfloat* s = w->pseudocost_bin_sum; idxint* c = w->pseudocost_bin_cnt;
        *down = c[2 * i] == 0 ? avg_pseudocost(s, c, w->num_bool_vars, 0) : s[2 * i] / c[2 * i];
        *up = c[2 * i + 1] == 0 ? avg_pseudocost(s, c, w->num_bool_vars, 1) : s[2 * i + 1] / c[2 * i + 1];
    } else {
        pfloat* s = w->pseudocost_int_sum; idxint* c = w->pseudocost_int_cnt; idxint v = i - w->num_bool_vars;
        *down = c[2 * v] == 0 ? avg_pseudocost(s, c, w->num_int_vars, 0) : s[2 * v] / c[2 * v];
        *up = c[2 * v + 1] == 0 ? avg_pseudocost(s, c, w->num_int_vars, 1) : s[2 * v + 1] / c[2 * v + 1];
    }
}
int spec_is_reliable(ecos_bb_pwork* w, const idxint i) {
    idxint *c = w->pseudocost_bin_cnt, v = i;
    if (i >= w->num_bool_vars) { v = i - w->num_bool_vars; return w->pseudocost_int_cnt[2 * v] > w->stgs->reliable_eta && w->pseudocost_int_cnt[2 * v + 1] > w->stgs->reliable_eta; }
    return c[2 * v] > w->stgs->reliable_eta && c[2 * v + 1] > w->stgs->reliable_eta;
}
static pfloat relaxed(ecos_bb_pwork* w, pfloat* x, idxint i) {
    return i < w->num_bool_vars ? x[w->bool_vars_idx[i]] : x[w->int_vars_idx[i - w->num_bool_vars]];
}
void spec_get_branch_var_most_infeasible(ecos_bb_pwork* w, idxint* idx, pfloat* val) {
    idxint i; pfloat d = 1, y, a;
    for (i = 0; i < w->num_bool_vars + w->num_int_vars; i++) {
        y = relaxed(w, w->ecos_prob->x, i);
        a = i < w->num_bool_vars ? y - 0.5 : y - lo(w, y) - 0.5;
        if (a < 0) a = -a;
        if (a < d) { *idx = i; *val = y; d = a; }
    }
}
void spec_get_branch_var_random(ecos_bb_pwork* w, idxint* idx, pfloat* val) {
    do {
        *idx = rand() % (w->num_bool_vars + w->num_int_vars);
        *val = relaxed(w, w->ecos_prob->x, *idx);
    } while (integral(w, *val));
}
void spec_get_branch_var_strong_branching(ecos_bb_pwork* w, idxint* idx, pfloat* val, idxint k) {
    idxint code, r, i, *order, n = w->ecos_prob->n; pfloat best = -ECOS_INFINITY, q, dn, up, sc, cur, *x;
    initialize_strong_branching(w, k);
    calc_tmp_branching_problem(w, &q, &code);
    x = malloc(sizeof(pfloat) * n);
    for (i = 0; i < n; i++) x[i] = w->ecos_prob->x[i];
    *idx = -1;
    order = get_shuffled_array(w->num_bool_vars + w->num_int_vars);
    for (r = 0; r < w->num_bool_vars + w->num_int_vars; r++) {
        i = order[r];
        cur = relaxed(w, x, i);
        if (integral(w, cur)) continue;
        if (i < w->num_bool_vars ? strong_branch_bool_var(w, idx, val, k, &dn, &up, i, cur) : strong_branch_int_var(w, idx, val, k, &dn, &up, i, cur)) continue;
        sc = get_score(dn - q, up - q);
        if (sc > best) { *idx = i; *val = cur; best = sc; }
    }
    free(x); free(order);
}
void spec_get_branch_var_pseudocost_branching(ecos_bb_pwork* w, idxint* idx, pfloat* val, idxint k) {
    idxint r, i, *order; pfloat best = -ECOS_INFINITY, up, dn, y, f, sc;
    order = get_shuffled_array(w->num_bool_vars + w->num_int_vars);
    for (r = 0; r < w->num_bool_vars + w->num_int_vars; r++) {
        i = order[r];
        y = relaxed(w, w->ecos_prob->x, i);
        if (integral(w, y)) continue;
        set_pseudocost_psi(w, i, &dn, &up);
        f = y - lo(w, y);
        sc = get_score(f * dn, (1 - f) * up);
        if (sc > best) { *idx = i; *val = y; best = sc; }
    }
    free(order);
}
void spec_get_branch_var_reliability_branching(ecos_bb_pwork* w, idxint* idx, pfloat* val, const idxint k) {
    idxint r, i, v, code, started = 0, *order, n = w->ecos_prob->n; pfloat best = -ECOS_INFINITY, up, dn, y, f, sc, q, qd, qu, *x;
    x = malloc(sizeof(pfloat) * n);
    for (i = 0; i < n; i++) x[i] = w->ecos_prob->x[i];
    *idx = -1;
    order = get_shuffled_array(w->num_bool_vars + w->num_int_vars);
    for (r = 0; r < w->num_bool_vars + w->num_int_vars; r++) {
        i = order[r];
        y = relaxed(w, x, i);
        if (integral(w, y)) continue;
        if (is_reliable(w, i)) {
            set_pseudocost_psi(w, i, &dn, &up);
            f = y - lo(w, y);
            sc = get_score(f * dn, (1 - f) * up);
        } else {
            if (!started) { initialize_strong_branching(w, k); started = 1; calc_tmp_branching_problem(w, &q, &code); }
            if (i < w->num_bool_vars) {
                v = i;
                if (strong_branch_bool_var(w, idx, val, k, &qd, &qu, i, y)) continue;
                w->pseudocost_bin_sum[2 * v] += (qd - q) / (y - lo(w, y)); w->pseudocost_bin_cnt[2 * v] += 1;
                w->pseudocost_bin_sum[2 * v + 1] += (qu - q) / (hi(w, y) - y); w->pseudocost_bin_cnt[2 * v + 1] += 1;
            } else {
                v = i - w->num_bool_vars;
                if (strong_branch_int_var(w, idx, val, k, &qd, &qu, i, y)) continue;
                w->pseudocost_int_sum[2 * v] += (qd - q) / (y - lo(w, y)); w->pseudocost_int_cnt[2 * v] += 1;
                w->pseudocost_int_sum[2 * v + 1] += (qu - q) / (hi(w, y) - y); w->pseudocost_int_cnt[2 * v + 1] += 1;
            }
            sc = get_score(qd - q, qu - q);
        }
        if (sc > best) { *idx = i; *val = y; best = sc; }
    }
    free(x); free(order);
}
void spec_store_solution(ecos_bb_pwork* w) {
    pwork* e = w->ecos_prob; idxint i;
    for (i = 0; i < e->n; i++) w->x[i] = e->x[i];
    for (i = 0; i < e->p; i++) w->y[i] = e->y[i];
    for (i = 0; i < e->m; i++) { w->z[i] = e->z[i]; w->s[i] = e->s[i]; }
    w->kap = e->kap; w->tau = e->tau;
    *w->info = *e->info;
}
void spec_load_solution(ecos_bb_pwork* w) {
    pwork* e = w->ecos_prob; idxint i;
    for (i = 0; i < e->n; i++) e->x[i] = w->x[i];
    for (i = 0; i < e->p; i++) e->y[i] = w->y[i];
    for (i = 0; i < e->m; i++) { e->z[i] = w->z[i]; e->s[i] = w->s[i]; }
    e->kap = w->kap; e->tau = w->tau;
    *e->info = *w->info;
}
void spec_get_bounds(idxint k, ecos_bb_pwork* w) {
    pwork* e = w->ecos_prob; node* d = &w->nodes[k]; idxint i, code, integer, trial = 0; pfloat v, f;
    set_prob(w, bools_of(w, k), ints_of(w, k));
    code = ECOS_solve(e);
    if (!(code == ECOS_OPTIMAL || code == ECOS_OPTIMAL + ECOS_INACC_OFFSET || code == ECOS_MAXIT || code == ECOS_NUMERICS)) {
        d->L = ECOS_INFINITY; d->U = ECOS_INFINITY; d->status = MI_SOLVED_NON_BRANCHABLE;
        return;
    }
    v = eddot(e->n, e->x, e->c);
    d->L = v;
    if (w->global_U < v) { d->status = MI_SOLVED_NON_BRANCHABLE; return; }
    d->relaxation = v;
    if (d->prev_split_idx >= 0) {
        idxint up = d->up_branch_node != 0; pfloat c, q = v - d->prev_relaxation;
        if (d->up_branch_node) c = hi(w, d->prev_split_val) - d->prev_split_val; else c = d->prev_split_val - lo(w, d->prev_split_val);
        if (d->prev_split_idx < w->num_bool_vars) {
            w->pseudocost_bin_sum[2 * d->prev_split_idx + up] += q / c; w->pseudocost_bin_cnt[2 * d->prev_split_idx + up] += 1;
        } else {
            w->pseudocost_int_sum[2 * (d->prev_split_idx - w->num_bool_vars) + up] += q / c; w->pseudocost_int_cnt[2 * (d->prev_split_idx - w->num_bool_vars) + up] += 1;
        }
    }
    integer = 1;
    for (i = 0; i < w->num_bool_vars; i++) {
        f = e->x[w->bool_vars_idx[i]];
        w->tmp_bool_node_id[i] = (char)pfloat_round(f);
        integer &= float_eqls(f, w->tmp_bool_node_id[i], w->stgs->integer_tol);
    }
    for (i = 0; i < w->num_int_vars; i++) {
        f = e->x[w->int_vars_idx[i]];
        w->tmp_int_node_id[2 * i + 1] = pfloat_round(f);
        w->tmp_int_node_id[2 * i] = -w->tmp_int_node_id[2 * i + 1];
        integer &= float_eqls(f, w->tmp_int_node_id[2 * i + 1], w->stgs->integer_tol);
    }
    if (integer) {
        d->status = MI_SOLVED_NON_BRANCHABLE;
        d->U = eddot(e->n, e->x, e->c);
    } else {
        if (w->stgs->branching_strategy == BRANCHING_STRATEGY_MOST_INFEASIBLE) get_branch_var_most_infeasible(w, &d->split_idx, &d->split_val);
        else if (w->stgs->branching_strategy == BRANCHING_STRATEGY_STRONG_BRANCHING) get_branch_var_strong_branching(w, &d->split_idx, &d->split_val, k);
        else if (w->stgs->branching_strategy == BRANCHING_STRATEGY_PSEUDOCOST_BRANCHING) get_branch_var_pseudocost_branching(w, &d->split_idx, &d->split_val, k);
        else if (w->stgs->branching_strategy == BRANCHING_STRATEGY_RELIABILITY) get_branch_var_reliability_branching(w, &d->split_idx, &d->split_val, k);
        else if (w->stgs->branching_strategy == BRANCHING_STRATEGY_RANDOM) get_branch_var_random(w, &d->split_idx, &d->split_val);
        d->status = MI_SOLVED_BRANCHABLE;
        set_prob(w, w->tmp_bool_node_id, w->tmp_int_node_id);
        if (ECOS_solve(e) == ECOS_OPTIMAL) { trial = 1; d->U = eddot(e->n, e->x, e->c); }
    }
    if (d->U < w->global_U) { store_solution(w); w->global_U = d->U; }
    if (trial) d->U = ECOS_INFINITY;
    if (w->global_U < d->L) d->status = MI_SOLVED_NON_BRANCHABLE;
}
idxint spec_should_continue(ecos_bb_pwork* w, idxint k) {
    pfloat r = w->global_U / w->global_L - 1;
    if (r < 0) r = -r;
    return k >= 0 && w->iter < w->stgs->maxit - 1 && w->global_U - w->global_L > w->stgs->abs_tol_gap && r > w->stgs->rel_tol_gap;
}
int spec_get_ret_code(ecos_bb_pwork* w) {
    int none = isinf(w->global_U) != 0;
    if (!(w->iter < w->stgs->maxit - 1)) {
        if (!none) return MI_MAXITER_FEASIBLE_SOLN;
        return w->global_U >= 0 ? MI_MAXITER_NO_SOLN : MI_MAXITER_UNBOUNDED;
    }
    if (!none) return MI_OPTIMAL_SOLN;
    return w->global_U >= 0 ? MI_INFEASIBLE : MI_UNBOUNDED;
}
void spec_initialize_root(ecos_bb_pwork* w) {
    idxint i;
    w->nodes[0].status = MI_NOT_SOLVED; w->nodes[0].L = -ECOS_INFINITY; w->nodes[0].U = ECOS_INFINITY; w->nodes[0].prev_split_idx = -1;
    w->global_L = -ECOS_INFINITY; w->global_U = ECOS_INFINITY;
    for (i = 0; i < w->num_bool_vars; i++) w->bool_node_ids[i] = MI_STAR;
    for (i = 0; i < w->num_int_vars; i++) { w->int_node_ids[2 * i] = MAX_FLOAT_INT; w->int_node_ids[2 * i + 1] = MAX_FLOAT_INT; }
}
idxint spec_ECOS_BB_solve(ecos_bb_pwork* w) {
    idxint k = 0;
    w->iter = 0; w->dive_node_id = 0;
    initialize_root(w);
    get_bounds(0, w);
    w->global_L = w->nodes[0].L;
    while (should_continue(w, k)) {
        w->iter++;
        branch(k, w);
        get_bounds(k, w);
        get_bounds(w->iter, w);
        w->global_L = get_global_L(w);
        k = get_next_node(w);
    }
    if (!isinf(w->global_U)) load_solution(w);
    return get_ret_code(w);
}
void spec_updateDataEntry_h(ecos_bb_pwork* w, idxint i, pfloat v) {
    idxint j = 2 * w->num_bool_vars + 2 * w->num_int_vars + i;
    w->ecos_prob->h[j] = v / w->ecos_prob->Gequil[j];
}
void spec_updateDataEntry_c(ecos_bb_pwork* w, idxint i, pfloat v) { w->ecos_prob->c[i] = v; }

/* ---- construction ---- */
static int listed(idxint i, idxint n, idxint* v) { idxint j, c = 0; for (j = 0; j < n; j++) if (v[j] == i) c++; return (int)c; }
int spec_contains(idxint i, idxint n, idxint* v) { return listed(i, n, v); }
int contains(idxint i, idxint n, idxint* v);
idxint position(idxint i, idxint n, idxint* v);
idxint spec_position(idxint v, idxint n, idxint* l) { idxint i; for (i = n - 1; i > 0; i--) if (l[i] == v) break; return i; }
settings_bb* spec_get_default_ECOS_BB_settings() {
    settings_bb* s = malloc(sizeof(settings_bb));
    s->maxit = 1000; s->verbose = 1; s->abs_tol_gap = 1e-6; s->rel_tol_gap = 1e-3; s->integer_tol = 1e-4;
    s->branching_strategy = 3; s->reliable_eta = 6; s->node_selection_method = 1;
    return s;
}
/* every listed variable gets the rows -x <= -lb and x <= ub in front of its column */
void spec_socp_to_ecos_bb(idxint nb, idxint* bools, idxint ni, idxint* ints, idxint n, idxint m,
                          pfloat* Gpr, idxint* Gjc, idxint* Gir, pfloat* pr, idxint* jc, idxint* ir, pfloat* h, pfloat* ho) {
    idxint i, k, r, extra = 2 * nb + 2 * ni, len; pfloat lb, ub;
    for (i = 0; i <= n; i++) jc[i] = Gjc[i];
    for (i = 0; i < n; i++) {
        len = Gjc[i + 1] - Gjc[i];
        if (contains(i, nb, bools) || contains(i, ni, ints)) {
            if (contains(i, nb, bools)) { r = position(i, nb, bools); lb = 0; ub = 1; }
            else { r = nb + position(i, ni, ints); lb = MAX_FLOAT_INT; ub = MAX_FLOAT_INT; }
            pr[jc[i]] = -1; ir[jc[i]] = 2 * r; ho[2 * r] = lb;
            pr[jc[i] + 1] = 1; ir[jc[i] + 1] = 2 * r + 1; ho[2 * r + 1] = ub;
            for (k = i + 1; k <= n; k++) jc[k] += 2;
            for (k = 0; k < len; k++) { pr[jc[i] + 2 + k] = Gpr[Gjc[i] + k]; ir[jc[i] + 2 + k] = Gir[Gjc[i] + k] + extra; }
        } else
            for (k = 0; k < len; k++) { pr[jc[i] + k] = Gpr[Gjc[i] + k]; ir[jc[i] + k] = Gir[Gjc[i] + k] + extra; }
    }
    for (i = 0; i < m; i++) ho[extra + i] = h[i];
}
void socp_to_ecos_bb(idxint nb, idxint* bools, idxint ni, idxint* ints, idxint n, idxint m,
                          pfloat* Gpr, idxint* Gjc, idxint* Gir, pfloat* pr, idxint* jc, idxint* ir, pfloat* h, pfloat* ho);
static void release(ecos_bb_pwork* w) {
    free(w->tmp_bool_node_id); free(w->tmp_int_node_id); free(w->tmp_branching_bool_node_id); free(w->tmp_branching_int_node_id);
    free(w->Gpr_new); free(w->Gjc_new); free(w->Gir_new); free(w->h_new);
    free(w->nodes); free(w->bool_node_ids); free(w->int_node_ids);
    free(w->x); free(w->y); free(w->z); free(w->s); free(w->info);
    free(w->pseudocost_bin_cnt); free(w->pseudocost_bin_sum); free(w->pseudocost_int_cnt); free(w->pseudocost_int_sum);
    if (w->default_settings) free(w->stgs);
    free(w);
}
ecos_bb_pwork* spec_ECOS_BB_setup(idxint n, idxint m, idxint p, idxint l, idxint nc, idxint* q, idxint nex, pfloat* Gpr, idxint* Gjc, idxint* Gir,
                                  pfloat* Apr, idxint* Ajc, idxint* Air, pfloat* c, pfloat* h, pfloat* b,
                                  idxint nb, idxint* bools, idxint ni, idxint* ints, settings_bb* st) {
    ecos_bb_pwork* w = malloc(sizeof(ecos_bb_pwork)); idxint extra = 2 * nb + 2 * ni, M = m + extra, nz = Gjc[n] + extra, N;
    if (st == NULL) { st = get_default_ECOS_BB_settings(); w->default_settings = 1; } else w->default_settings = 0;
    w->stgs = st; N = st->maxit;
    w->Gpr_new = malloc(nz * sizeof(pfloat)); w->Gjc_new = malloc((n + 1) * sizeof(idxint)); w->Gir_new = malloc(nz * sizeof(idxint));
    w->h_new = malloc(M * sizeof(pfloat));
    socp_to_ecos_bb(nb, bools, ni, ints, n, m, Gpr, Gjc, Gir, w->Gpr_new, w->Gjc_new, w->Gir_new, h, w->h_new);
    w->nodes = calloc(N, sizeof(node));
    w->bool_node_ids = malloc(N * nb); w->int_node_ids = malloc(2 * N * ni * sizeof(pfloat));
    w->tmp_bool_node_id = malloc(nb); w->tmp_int_node_id = malloc(2 * ni * sizeof(pfloat));
    w->tmp_branching_bool_node_id = malloc(nb); w->tmp_branching_int_node_id = malloc(2 * ni * sizeof(pfloat));
    w->pseudocost_bin_cnt = calloc(2 * nb, sizeof(idxint)); w->pseudocost_bin_sum = calloc(2 * nb, sizeof(pfloat));
    w->pseudocost_int_cnt = calloc(2 * ni, sizeof(idxint)); w->pseudocost_int_sum = calloc(2 * ni, sizeof(pfloat));
    w->bool_vars_idx = bools; w->int_vars_idx = ints;
    w->x = malloc(n * sizeof(pfloat)); w->y = malloc(p * sizeof(pfloat)); w->z = malloc(M * sizeof(pfloat)); w->s = malloc(M * sizeof(pfloat));
    w->info = malloc(sizeof(stats));
    w->ecos_prob = ECOS_setup(n, M, p, l + extra, nc, q, nex, w->Gpr_new, w->Gjc_new, w->Gir_new, Apr, Ajc, Air, c, w->h_new, b);
    if (w->ecos_prob == NULL) { release(w); return NULL; }
    w->num_bool_vars = nb; w->num_int_vars = ni; w->global_U = ECOS_INFINITY;
    w->h = w->ecos_prob->h + extra; w->A = w->ecos_prob->A; w->G = w->ecos_prob->G; w->c = w->ecos_prob->c; w->b = w->ecos_prob->b;
    w->ecos_prob->stgs->verbose = 0; w->ecos_stgs = w->ecos_prob->stgs;
    return w;
}
void spec_ECOS_BB_cleanup(ecos_bb_pwork* w, idxint keep) { ECOS_cleanup(w->ecos_prob, keep); release(w); }
