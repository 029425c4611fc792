/* Reference definitions: the driver of the fill-reducing ordering.  Never executed. */
#include "amd_internal.h"
#include <stdlib.h>

void spec_amd_l_defaults(double ctl[]) {
    Int k;
    if (ctl == (double*)NULL) return;
    for (k = 0; k < AMD_CONTROL; k++) ctl[k] = 0;
    ctl[AMD_DENSE] = 10.0; ctl[AMD_AGGRESSIVE] = 1.0;
}
/* invalid: sizes, pointers that do not start at 0 or descend, indices out of range; jumbled: some index not above its predecessor */
Int spec_amd_l_valid(Int rows, Int cols, const Int jc[], const Int ir[]) {
    Int j, p, last, verdict = AMD_OK;
    if (rows < 0 || cols < 0 || jc == NULL || ir == NULL || jc[0] != 0 || jc[cols] < 0) return AMD_INVALID;
    for (j = 0; j < cols; j++) {
        if (jc[j] > jc[j + 1]) return AMD_INVALID;
        last = EMPTY;
        for (p = jc[j]; p < jc[j + 1]; p++) {
            if (ir[p] < 0 || ir[p] >= rows) return AMD_INVALID;
            if (ir[p] <= last) verdict = AMD_OK_BUT_JUMBLED;
            last = ir[p];
        }
    }
    return verdict;
}
/* pattern of the transpose with every entry once */
void spec_amd_l_preprocess(Int n, const Int jc[], const Int ir[], Int Rp[], Int Ri[], Int W[], Int seen[]) {
    Int i, j, p;
    for (i = 0; i < n; i++) { W[i] = 0; seen[i] = EMPTY; }
    for (j = 0; j < n; j++)
        for (p = jc[j]; p < jc[j + 1]; p++)
            if (seen[ir[p]] != j) { seen[ir[p]] = j; W[ir[p]] += 1; }
    Rp[0] = 0;
    for (i = 0; i < n; i++) Rp[i + 1] = Rp[i] + W[i];
    for (i = 0; i < n; i++) { W[i] = Rp[i]; seen[i] = EMPTY; }
    for (j = 0; j < n; j++)
        for (p = jc[j]; p < jc[j + 1]; p++)
            if (seen[ir[p]] != j) { seen[ir[p]] = j; Ri[W[ir[p]]] = j; W[ir[p]] += 1; }
}
size_t spec_amd_l_aat(Int n, const Int jc[], const Int ir[], Int Len[], Int Tp[], double Info[]) {
    Int i, j, k, p, q, diag = 0, both = 0;
    double sym = 1; size_t total = 0;
    if (Info) { for (k = 0; k < AMD_INFO; k++) Info[k] = EMPTY; Info[AMD_STATUS] = AMD_OK; }
    for (k = 0; k < n; k++) Len[k] = 0;
    for (k = 0; k < n; k++) {
        p = jc[k];
        while (p < jc[k + 1]) {
            j = ir[p];
            if (j >= k) { if (j == k) { p++; diag++; } break; }
            Len[j] += 1; Len[k] += 1; p++;
            q = Tp[j];
            while (q < jc[j + 1]) {
                i = ir[q];
                if (i >= k) { if (i == k) { q++; both++; } break; }
                Len[i] += 1; Len[j] += 1; q++;
            }
            Tp[j] = q;
        }
        Tp[k] = p;
    }
    for (j = 0; j < n; j++)
        for (q = Tp[j]; q < jc[j + 1]; q++) { Len[ir[q]] += 1; Len[j] += 1; }
    if (jc[n] != diag) sym = (2 * (double)both) / ((double)(jc[n] - diag));
    for (k = 0; k < n; k++) total += Len[k];
    if (Info) {
        Info[AMD_STATUS] = AMD_OK; Info[AMD_N] = (double)n; Info[AMD_NZ] = (double)jc[n]; Info[AMD_SYMMETRY] = sym;
        Info[AMD_NZDIAG] = (double)diag; Info[AMD_NZ_A_PLUS_AT] = (double)total;
    }
    return total;
}
/* the pattern of A+A' without its diagonal goes to Iw, behind six vectors of length n in S */
void spec_amd_l1(Int n, const Int jc[], const Int ir[], Int P[], Int Pinv[], Int Len[], Int slen, Int S[], double Control[], double Info[]) {
    Int i, j, k, p, q, used = 0, room = slen - 6 * n;
    Int *Pe = S, *Nv = S + n, *Head = S + 2 * n, *Elen = S + 3 * n, *Degree = S + 4 * n, *W = S + 5 * n, *Iw = S + 6 * n;
    Int *Sp = Nv, *Tp = W;
    for (j = 0; j < n; j++) { Pe[j] = used; Sp[j] = used; used += Len[j]; }
    for (k = 0; k < n; k++) {
        p = jc[k];
        while (p < jc[k + 1]) {
            j = ir[p];
            if (j >= k) { if (j == k) p++; break; }
            p++;
            Iw[Sp[j]++] = k;
            Iw[Sp[k]++] = j;
            q = Tp[j];
            while (q < jc[j + 1]) {
                i = ir[q];
                if (i >= k) { if (i == k) q++; break; }
                q++;
                Iw[Sp[i]++] = j;
                Iw[Sp[j]++] = i;
            }
            Tp[j] = q;
        }
        Tp[k] = p;
    }
    for (j = 0; j < n; j++)
        for (q = Tp[j]; q < jc[j + 1]; q++) {
            Iw[Sp[ir[q]]++] = j;
            Iw[Sp[j]++] = ir[q];
        }
    AMD_2(n, Pe, Iw, Len, room, used, Nv, Pinv, P, Head, Elen, Degree, W, Control, Info);
}
Int spec_amd_l_post_tree(Int root, Int k, Int Child[], const Int Sibling[], Int Order[], Int Stack[]) {
    Int f, top = 0, h, i;
    Stack[0] = root;
    while (top >= 0) {
        i = Stack[top];
        if (Child[i] == EMPTY) { top--; Order[i] = k; k++; }
        else {
            for (f = Child[i]; f != EMPTY; f = Sibling[f]) top++;
            for (h = top, f = Child[i]; f != EMPTY; f = Sibling[f]) { Stack[h] = f; h--; }
            Child[i] = EMPTY;
        }
    }
    return k;
}
Int spec_amd_l_order(Int n, const Int jc[], const Int ir[], Int P[], double Control[], double Info[]) {
    Int *Len, *Pinv, *Rp = NULL, *Ri = NULL, *S = NULL, k, st, ok;
    size_t nz2, room; double mem = 0;
    if (Info) { for (k = 0; k < AMD_INFO; k++) Info[k] = EMPTY; Info[AMD_N] = (double)n; Info[AMD_STATUS] = AMD_OK; }
    if (!ir || !jc || !P || n < 0) { if (Info) Info[AMD_STATUS] = AMD_INVALID; return AMD_INVALID; }
    if (n == 0) return AMD_OK;
    if (Info) Info[AMD_NZ] = (double)jc[n];
    if (jc[n] < 0) { if (Info) Info[AMD_STATUS] = AMD_INVALID; return AMD_INVALID; }
    if ((size_t)n >= SIZE_T_MAX / sizeof(Int) || (size_t)jc[n] >= SIZE_T_MAX / sizeof(Int)) { if (Info) Info[AMD_STATUS] = AMD_OUT_OF_MEMORY; return AMD_OUT_OF_MEMORY; }
    st = AMD_valid(n, n, jc, ir);
    if (st == AMD_INVALID) { if (Info) Info[AMD_STATUS] = AMD_INVALID; return AMD_INVALID; }
    Len = malloc(n * sizeof(Int)); Pinv = malloc(n * sizeof(Int)); mem += 2 * n;
    if (!Len || !Pinv) { free(Len); free(Pinv); if (Info) Info[AMD_STATUS] = AMD_OUT_OF_MEMORY; return AMD_OUT_OF_MEMORY; }
    if (st == AMD_OK_BUT_JUMBLED) {
        Rp = malloc((n + 1) * sizeof(Int)); Ri = malloc(MAX(jc[n], 1) * sizeof(Int)); mem += n + 1; mem += MAX(jc[n], 1);
        if (!Rp || !Ri) { free(Rp); free(Ri); free(Len); free(Pinv); if (Info) Info[AMD_STATUS] = AMD_OUT_OF_MEMORY; return AMD_OUT_OF_MEMORY; }
        AMD_preprocess(n, jc, ir, Rp, Ri, Len, Pinv);
    }
    nz2 = AMD_aat(n, Rp ? Rp : jc, Rp ? Ri : ir, Len, P, Info);
    room = nz2; ok = room + nz2 / 5 >= room; room += nz2 / 5;
    for (k = 0; ok && k < 7; k++) { ok = room + n > room; room += n; }
    mem += room;
    ok = ok && room < SIZE_T_MAX / sizeof(Int) && room < Int_MAX;
    if (ok) S = malloc(room * sizeof(Int));
    if (!S) { free(Rp); free(Ri); free(Len); free(Pinv); if (Info) Info[AMD_STATUS] = AMD_OUT_OF_MEMORY; return AMD_OUT_OF_MEMORY; }
    if (Info) Info[AMD_MEMORY] = mem * sizeof(Int);
    AMD_1(n, Rp ? Rp : jc, Rp ? Ri : ir, P, Pinv, Len, (Int)room, S, Control, Info);
    free(Rp); free(Ri); free(Len); free(Pinv); free(S);
    if (Info) Info[AMD_STATUS] = (double)st;
    return st;
}
/* the assembly tree in postorder, the largest front last among the children of a node */
void spec_amd_l_postorder(Int nn, Int Parent[], Int Nv[], Int Fsize[], Int Order[], Int Child[], Int Sibling[], Int Stack[]) {
    Int i, j, k, f, before, size, bigbefore, big;
    for (j = 0; j < nn; j++) { Child[j] = EMPTY; Sibling[j] = EMPTY; }
    for (j = nn - 1; j >= 0; j--)
        if (Nv[j] > 0 && Parent[j] != EMPTY) { Sibling[j] = Child[Parent[j]]; Child[Parent[j]] = j; }
    for (i = 0; i < nn; i++) {
        if (Nv[i] <= 0 || Child[i] == EMPTY) continue;
        before = EMPTY; size = EMPTY; bigbefore = EMPTY; big = EMPTY;
        for (f = Child[i]; f != EMPTY; f = Sibling[f]) {
            if (Fsize[f] >= size) { size = Fsize[f]; bigbefore = before; big = f; }
            before = f;
        }
        if (Sibling[big] != EMPTY) {
            if (bigbefore == EMPTY) Child[i] = Sibling[big]; else Sibling[bigbefore] = Sibling[big];
            Sibling[big] = EMPTY;
            Sibling[before] = big;
        }
    }
    for (i = 0; i < nn; i++) Order[i] = EMPTY;
    k = 0;
    for (i = 0; i < nn; i++) if (Parent[i] == EMPTY && Nv[i] > 0) k = AMD_post_tree(i, k, Child, Sibling, Order, Stack);
}
