"""Array contents as chains of guarded quantified writes; index prover; select/store/merge."""
import terms as T
from terms import mk, N, TRUE, FALSE, ZERO, ONE, add, sub, mul, ite, band, bnot, pos, subst, const, aslf, is_const, cval
from fractions import Fraction

# ------------------------------------------------------------------ integer knowledge about problem data
# suffix of a location path -> lower bound of the integer stored there
LOWER = {}
MONO = ()       # location path suffixes whose contents increase with the index (column pointers)
INJ = ()        # location path suffixes holding permutations
RANGE_OF = {}   # path suffix -> (lo, hi) fn
SIGNED = set()    # variables of a running loop that may be negative
INTS = set()      # cells the analysed program reads as integers
def lower_of(path):
    if path[:1] == "L" and path.endswith(".I"): return 0
    best = None
    for suf in LOWER:
        if path.endswith(suf) and (best is None or len(suf) > len(best)): best = suf
    return LOWER[best] if best is not None else None
def path_is(path, sufs):
    return any(path.endswith(s) for s in sufs)

def nonneg_atom(a):
    k = a.k
    if k == "var": return True
    if k == "lv": return a not in SIGNED
    if k == "sel":
        b = base_of(a.a[0])
        return b is not None and lower_of(b) is not None
    if k == "sum":
        return a.a[2].k == "P" and T.known_nonneg(a.a[2])
    if k == "sym":
        return lower_of(a.a[0]) is not None
    if k in ("first",): return True
    return False
T.HOOK["nonneg"] = nonneg_atom
def base_of(arr):
    return arr.a[0] if arr.k == "init" else arr.a[1] if arr.k == "hdr" else None

def lvs_of(p):
    return [x for x in p.fv if x.k == "lv"]

def _occ(m, v):
    """how a monomial depends on lv v: 0 none, +1 increasing, None unknown (sign of coefficient not included)"""
    hits = [a for a, e in m if v in a.fv]
    if not hits: return 0
    if len(hits) > 1: return None
    a = hits[0]; e = dict(m)[a]
    if e != 1: return None
    for b, eb in m:
        if b is not a and not (nonneg_atom(b) and eb > 0): return None
    if a is v: return 1
    if a.k == "sum" and a.a[0].k == "P" and a.a[2].k == "P" and v not in a.a[2].fv and T.known_nonneg(a.a[2]):
        return _inc(a.a[0], v)
    if a.k == "sel":
        b = base_of(a.a[0])
        if b and path_is(b, MONO):
            for ix in a.a[1][:-1]:
                if v in ix.fv: return None
            return _inc(a.a[1][-1], v)
    return None
def _inc(p, v):
    if p.k != "P": return None
    for m, c in p.a[0]:
        o = _occ(m, v)
        if o is None or (o and c < 0): return None
    return 1

def prove_ge0(d, depth=0):
    """try to show d >= 0 for all loop variables in range"""
    if d.k == "ite":
        return prove_ge0(d.a[1], depth) and prove_ge0(d.a[2], depth)
    if d.k != "P": return False
    if is_const(d): return cval(d) >= 0
    if depth > 12: return False
    # lower bounds of dimension-like atoms
    ok = True; c0 = Fraction(0)
    for m, c in d.a[0]:
        if m == (): c0 += c; continue
        if not all(nonneg_atom(a) and e > 0 for a, e in m): ok = False; break
        if c < 0: ok = False; break
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k in ("sel", "sym"):
            a = m[0][0]
            lo = lower_of(base_of(a.a[0]) if a.k == "sel" else a.a[0])
            if lo: c0 += c * lo
    if ok: return c0 >= 0
    vs = lvs_of(d)
    if any(v in SIGNED for v in vs): return False
    if vs:
        # innermost first: v not inside the range of another variable of d
        def dep(v): return sum(1 for u in vs if u is not v and u in T.RANGE and v in T.RANGE[u].fv)
        for v in sorted(vs, key=lambda v: (dep(v), -v.id)):
            if dep(v): continue
            dd = combine_prefix(d, v)
            for cand in dd:
                kinds = set(); bad = False; drop = []
                for m, c in cand.a[0]:
                    o = _occ(m, v)
                    if o is None:
                        if c > 0 and all(nonneg_atom(a) and e > 0 for a, e in m): drop.append((m, c)); continue
                        bad = True; break
                    if o: kinds.add(1 if c > 0 else -1)
                if bad: continue
                if drop:
                    # a nonnegative term is bounded from below by its smallest value
                    for m, c in drop:
                        lo = 0
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "sel": lo = lower_of(base_of(m[0][0].a[0])) or 0
                        cand = add(T.psub(cand, mk("P", ((m, c),))), const(c * lo))
                    if prove_ge0(cand, depth + 1): return True
                    continue
                if len(kinds) > 1: continue
                if not kinds:
                    return prove_ge0(cand, depth + 1)
                if 1 in kinds:
                    nd = subst(cand, {v: ZERO})
                else:
                    if v not in T.RANGE: continue
                    nd = subst(cand, {v: sub(T.RANGE[v], ONE)})
                if prove_ge0(nd, depth + 1): return True
    for f in fact_steps(d):
        if prove_ge0(f, depth + 1): return True
    return False

def combine_prefix(d, v):
    """yield d, and d with c*(S(v) + f(v)), c<0, replaced by its bound c*S(range end)"""
    yield d
    if v not in T.RANGE: return
    for m, c in d.a[0]:
        if len(m) == 1 and m[0][0].k == "sum" and m[0][1] == 1 and c < 0:
            s = m[0][0]
            if s.a[0] is T.atom(v) and s.a[2].k == "P":
                fv = subst(s.a[2], {mk("var", s.a[1]): v})
                rest = T.psub(T.psub(d, mk("P", ((m, c),))), T.pscale(fv, c)) if fv.k == "P" else None
                if rest is not None and v not in rest.fv:
                    S = T.sum_of(T.RANGE[v], s.a[1], s.a[2])
                    yield add(rest, T.pscale(S, c)) if S.k == "P" else rest
        # c*(S(N) + f(N)) = c*S(N+1) >= c*S(N0+1) for the smallest N
        if len(m) == 1 and m[0][0].k == "sum" and m[0][1] == 1 and c > 0 and v in m[0][0].fv:
            s = m[0][0]
            if v not in s.a[2].fv and s.a[2].k == "P" and T.known_nonneg(s.a[2]) and _inc(s.a[0], v):
                fN = subst(s.a[2], {mk("var", s.a[1]): s.a[0]})
                if fN.k == "P":
                    rest = T.psub(T.psub(d, mk("P", ((m, c),))), T.pscale(fN, c))
                    if v not in rest.fv or len(rest.a[0]) <= len(d.a[0]) - 2:
                        S = T.sum_of(add(subst(s.a[0], {v: ZERO}), ONE), s.a[1], s.a[2])
                        if S.k == "P": yield add(rest, T.pscale(S, c))
FACTS = []   # functions d -> iterable of weaker expressions d' with d >= d'
def fact_steps(d):
    for f in FACTS: yield from f(d)

def prove_pos(d):
    return prove_ge0(sub(d, ONE))

# ------------------------------------------------------------------ unification of an index pattern with a query
def unify(e, q, U, sol):
    """find values for the unknown loop variables U (set) so that e == q.  returns True/False(no structural solution)"""
    e = subst(e, sol) if sol else e
    if e is q: return True
    if e.k != "P" or q.k != "P": return False
    unk = [u for u in lvs_of(e) if u in U and u not in sol]
    if not unk: return T.rat_zero(T.psub(e, q))
    D = T.psub(e, q)
    # unknowns hidden inside atoms first
    hidden = set()
    for m, c in e.a[0]:
        for a, ex in m:
            if a.k != "lv":
                hidden |= {u for u in a.fv if u in U and u not in sol}
    if hidden:
        qa = {}
        for m, c in q.a[0]:
            for a, ex in m: qa.setdefault(a.k, []).append(a)
        for m, c in e.a[0]:
            for a, ex in m:
                if a.k == "lv" or not any(u in hidden for u in a.fv): continue
                cands = qa.get(a.k, [])
                if a.k == "sum":
                    for b in cands:
                        if b.a[2] is a.a[2] and b.a[1] == a.a[1]:
                            s2 = dict(sol)
                            if unify(a.a[0], b.a[0], U, s2) and unify(e, q, U, s2):
                                sol.update(s2); return True
                    # S(0) = 0 : the query may be in the first block
                    s2 = dict(sol)
                    if unify(a.a[0], ZERO, U, s2) and s2 != sol and unify(e, q, U, s2):
                        sol.update(s2); return True
                    return False
                if a.k == "sel":
                    for b in cands:
                        if b.a[0] is a.a[0] and len(b.a[1]) == len(a.a[1]):
                            s2 = dict(sol)
                            if all(unify(x, y, U, s2) for x, y in zip(a.a[1], b.a[1])) and unify(e, q, U, s2):
                                sol.update(s2); return True
                    return False
                return False
    lin = []
    for m, c in D.a[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in unk: lin.append((m[0][0], c))
    if not lin: return False
    lin.sort(key=lambda t: -t[0].id)
    u, c = lin[0]
    rest = T.psub(D, mk("P", ((((u, 1),), c),)))
    if u in rest.fv: return False
    if abs(c) != 1: 
        # stride: only exact constant quotients
        r = T.pscale(rest, Fraction(-1) / c)
        if any(k.denominator != 1 for _, k in r.a[0]): return False
    others = [x for x, _ in lin if x is not u]
    if others:
        # several free linear unknowns (row-major i*stride + j): match the outer ones via bounded remainder
        return unify_strided(D, lin, U, sol, e, q)
    sol[u] = T.pscale(rest, Fraction(-1) / c)
    return unify(e, q, U, sol)

def unify_strided(D, lin, U, sol, e, q):
    """c1*u1 + u2 == c1*q1 + q2 with 0 <= u2 < c1 (numeric strides)"""
    lin = sorted(lin, key=lambda t: -abs(t[1]))
    # every unknown matched with a query loop variable of the same coefficient
    qd = {}
    for m, c in q.a[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "lv": qd.setdefault(c, []).append(m[0][0])
    ed = dict(e.a[0])
    s2 = dict(sol)
    for u, _ in lin[:-1]:
        c = ed[((u, 1),)]
        c_in_q = [x for x in qd.get(c, [])]
        if len(c_in_q) != 1: return False
        s2[u] = T.atom(c_in_q[0])
    if unify(e, q, U, s2):
        sol.update(s2); return True
    return False

def subst_many(n, sol):
    return subst(n, sol) if sol else n

_open = {}
def open_eff(a):
    """(kind, lvs, Ns, guard, idx, val) with binders instantiated"""
    r = _open.get(a)
    if r is None:
        _, kind, Ns, hs, g, idx, val = a.a
        mp = {}; lvs = []; Nn = []
        for h, n in zip(hs, Ns):
            n2 = subst(n, mp) if mp else n
            f = T.fresh_lv(n2); lvs.append(f); Nn.append(n2); mp[mk("var", h)] = f
        if mp: r = (kind, tuple(lvs), tuple(Nn), subst(g, mp), tuple(subst(i, mp) for i in idx), subst(val, mp))
        else: r = (kind, (), (), g, idx, val)
        _open[a] = r
    return r
def reopen(a):
    _open.pop(a, None)
    return open_eff(a)

def downward(idx, f):
    """the variable occurs in subscripts, everywhere with a negative factor"""
    neg = False; st = list(idx); seen = set()
    while st:
        x = st.pop()
        if x in seen or f not in x.fv: continue
        seen.add(x)
        if x.k == "P":
            c = dict(x.a[0]).get(((f, 1),))
            if c is not None:
                if c > 0: return False
                neg = True
            st += [a for m, _ in x.a[0] for a, _e in m if a is not f]
        elif x.k == "sel": st += list(x.a[1])
    return neg
def mk_eff(prev, kind, lvs, Ns, guard, idx, val):
    """close the loop variables lvs (outermost first, RANGE Ns) over guard, idx, val"""
    if guard is FALSE: return prev
    for j, x in enumerate(idx):
        if x.k == "ite":
            c = T.batom(x.a[0])
            p = mk_eff(prev, kind, lvs, Ns, band(guard, c), idx[:j] + (x.a[1],) + idx[j + 1:], val)
            return mk_eff(p, kind, lvs, Ns, band(guard, bnot(c)), idx[:j] + (x.a[2],) + idx[j + 1:], val)
    for j, n in enumerate(Ns):
        if n.k == "ite":
            c = T.batom(n.a[0])
            p = mk_eff(prev, kind, lvs, Ns[:j] + (n.a[1],) + Ns[j + 1:], band(guard, c), idx, val)
            return mk_eff(p, kind, lvs, Ns[:j] + (n.a[2],) + Ns[j + 1:], band(guard, bnot(c)), idx, val)
    for j, n in enumerate(Ns):
        if is_const(n) and cval(n) <= 4:
            p = prev
            for t in range(int(max(0, cval(n)))):
                mp = {lvs[j]: const(t)}
                p = mk_eff(p, kind, lvs[:j] + lvs[j + 1:], tuple(subst(x, mp) for x in Ns[:j] + Ns[j + 1:]), subst(guard, mp),
                           tuple(subst(x, mp) for x in idx), subst(val, mp))
            return p
    if guard.k == "ite":
        guard = simp_guard(guard)
        if guard is FALSE: return prev
    # a loop counting down is the loop counting up (writes of one effect are to distinct cells, or are added up)
    for j, f in enumerate(lvs):
        if Ns[j].k == "P" and downward(idx, f):
            g = T.fresh_lv(Ns[j]); mp = {f: sub(sub(Ns[j], ONE), T.atom(g))}
            Ns2 = list(Ns); lv2 = list(lvs); lv2[j] = g
            for i in range(j + 1, len(Ns)):
                Ns2[i] = subst(Ns[i], mp)
                if Ns2[i] is not Ns[i] and Ns2[i].k == "P": T.RANGE[lvs[i]] = Ns2[i]
            return mk_eff(prev, kind, tuple(lv2), tuple(Ns2), subst(guard, mp), tuple(subst(x, mp) for x in idx), subst(val, mp))
    if not lvs:
        # overwrite of the same cell
        if kind == "set" and prev.k == "eff" and prev.a[1] in ("set", "add") and not prev.a[2] and prev.a[5] == idx and guard is TRUE:
            return mk_eff(prev.a[0], kind, lvs, Ns, guard, idx, val)
        if kind == "set" and guard is TRUE and val.k == "P" and len(val.a[0]) == 1 and val.a[0][0][1] == 1:
            m = val.a[0][0][0]
            if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "sel" and m[0][0].a[0] is prev and m[0][0].a[1] == idx: return prev
        return mk("eff", prev, kind, (), (), guard, idx, val)
    # canonical binder heights above everything inside
    h = max([guard.h, val.h] + [i.h for i in idx] + [n.h for n in Ns])
    hs = []; mp = {}
    for f in lvs:
        h += 1; hs.append(h); mp[f] = mk("var", h)
    S = T.Subst(mp)
    Ns2 = []
    for j, n in enumerate(Ns): Ns2.append(S(n))
    return mk("eff", prev, kind, tuple(Ns2), tuple(hs), S(guard), tuple(S(i) for i in idx), S(val))

def simp_guard(g):
    return simp_bool(g)
def simp_bool(g):
    """drop integer comparisons decided by the index prover"""
    if g.k != "ite": return g
    c = g.a[0]
    if c.k == "pos" and c.a[1] == "i" and c.fv:
        if prove_pos(c.a[0]): return simp_bool(g.a[1])
        if prove_ge0(T.pneg(c.a[0])): return simp_bool(g.a[2])
    if c.k == "zero" and c.a[1] == "i" and c.fv:
        if prove_pos(c.a[0]) or prove_pos(T.pneg(c.a[0])): return simp_bool(g.a[2])
    a, b = simp_bool(g.a[1]), simp_bool(g.a[2])
    if a is g.a[1] and b is g.a[2]: return g
    return ite(T.batom(c), a, b)

def disjoint(idx1, idx2):
    for a, b in zip(idx1, idx2):
        if a is b: continue
        if a.k != "P" or b.k != "P": continue
        d = T.psub(a, b)
        if is_const(d):
            if cval(d) != 0: return True
            continue
        if residue(d) or prove_pos(d) or prove_pos(T.pneg(d)): return True
        if inj_disjoint(a, b): return True
    return False
def residue(d):
    """all terms share a factor that does not divide the constant: never zero"""
    from math import gcd
    g = 0; c0 = 0
    for m, c in d.a[0]:
        if c.denominator != 1: return False
        if m == (): c0 = int(c)
        else: g = gcd(g, int(c))
    return g > 1 and c0 % g != 0
def inj_atom(p):
    if p.k == "P" and len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1 and p.a[0][0][0][0][1] == 1:
        a = p.a[0][0][0][0][0]
        if a.k == "sel" and base_of(a.a[0]) and path_is(base_of(a.a[0]), INJ): return a
    return None
def inj_disjoint(a, b):
    x, y = inj_atom(a), inj_atom(b)
    if x is not None and y is not None and x.a[0] is y.a[0]:
        return disjoint(x.a[1], y.a[1])
    return False

STRICT_UNKNOWN = [0]
def match(effnode, idx):
    """('no',) | ('hit', guard, val, kind) | ('unknown',)"""
    kind, lvs, Ns, g, eidx, val = open_eff(effnode)
    qfv = set()
    for i in idx: qfv |= i.fv
    if any(l in qfv for l in lvs):
        kind, lvs, Ns, g, eidx, val = reopen(effnode)
    if len(eidx) != len(idx): return ("unknown",)
    if not lvs:
        same = True
        for a, b in zip(eidx, idx):
            if a is b: continue
            if a.k == "P" and b.k == "P":
                d = T.psub(a, b)
                if is_const(d):
                    if cval(d) != 0: return ("no",)
                    continue
            same = False
        if same: return ("hit", g, val, kind)
        if disjoint(eidx, idx): return ("no",)
        # symbolic equality of a single differing component
        diff = [(a, b) for a, b in zip(eidx, idx) if a is not b]
        if len(diff) == 1 and diff[0][0].k == "P" and diff[0][1].k == "P":
            x, y = inj_atom(diff[0][0]), inj_atom(diff[0][1])
            if x is not None and y is not None and x.a[0] is y.a[0] and x.a[1][:-1] == y.a[1][:-1]:
                return ("hit", band(g, T.iszero(T.psub(x.a[1][-1], y.a[1][-1]), "i")), val, kind)
            return ("hit", band(g, T.iszero(T.psub(diff[0][0], diff[0][1]), "i")), val, kind)
        return ("unknown",)
    U = set(lvs); sol = {}
    ok = True
    for a, b in zip(eidx, idx):
        if not unify(a, b, U, sol): ok = False; break
    if ok and all(u in sol for u in lvs):
        # binders that are not pinned stay free -> unknown
        rng = TRUE; proven = True; out = False
        mp = {}
        for u, n in zip(lvs, Ns):
            s = subst(sol[u], sol) if sol[u].fv & U else sol[u]
            n2 = subst(n, sol)
            lo = prove_ge0(s); hi = prove_pos(sub(n2, s))
            if not lo:
                if prove_pos(T.neg(s)): out = True
                rng = band(rng, pos(add(s, ONE), "i")); proven = False
            if not hi:
                if prove_ge0(sub(s, n2)): out = True
                rng = band(rng, pos(sub(n2, s), "i")); proven = False
            mp[u] = s
        if proven or (len(lvs) == 1 and not out):
            return ("hit", band(rng, subst(g, mp)), subst(val, mp), kind)
        if out and len(lvs) == 1: return ("no",)
        if out and (disjoint(eidx, idx) or disjoint_split(eidx, idx, U)): return ("no",)
        if not out and linear_only(eidx, U):
            return ("hit", band(rng, subst(g, mp)), subst(val, mp), kind)
        return ("unknown",)
    if disjoint(eidx, idx): return ("no",)
    if disjoint_split(eidx, idx, U): return ("no",)
    return ("unknown",)
def disjoint_split(eidx, idx, U):
    """case split on the block number: both cells are base + prefix sum up to a block + offset inside it"""
    for a, b in zip(eidx, idx):
        if a.k != "P" or b.k != "P": continue
        for m, c in a.a[0]:
            if len(m) != 1 or m[0][0].k != "sum": continue
            s = m[0][0]; u = as_lv(s.a[0])
            if u is None or u not in U: continue
            for m2, c2 in b.a[0]:
                if len(m2) != 1 or m2[0][0].k != "sum": continue
                r = m2[0][0]; w = as_lv(r.a[0])
                if w is None or r.a[2] is not s.a[2] or r.a[1] != s.a[1]: continue
                if split3(a, b, u, w): return True
            # the query lies behind all blocks or in the first one: handled by plain disjointness
    return False
def as_lv(p):
    if p.k == "P" and len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1 and p.a[0][0][0][0][1] == 1 and p.a[0][0][0][0][0].k == "lv":
        return p.a[0][0][0][0][0]
    return None
def split3(a, b, u, w):
    if u is w: return False
    def apart(x, y):
        if x.k != "P" or y.k != "P": return False
        d = T.psub(x, y)
        return (is_const(d) and cval(d) != 0) or prove_pos(d) or prove_pos(T.pneg(d))
    # equal blocks
    if not apart(*ren(a, b, {u: T.atom(w)})): return False
    # u = w + 1 + t
    t = T.fresh_lv(None)
    if u in T.RANGE: T.RANGE[t] = sub(sub(T.RANGE[u], ONE), T.atom(w))
    if not apart(*ren(a, b, {u: add(add(T.atom(w), ONE), T.atom(t))})): return False
    t = T.fresh_lv(None)
    if w in T.RANGE: T.RANGE[t] = sub(sub(T.RANGE[w], ONE), T.atom(u))
    return apart(*ren(a, b, {w: add(add(T.atom(u), ONE), T.atom(t))}))
def ren(a, b, mp):
    """substitute, renewing the loop variables whose range depends on a substituted one"""
    m = dict(mp)
    for x in set(lvs_of(a)) | set(lvs_of(b)):
        if x in mp: continue
        r = T.RANGE.get(x)
        if r is not None and any(k in r.fv for k in mp):
            m[x] = T.atom(T.fresh_lv(subst(r, mp)))
    return subst(a, m), subst(b, m)
def linear_only(eidx, U): return False
def disjoint_range(eidx, idx): return disjoint(eidx, idx)

def select(arr, idx, leaf=None):
    for i, x in enumerate(idx):
        if x.k == "ite":
            c = T.batom(x.a[0])
            return ite(c, select(arr, idx[:i] + (x.a[1],) + idx[i + 1:], leaf), select(arr, idx[:i] + (x.a[2],) + idx[i + 1:], leaf))
    if arr.k == "ite":
        return ite(T.batom(arr.a[0]), select(arr.a[1], idx, leaf), select(arr.a[2], idx, leaf))
    idx = tuple(idx)
    key = (arr, idx, leaf)
    r = _selmemo.get(key)
    if r is not None: return r
    r = _select(arr, idx, leaf)
    _selmemo[key] = r
    return r
_selmemo = {}
def clear_memo():
    _selmemo.clear()
def _select(arr, idx, leaf):
    a = arr
    if a.k == "eff":
        m = match(a, idx)
        if m[0] == "no": return select(a.a[0], idx, leaf)
        if m[0] == "hit":
            _, g, v, kind = m
            g = simp_bool(g)
            if kind == "set":
                if g is TRUE: return v
                return ite(g, v, select(a.a[0], idx, leaf))
            # accumulate
            base = select(a.a[0], idx, leaf)
            return add(base, v if g is TRUE else ite(g, v, ZERO))
        if a.a[1] == "add":
            r = acc_select(a, idx)
            if r is not None: return add(select(a.a[0], idx, leaf), r)
    if leaf is not None: return leaf(arr, idx)
    if arr.k == "ptr": return arr
    return T.atom(mk("sel", arr, idx))
def acc_select(a, idx):
    """value added to cell idx by a quantified accumulation whose index is not invertible:
       sum over binders of (index == idx ? val : 0)"""
    kind, lvs, Ns, g, eidx, val = open_eff(a)
    qfv = set()
    for i in idx: qfv |= i.fv
    if any(l in qfv for l in lvs): kind, lvs, Ns, g, eidx, val = reopen(a)
    U = set(lvs); sol = {}
    # pin what can be pinned
    for x, y in zip(eidx, idx):
        s2 = dict(sol)
        if unify(x, y, U, s2): sol = s2
    cond = g
    mp = {}
    for u in lvs:
        if u in sol:
            if sol[u].fv & U: return None
            mp[u] = sol[u]
    for u, n in zip(lvs, Ns):
        if u in mp:
            n2 = subst(n, mp)
            if not prove_ge0(mp[u]): cond = band(cond, pos(add(mp[u], ONE), "i"))
            if not prove_pos(sub(n2, mp[u])): cond = band(cond, pos(sub(n2, mp[u]), "i"))
    cond = subst(cond, mp); v = subst(val, mp)
    for x, y in zip(eidx, idx):
        d = sub(subst(x, mp), y)
        cond = band(cond, T.iszero(d, "i"))
    body = ite(cond, v, ZERO)
    free = [(u, n) for u, n in zip(lvs, Ns) if u not in mp]
    for u, n in reversed(free):
        n = subst(n, mp)
        h, b = T.close(u, body)
        body = T.map1q(lambda nn: T.sum_of(aslf(nn), h, b), n)
    return body

def store(arr, idx, val):
    return mk_eff(arr, "set", (), (), TRUE, tuple(idx), val)

def chain(arr, stop=None):
    """effects of arr from oldest to newest, and the base"""
    out = []
    a = arr
    while a.k == "eff":
        if stop is not None and a is stop: break
        out.append(a); a = a.a[0]
    out.reverse()
    return out, a

def rebase(a, prev, guard=TRUE):
    """the effect a on top of another array"""
    _, kind, Ns, hs, g, idx, val = a.a
    if not Ns:
        return mk_eff(prev, kind, (), (), band(guard, g), idx, val)
    if guard is TRUE: return mk("eff", prev, kind, Ns, hs, g, idx, val)
    kind, lvs, Ns, g, idx, val = open_eff(a)
    return mk_eff(prev, kind, lvs, Ns, band(guard, g), idx, val)

def merge(c, A, B):
    """contents if c then A else B"""
    if A is B: return A
    if c is TRUE: return A
    if c is FALSE: return B
    if A.k == "ite" or B.k == "ite":
        return ite(c, A, B)
    ea, ba = chain(A); eb, bb = chain(B)
    if ba is not bb: return ite(c, A, B)
    # common prefix
    k = 0
    while k < len(ea) and k < len(eb) and ea[k] is eb[k]: k += 1
    P = ea[k - 1] if k else ba
    xa, xb = ea[k:], eb[k:]
    if len(xa) + len(xb) > 60: return ite(c, A, B)
    if all(not x.a[2] and all(is_const(i) for i in x.a[5]) for x in xa + xb):
        idxs = []
        for x in xa + xb:
            if x.a[5] not in idxs: idxs.append(x.a[5])
        r = P
        for ix in idxs:
            r = mk_eff(r, "set", (), (), TRUE, ix, ite(c, select(A, ix), select(B, ix)))
        return r
    if len(xa) == 1 and len(xb) == 1:
        a, b = xa[0], xb[0]
        if a.a[1:6] == b.a[1:6] and a.a[1] == "set":
            kind, lvs, Ns, g, idx, val = open_eff(a)
            mp = {mk("var", h): l for h, l in zip(b.a[3], lvs)}
            vb = subst(b.a[6], mp) if mp else b.a[6]
            return mk_eff(P, kind, lvs, Ns, g, idx, ite(c, val, vb))
    r = P
    for x in xa: r = rebase(x, r, c)
    nc = bnot(c)
    for x in xb: r = rebase(x, r, nc)
    return r

def subst_eff(s, a):
    prev = s(a.a[0])
    if not a.a[2]:
        g, idx, val = s(a.a[4]), tuple(s(i) for i in a.a[5]), s(a.a[6])
        return lift_prev(prev, lambda p: mk_eff(p, a.a[1], (), (), g, idx, val))
    _, kind, Ns, hs, g, idx, val = a.a
    mp = {}; lvs = []; Nn = []
    for h, n in zip(hs, Ns):
        n1 = subst(n, mp) if mp else n
        n2 = s(n1)
        f = T.fresh_lv(n2 if n2.k == "P" else None); lvs.append(f); Nn.append(n2); mp[mk("var", h)] = f
    g, idx, val = subst(g, mp), tuple(subst(i, mp) for i in idx), subst(val, mp)
    g, idx, val = s(g), tuple(s(i) for i in idx), s(val)
    return lift_prev(prev, lambda p: mk_eff(p, kind, tuple(lvs), tuple(Nn), g, idx, val))
def lift_prev(prev, f):
    if prev.k == "ite": return ite(T.batom(prev.a[0]), lift_prev(prev.a[1], f), lift_prev(prev.a[2], f))
    return f(prev)

T.select = select
T.subst_eff = subst_eff
