"""Hash-consed canonical terms: rational-function normal forms, guarded values (decision diagrams over sign
conditions), quantified sums, and array contents as chains of guarded, quantified writes."""
from fractions import Fraction
import sys, time
sys.setrecursionlimit(200000)

class Budget(Exception): pass
DEADLINE = [float("inf")]
class deadline:
    """limit the time spent normalising; Budget leaves the question undecided"""
    def __init__(s, sec): s.sec = sec
    def __enter__(s):
        s.old = DEADLINE[0]; DEADLINE[0] = min(s.old, time.time() + s.sec)
    def __exit__(s, *a): DEADLINE[0] = s.old

class N:
    __slots__ = ("k", "a", "id", "fv", "h", "opq", "size", "__weakref__")
    def __repr__(s): return show(s)

_tab = {}
_cnt = [0]
EMPTY = frozenset()

def mk(k, *a):
    key = (k, a)
    n = _tab.get(key)
    if n is None:
        if k == "pos": mk("zero", *a)      # the two exclusive conditions are neighbours in the order
        elif k == "zero" and not _pairing[0]:
            _pairing[0] = True
            try: n = _mk_new(k, a, key); mk("pos", *a)
            finally: _pairing[0] = False
            return n
        n = _mk_new(k, a, key)
    return n
_pairing = [False]
def _mk_new(k, a, key):
    n = _tab.get(key)
    if n is not None: return n
    n = N(); n.k = k; n.a = a; n.id = _cnt[0]; _cnt[0] += 1
    if _cnt[0] & 255 == 0 and time.time() > DEADLINE[0]: raise Budget()
    fv = EMPTY; h = 0; opq = (k in ("opq", "fopq", "bopq")); sz = 1
    for x in walk_children(a if k != "let" else a[1]):
        if x.fv: fv = fv | x.fv if fv else x.fv
        if x.h > h: h = x.h
        if x.opq: opq = True
        sz += x.size if k != "let" else 1
    if k == "rv": fv = frozenset((n,))
    if k == "lv" or k == "hdr": fv = fv | frozenset((n,))
    if k == "var": h = a[0]
    n.fv = fv; n.h = h; n.opq = opq; n.size = min(sz, 10**9)
    _tab[key] = n
    return n

def walk_children(a):
    for x in a:
        if isinstance(x, N): yield x
        elif isinstance(x, tuple):
            yield from walk_children(x)

# ---------------------------------------------------------------- polynomials (leaves of values)
# mk('P', ((mono, coef), ...)), mono = ((atom, exp), ...) sorted by atom id
def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda t: tuple((a.id, e) for a, e in t[0]))
    return mk("P", tuple(items))

def const(c):
    c = Fraction(c)
    return mk("P", (((), c),) if c != 0 else ())
ZERO = const(0); ONE = const(1)
TRUE = mk("T"); FALSE = mk("F")
INF = None; NAN = None
INTFN = set()      # uninterpreted functions with integer results

def atom(a, e=1):
    if a.k == "P": raise ValueError("atom of poly")
    return mk("P", ((((a, e),), Fraction(1)),))

def is_const(v):
    return v.k == "P" and (not v.a[0] or (len(v.a[0]) == 1 and v.a[0][0][0] == ()))
def cval(v):
    return v.a[0][0][1] if v.a[0] else Fraction(0)
def is_poly(v): return v.k == "P"

def padd(a, b):
    if not a.a[0]: return b
    if not b.a[0]: return a
    d = dict(a.a[0])
    for m, c in b.a[0]:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)
def pscale(a, c):
    if c == 0: return ZERO
    if c == 1: return a
    return mk("P", tuple((m, k * c) for m, k in a.a[0]))
def pneg(a): return pscale(a, Fraction(-1))
def psub(a, b): return padd(a, pneg(b))

def _monomul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = e
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2 == 0: d.pop(a)
        else: d[a] = e2
    return tuple(sorted(d.items(), key=lambda t: t[0].id))

POLY_CAP = 400
def wrap(p):
    """opaque-looking but semantically transparent atom for a big polynomial"""
    return atom(mk("paren", p))

def pmul(a, b):
    if not a.a[0] or not b.a[0]: return ZERO
    if is_const(a): return pscale(b, cval(a))
    if is_const(b): return pscale(a, cval(b))
    if len(a.a[0]) * len(b.a[0]) > POLY_CAP:
        if len(a.a[0]) > 1: a = wrapnorm(a)
        if len(b.a[0]) > 1: b = wrapnorm(b)
    d = {}
    for m1, c1 in a.a[0]:
        for m2, c2 in b.a[0]:
            m = _monomul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _fix(_mkpoly(d))

def _needfix(m):
    for a, e in m:
        if a.k == "fn" and a.a[0] == "sqrt" and (e > 1 or e < 0): return True
        if a.k == "paren" and e > 0 and len(a.a[0].a[0]) * 1 <= 30: return True
    return False
def _fix(p):
    """sqrt(x)^2 -> x ; paren(p)^+ -> p for small p"""
    if not any(_needfix(m) for m, _ in p.a[0]): return p
    r = ZERO
    for m, c in p.a[0]:
        if not _needfix(m):
            r = padd(r, mk("P", ((m, c),))); continue
        t = const(c)
        for a, e in m:
            if a.k == "fn" and a.a[0] == "sqrt" and (e > 1 or e < 0):
                q, rem = divmod(e, 2)
                base = a.a[1]
                if is_poly(base):
                    f = ppow(base, q)
                    t = _rawmul(t, f)
                    if rem: t = _rawmul(t, atom(a))
                else:
                    t = _rawmul(t, atom(a, e))
            elif a.k == "paren" and e > 0 and len(t.a[0]) * len(a.a[0].a[0]) ** e <= POLY_CAP:
                for _ in range(e): t = _rawmul(t, a.a[0])
            else:
                t = _rawmul(t, atom(a, e))
        r = padd(r, t)
    return r
def _rawmul(a, b):
    d = {}
    for m1, c1 in a.a[0]:
        for m2, c2 in b.a[0]:
            m = _monomul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)

def _content(p):
    """split p = c * mono * q with q having leading coefficient 1 and no common monomial factor"""
    items = p.a[0]
    lead = items[0][1]
    common = dict(items[0][0])
    for m, _ in items[1:]:
        dm = dict(m)
        for a in list(common):
            e = min(common[a], dm.get(a, 0))
            if common[a] < 0 and dm.get(a, 0) < 0: e = min(common[a], dm[a])
            elif common[a] < 0 or dm.get(a, 0) < 0:
                e = min(common[a], dm.get(a, 0))
            if e == 0: del common[a]
            else: common[a] = e
        for a, e in dm.items():
            if e < 0 and a not in common and a not in dict(items[0][0]): common[a] = e
    return lead, tuple(sorted(common.items(), key=lambda t: t[0].id))

def wrapnorm(p):
    if len(p.a[0]) <= 1: return p
    lead, cm = _content(p)
    inv = tuple((a, -e) for a, e in cm)
    q = _rawmul(pscale(p, 1 / lead), mk("P", ((inv, Fraction(1)),)) if inv else ONE)
    return _rawmul(atom(mk("paren", q)), mk("P", ((cm, lead),)))

def ppow(p, e):
    if e == 0: return ONE
    if e > 0:
        r = p
        for _ in range(e - 1): r = pmul(r, p)
        return r
    # negative
    if not p.a[0]: return atom(mk("fn", "div0", ZERO))
    if len(p.a[0]) == 1:
        m, c = p.a[0][0]
        return _fix(mk("P", ((tuple((a, x * e) for a, x in m), Fraction(1) / c ** (-e)),)))
    lead, cm = _content(p)
    inv = tuple((a, -x) for a, x in cm)
    q = _rawmul(pscale(p, 1 / lead), mk("P", ((inv, Fraction(1)),)) if inv else ONE)
    r = mk("P", ((tuple((a, x * e) for a, x in cm), Fraction(1) / lead ** (-e)),))
    return _fix(_rawmul(r, atom(mk("paren", q), e)))

def pdiv(a, b):
    if is_const(b) and cval(b) != 0: return pscale(a, 1 / cval(b))
    if a is b: return ONE
    return pmul(a, ppow(b, -1))

def rat_zero(d):
    """is the rational function d identically 0 (clear paren denominators)?"""
    seen = 0
    while seen < 12:
        if not d.a[0]: return True
        dens = {}
        for m, _ in d.a[0]:
            for a, e in m:
                if a.k == "paren" and e < 0: dens[a] = max(dens.get(a, 0), -e)
        pos = any(a.k == "paren" and e > 0 for m, _ in d.a[0] for a, e in m)
        if not dens and not pos: return False
        if dens:
            a, e = sorted(dens.items(), key=lambda t: t[0].id)[0]
            r = {}
            for m, c in d.a[0]:
                cur = dict(m).get(a, 0)
                m2 = tuple((x, y) for x, y in m if x is not a)
                k = cur + e
                t = {m2: c}
                for _ in range(k):
                    t2 = {}
                    for mm, cc in t.items():
                        for pm, pc in a.a[0].a[0]:
                            mmm = _monomul(mm, pm); t2[mmm] = t2.get(mmm, 0) + cc * pc
                    t = t2
                    if len(t) > 20000: return False
                for mm, cc in t.items(): r[mm] = r.get(mm, 0) + cc
            d = _mkpoly(r)
            d = _fix2(d)
        else:
            d2 = _expand_paren(d)
            if d2 is d: return False
            d = d2
        seen += 1
    return False
def _fix2(d):
    try: return _fix(d)
    except RecursionError: return d
def _expand_paren(d):
    r = ZERO
    for m, c in d.a[0]:
        t = const(c)
        for a, e in m:
            if a.k == "paren" and e > 0:
                for _ in range(e): t = _rawmul(t, a.a[0])
                if len(t.a[0]) > 5000: return d
            else: t = _rawmul(t, atom(a, e))
        r = padd(r, t)
    return r

# ---------------------------------------------------------------- decision diagrams over conditions
# value / boolean / array / pointer: leaf | mk('ite', cond_atom, then, else); cond atoms ordered by id
_ite_memo = {}
def _top(n): return n.a[0] if n.k == "ite" else None
def _cof(n, c, b):
    if n.k == "ite" and n.a[0] is c: return n.a[1] if b else n.a[2]
    return n
def mkite(c, t, e):
    """c: condition atom, ordered above t and e"""
    if t.k == "ite" and c.k == "zero" and t.a[0].k == "pos" and t.a[0].a == c.a: t = t.a[2]
    if e.k == "ite" and c.k == "zero" and e.a[0].k == "pos" and e.a[0].a == c.a and e.a[2] is t: return e
    if t is e: return t
    if c.k == "zero":
        # values that coincide when c holds
        d = c.a[0]
        if t.k == "P" and e.k == "P":
            df = psub(t, e)
            if _multiple(df, d): return e
    if c.k == "pos" and c.a[1] == "i" and t.k == "P" and e.k == "P" and known_nonneg(c.a[0]):
        # x > 0 with x >= 0 known: otherwise x is zero
        if _multiple(psub(t, e), c.a[0]): return t
    if GUARDED[0] and c.k in ("pos", "zero") and c.a[1] == "r" and t.k == "P" and e.k == "P" and t.a[0] and e.a[0]:
        r = _safediv(c, t, e)
        if r is not None: return r
    return mk("ite", c, t, e)
def _multiple(p, d):
    if p is d or not p.a[0]: return True
    if len(d.a[0]) == 1 and len(p.a[0]) >= 1:
        # d monomial: every monomial of p contains it with a positive exponent
        m = d.a[0][0][0]
        if not m: return False
        for mm, _ in p.a[0]:
            dd = dict(mm)
            for a, e in m:
                if e > 0 and dd.get(a, 0) < e: return False
                if e < 0 and dd.get(a, 0) > e: return False
        return True
    if len(p.a[0]) == len(d.a[0]):
        r = p.a[0][0][1] / d.a[0][0][1]
        return p is pscale(d, r)
    return False
GUARDED = [True]
def _special_atom(a, e): return e < 0 or a.k == "gval" or (a.k == "fn" and a.a[0] == "sqrt")
def _safediv(c, t, e):
    """(c ? x*k : x/y) -> x * (c ? k : 1/y): guarded divisions stay products instead of splitting every later value"""
    if len(t.a[0]) != len(e.a[0]): return None
    if not any(x < 0 or _a.k == "gval" for p in (t, e) for m, _ in p.a[0] for _a, x in m): return None
    if special(t) or special(e): return None
    lt, ct = _content(t); le, ce = _content(e)
    pt = tuple((a, x) for a, x in ct if not _special_atom(a, x)); pe = tuple((a, x) for a, x in ce if not _special_atom(a, x))
    if pt != pe: return None
    if len(t.a[0]) > 1:
        qt = _rawmul(pscale(t, 1 / lt), mk("P", ((tuple((a, -x) for a, x in ct), Fraction(1)),)))
        qe = _rawmul(pscale(e, 1 / le), mk("P", ((tuple((a, -x) for a, x in ce), Fraction(1)),)))
        if qt is not qe: return None
    else: qt = ONE
    st = dict((a, x) for a, x in ct if _special_atom(a, x)); se = dict((a, x) for a, x in ce if _special_atom(a, x))
    common = {}
    for a in st:
        if a in se:
            k = min(st[a], se[a]) if st[a] > 0 else max(st[a], se[a])
            if (st[a] > 0) == (se[a] > 0) and a.k != "gval": common[a] = k
    if common == st == se and lt == le: return None
    srt = lambda d: tuple(sorted(((a, x) for a, x in d.items() if x), key=lambda z: z[0].id))
    rt = _ungval(srt({a: x - common.get(a, 0) for a, x in st.items()}), lt)
    re_ = _ungval(srt({a: x - common.get(a, 0) for a, x in se.items()}), le)
    if rt is None or re_ is None: return None
    g = mk("ite", c, rt, re_)
    if is_const(rt) and is_const(re_): return None
    k = _leadc(g)
    if k is None: return None
    g = atom(mk("gval", _rawscale(g, ONE, 1 / k)))
    return _rawmul(_rawmul(pscale(mk("P", ((pt, Fraction(1)),)), k), qt), _rawmul(mk("P", ((srt(common), Fraction(1)),)), g))
def _ungval(m, c):
    """a monomial with at most one guarded factor as a guarded value"""
    gs = [(a, x) for a, x in m if a.k == "gval"]
    rest = mk("P", ((tuple((a, x) for a, x in m if a.k != "gval"), c),))
    if not gs: return rest
    if len(gs) > 1 or gs[0][1] != 1: return None
    return _rawscale(gs[0][0].a[0], rest, 1)
def _rawscale(v, p, k):
    """multiply every leaf, keeping the diagram as it is (no re-extraction of guarded factors)"""
    if v.k != "ite": return _rawmul(pscale(aslf(v), k), p)
    return mk("ite", v.a[0], _rawscale(v.a[1], p, k), _rawscale(v.a[2], p, k))

def ite(c, t, e):
    """c boolean diagram"""
    if c is TRUE: return t
    if c is FALSE: return e
    if t is e: return t
    if t is TRUE and e is FALSE: return c
    key = (c, t, e)
    r = _ite_memo.get(key)
    if r is not None: return r
    tops = [x for x in (_top(c), _top(t), _top(e)) if x is not None]
    v = min(tops, key=lambda n: n.id)
    r = mkite(v, ite(_cof(c, v, True), _cof(t, v, True), _cof(e, v, True)),
              ite(_cof(c, v, False), _cof(t, v, False), _cof(e, v, False)))
    _ite_memo[key] = r
    return r
def bnot(c): return ite(c, FALSE, TRUE)
def band(a, b): return ite(a, b, FALSE)
def bor(a, b): return ite(a, TRUE, b)
def batom(c): return mkite(c, TRUE, FALSE)

def constrain(f, c):
    """simplify f assuming c (restrict)"""
    if c is TRUE or c is FALSE or f.k != "ite": return f
    return _constrain(f, c, {})
def _constrain(f, c, memo):
    if c is TRUE or c is FALSE or f.k != "ite": return f
    key = (f, c)
    if key in memo: return memo[key]
    fv, cv = f.a[0], (c.a[0] if c.k == "ite" else None)
    if cv is None: r = f
    elif fv is cv:
        if c.a[1] is FALSE: r = _constrain(f.a[2], c.a[2], memo)
        elif c.a[2] is FALSE: r = _constrain(f.a[1], c.a[1], memo)
        else: r = mkite(fv, _constrain(f.a[1], c.a[1], memo), _constrain(f.a[2], c.a[2], memo))
    elif fv.id < cv.id:
        r = mkite(fv, _constrain(f.a[1], c, memo), _constrain(f.a[2], c, memo))
    else:
        r = _constrain(f, bor(c.a[1], c.a[2]), memo)
    memo[key] = r
    return r

_ap1 = {}
def map1(name, f, v):
    if v.k != "ite": return f(v)
    key = (name, v)
    r = _ap1.get(key)
    if r is None:
        r = ite(batom(v.a[0]), map1(name, f, v.a[1]), map1(name, f, v.a[2]))
        _ap1[key] = r
    return r
_ap2 = {}
def leaves(v):
    st = [v]; seen = set(); out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.k == "ite": st += [x.a[1], x.a[2]]
        else: out.append(x)
    return out
def nodes(v, cap=100000):
    seen = set(); st = [v]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.k == "ite": st.append(x.a[1]); st.append(x.a[2])
        if len(seen) > cap: break
    return len(seen)
ITE_CAP = 600
def valatom(v):
    """treat a guarded value as one (transparent) atom"""
    if v.k != "ite": return v
    c = _leadc(v)
    if c is None or c == 1: return atom(mk("val", v))
    return pscale(atom(mk("val", map1("scale%s" % (1 / c), lambda x: pscale(aslf(x), 1 / c), v))), c)
def _leadc(v):
    """coefficient that a guarded value is normalised by: leading one of the first non-zero leaf"""
    while v.k == "ite":
        r = _leadc(v.a[1])
        if r is not None: return r
        v = v.a[2]
    v = aslf(v)
    if v.k != "P" or not v.a[0]: return None
    return v.a[0][0][1]
def map2(name, f, a, b):
    if a.k != "ite" and b.k != "ite": return f(a, b)
    key = (name, a, b)
    r = _ap2.get(key)
    if r is not None: return r
    if a.k == "ite" and b.k == "ite":
        na, nb = nodes(a, 300), nodes(b, 300)
        if na * nb > ITE_CAP:
            if na >= nb: a2, b2 = valatom(a), b
            else: a2, b2 = a, valatom(b)
            r = map2(name, f, a2, b2); _ap2[key] = r; return r
    r = _map2(name, f, a, b)
    _ap2[key] = r
    return r
def _map2(name, f, a, b):
    if a.k != "ite" and b.k != "ite": return f(a, b)
    key = (name + "#", a, b)
    r = _ap2.get(key)
    if r is not None: return r
    tops = [x for x in (_top(a), _top(b)) if x is not None]
    v = min(tops, key=lambda n: n.id)
    r = ite(batom(v), _map2(name, f, _cof(a, v, True), _cof(b, v, True)), _map2(name, f, _cof(a, v, False), _cof(b, v, False)))
    _ap2[key] = r
    return r

def aslf(v):
    """numeric leaf of any node"""
    if v.k in ("P",): return v
    if v is TRUE: return ONE
    if v is FALSE: return ZERO
    return atom(v)
def add(a, b): return map2("add", lambda x, y: padd(aslf(x), aslf(y)), a, b)
def sub(a, b): return map2("sub", lambda x, y: psub(aslf(x), aslf(y)), a, b)
def mul(a, b): return map2("mul", lambda x, y: pmul(aslf(x), aslf(y)), a, b)
def div(a, b): return map2("div", lambda x, y: pdiv(aslf(x), aslf(y)), a, b)
def neg(a): return map1("neg", lambda x: pneg(aslf(x)), a)

def special(x):
    """contains inf/nan constant?"""
    return x.k == "P" and any(a.k == "fn" and a.a[0] in ("INF", "NAN") for m, _ in x.a[0] for a, _e in m)
INFA = mk("fn", "INF"); NANA = mk("fn", "NAN")
INF = atom(INFA); NAN = atom(NANA)

# hooks for integer knowledge, set by the value-flow engine
def nonneg_atom(a): return False
HOOK = {"nonneg": lambda a: False}

def known_nonneg(p):
    """all coefficients nonneg and all atoms known nonneg"""
    for m, c in p.a[0]:
        if c < 0: return False
        for a, e in m:
            if not HOOK["nonneg"](a): return False
    return True

def _signnorm(p):
    """p -> (+1/-1, q) with q canonical up to positive scale"""
    items = p.a[0]
    lead = items[0][1] if items[0][0] != () or len(items) == 1 else items[1][1]
    q = pscale(p, 1 / abs(lead))
    return (1, q) if lead > 0 else (-1, pneg(q))

def _intscale(p):
    from math import gcd
    den = 1
    for _, c in p.a[0]: den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in p.a[0]:
        if m != (): g = gcd(g, abs(int(c * den)))
    return den, g

def _pos_leaf_real(p):
    if is_const(p): return TRUE if cval(p) > 0 else FALSE
    p = _strip_pos(p)
    if is_const(p): return TRUE if cval(p) > 0 else FALSE
    v = _vsinf(p)
    if v: return FALSE if v[0] < 0 else bnot(isinf(pneg(v[1])))
    s, q = _signnorm(p)
    if s > 0: return batom(mk("pos", q, "r"))
    return band(bnot(batom(mk("pos", q, "r"))), bnot(_zero_atom(q, "r")))
def _strip_pos(p):
    """drop even-power / inf factors in a single monomial sign test"""
    if len(p.a[0]) == 1:
        m, c = p.a[0][0]
        m2 = []
        for a, e in m:
            if a is INFA: continue
            if a.k == "fn" and a.a[0] == "exp": continue
            m2.append((a, e))
        if tuple(m2) != m:
            return mk("P", ((tuple(m2), c),))
    return p
def _vsinf(p):
    """p = r + inf or r - inf, a comparison of r with infinity: (sign, r)"""
    infs = [(m, c) for m, c in p.a[0] if m == ((INFA, 1),)]
    if len(infs) != 1: return None
    r = psub(p, mk("P", tuple(infs)))
    return (1 if infs[0][1] > 0 else -1), r
def isinf_any(r):
    """r is infinite, of either sign"""
    if len(r.a[0]) == 1 and r.a[0][0][0] == ((INFA, 1),): return TRUE
    if is_const(r) or special(r): return FALSE
    return batom(mk("isinf", _signnorm(r)[1]))
def isinf(r):
    """r == +inf"""
    if is_const(r) or special(r): return FALSE
    s, q = _signnorm(r)
    at = batom(mk("isinf", q))
    return band(at, bnot(_pos_leaf_real(pneg(q) if s > 0 else q)))
def _pos_leaf_int(p):
    """p > 0 over the integers"""
    if is_const(p): return TRUE if cval(p) > 0 else FALSE
    den, g = _intscale(p)
    if g == 0: return batom(mk("pos", p, "i"))
    # g*X + c0 > 0  with integer X  ->  X + floor-normalised constant
    p = pscale(p, Fraction(den, g))
    c0 = dict(p.a[0]).get((), Fraction(0))
    if c0.denominator != 1:
        import math
        # X > -c0  <=> X >= floor(-c0)+1 <=> X - floor(-c0) > 0
        p = padd(p, const(-c0 + (-math.floor(-c0))))
    lead = p.a[0][0][1] if p.a[0][0][0] != () else p.a[0][1][1]
    # p = L + c with L without constant
    c = dict(p.a[0]).get((), Fraction(0))
    if lead < 0:
        # L + c > 0  <=>  not( -L - c >= 0 ) <=> not( -L - c + 1 > 0 )
        return bnot(_posi(padd(pneg(p), ONE)))
    return _posi(p)
def _posi(p):
    c = dict(p.a[0]).get((), Fraction(0))
    l = psub(p, const(c))
    if known_nonneg(l):
        if c > 0: return TRUE
    if known_nonneg(pneg(l)) and c <= 0: return FALSE
    return batom(mk("pos", p, "i"))

def _zero_atom(q, kind):
    return batom(mk("zero", q, kind))
def _zero_leaf(kind):
    def f(p):
        if is_const(p): return TRUE if cval(p) == 0 else FALSE
        if special(p):
            v = _vsinf(p) if kind == "r" else None
            return FALSE if v is None else isinf(pneg(v[1]) if v[0] > 0 else v[1])
        s, q = _signnorm(p)
        if kind == "i":
            if known_nonneg(q): return bnot(_pos_leaf_int(q))
            if known_nonneg(pneg(q)): return bnot(_pos_leaf_int(pneg(q)))
        return _zero_atom(q, kind)
    return f
def pos(d, kind):
    if kind == "i": return map1("posi", lambda x: _pos_leaf_int(aslf(x)), d)
    return map1("posr", lambda x: _pos_leaf_real(aslf(x)), d)
def iszero(d, kind):
    return map1("zero" + kind, lambda x: _zero_leaf(kind)(aslf(x)), d)

# ---------------------------------------------------------------- functions
def fn(name, *args):
    if name == "sqrt":
        return map1("sqrt", _sqrt, args[0])
    if name == "fabs":
        return map1("fabs", lambda x: ite(_pos_leaf_real(x), x, pneg(x)), args[0])
    return atom(mk("fn", name, *args))
def _sqrt(x):
    x = aslf(x)
    if is_const(x):
        c = cval(x)
        if c >= 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator: return const(Fraction(a, b))
        return atom(mk("fn", "sqrt", x))
    # pull out the positive rational square of the leading coefficient so that scaled arguments agree
    return atom(mk("fn", "sqrt", x))

# ---------------------------------------------------------------- substitution
def open_binder(body, h):
    """instantiate canonical var h of body by a fresh loop variable"""
    f = fresh_lv(None)
    return f, subst(body, {mk("var", h): f})

_lv = [0]
RANGE = {}
def fresh_lv(ub, lb=None):
    _lv[0] += 1
    n = mk("lv", _lv[0])
    if ub is not None: RANGE[n] = ub
    return n

class Subst:
    """Substitution with re-normalisation.  keys: lv atoms, hdr arrays, sel atoms, var atoms (internal)."""
    def __init__(s, mp):
        s.mp = mp
        s.keys = frozenset(mp)
        s.hasvar = any(k.k == "var" for k in mp)
        s.hassel = any(k.k not in ("var", "lv", "hdr") for k in mp)
        s.vmax = max([k.a[0] for k in mp if k.k == "var"], default=0)
        s.fvs = frozenset(x for k in mp for x in ((k,) if k.k in ("lv", "hdr") else k.fv))
        s.memo = {}
    def touches(s, n):
        if s.hasvar and n.h >= 1 and not n.h < min(k.a[0] for k in s.mp if k.k == "var"): return True
        return bool(s.fvs and n.fv and not s.fvs.isdisjoint(n.fv))
    def __call__(s, n):
        r = s.mp.get(n)
        if r is not None: return r
        if not s.touches(n): return n
        r = s.memo.get(n)
        if r is None:
            r = s.go(n); s.memo[n] = r
        return r
    def num(s, n):
        r = s(n)
        return r
    def tup(s, t): return tuple(s(x) if isinstance(x, N) else (s.tup(x) if isinstance(x, tuple) else x) for x in t)
    def go(s, n):
        k = n.k
        if k == "P":
            am = {}
            for m, c in n.a[0]:
                for a, e in m:
                    if a not in am: am[a] = s.at(a)
            acc = {}; rest = []
            for m, c in n.a[0]:
                if all(e == 1 and am[a].k != "ite" and len(aslf(am[a]).a[0]) == 1 or am[a].k == "P" and len(am[a].a[0]) == 1 and am[a].a[0][0][1] == 1 for a, e in m):
                    mm = (); cc = c
                    for a, e in m:
                        (m1, c1), = aslf(am[a]).a[0]
                        if e != 1: m1 = tuple((x, y * e) for x, y in m1)
                        mm = _monomul(mm, m1); cc = cc * c1
                    acc[mm] = acc.get(mm, 0) + cc
                else: rest.append((m, c))
            r = _fix(_mkpoly(acc))
            for m, c in rest:
                t = const(c)
                for a, e in m:
                    t = mul(t, vpow(am[a], e))
                r = add(r, t)
            return r
        if k == "ite":
            return ite(s.cond(n.a[0]), s(n.a[1]), s(n.a[2]))
        return s.at(n)
    def cond(s, c):
        r = s.mp.get(c)
        if r is not None: return r
        if not s.touches(c): return batom(c)
        k = c.k
        if k == "pos": return pos(s(c.a[0]), c.a[1])
        if k == "zero": return iszero(s(c.a[0]), c.a[1])
        if k == "any":
            return s.quant(c, lambda N_, body: mk_any(N_, body))
        if k == "bopq":
            return batom(mk("bopq", *s.tup(c.a)))
        if k == "isnan": return isnan(s(c.a[0]))
        if k == "isinf": return map1("isinf", lambda x: isinf_any(aslf(x)), s(c.a[0]))
        if k == "ptrnull": return ptrnull(s(c.a[0]))
        return batom(mk(k, *s.tup(c.a)))
    def quant(s, n, build):
        """n = (N, h, body): capture-avoiding"""
        N_, h, body = n.a[0], n.a[1], n.a[2]
        f = fresh_lv(N_)
        b = subst(body, {mk("var", h): f})
        return build_q(build, s(N_), f, s(b))
    def at(s, a):
        """value (diagram) for an atom or array / pointer node"""
        r = s.mp.get(a)
        if r is not None: return aslf(r) if r.k in ("lv", "var", "sel") else r
        if not s.touches(a): return aslf_atom(a)
        r = s.memo.get((a, "at"))
        if r is None:
            r = s._at(a); s.memo[(a, "at")] = r
        return r
    def _at(s, a):
        k = a.k
        if k == "sel":
            return select(s(a.a[0]), s.tup(a.a[1]))
        if k == "sum":
            return s.quant(a, mk_sum)
        if k == "fn":
            return fn(*s.tup(a.a))
        if k == "paren": return s(a.a[0])
        if k in ("val", "gval"): return s(a.a[0])
        if k == "let": return mk_let(a.a[0], s.tup(a.a[1]))
        if k == "ptr": return mkptr(a.a[0], s.tup(a.a[1]))
        if k == "eff":
            return subst_eff(s, a)
        if k == "fold":
            return aslf_atom(mk("fold", *s.tup(a.a)))
        if k in ("pos", "zero", "any", "bopq", "isnan", "isinf", "ptrnull"):
            return s.cond(a)
        return aslf_atom(mk(k, *s.tup(a.a)))
ARRK = ("init", "eff", "hdr", "opq", "ptr", "null", "itea", "T", "F", "fp")
def aslf_atom(a):
    if a.k in ARRK or a.k == "P" or a.k == "ite": return a
    if a.k in ("pos", "zero", "any", "bopq", "isnan", "isinf", "ptrnull"): return batom(a)
    return atom(a)
def vpow(v, e):
    return map1("pow%d" % e, lambda x: ppow(aslf(x), e), v)
def build_q(build, N_, f, body):
    return map1q(lambda n: build(n, close(f, body)), N_)
def map1q(f, v):
    if v.k != "ite": return f(v)
    return ite(batom(v.a[0]), map1q(f, v.a[1]), map1q(f, v.a[2]))
_smemo = {}
def subst(n, mp):
    return Subst({k: v for k, v in mp.items()})(n)
def close(f, body):
    """abstract loop variable f in body: returns (h, body')"""
    h = body.h + 1
    return h, subst(body, {f: mk("var", h)})

def ptrnull(p):
    def leaf(x):
        if x.k == "null": return TRUE
        if x.k == "ptr":
            return batom(mk("ptrnull", x)) if may_be_null(x) else FALSE
        return batom(mk("ptrnull", x))
    return map1q(leaf, p)
def may_be_null(x):
    return True
def isnan(v):
    def leaf(x):
        if is_const(x): return FALSE
        if x is NAN: return TRUE
        return batom(mk("isnan", x))
    return map1("isnan", leaf, v)

# ---------------------------------------------------------------- pointers
def mkptr(path, idx):
    """idx: tuple of values (diagrams are lifted)"""
    for i, x in enumerate(idx):
        if x.k == "ite":
            c = x.a[0]
            return ite(batom(c), mkptr(path, idx[:i] + (x.a[1],) + idx[i + 1:]), mkptr(path, idx[:i] + (x.a[2],) + idx[i + 1:]))
    return mk("ptr", path, tuple(idx))
NULL = mk("null")

# ---------------------------------------------------------------- sums
def mk_sum(N_, hb):
    """sum over v in [0,N) of body; N leaf, hb=(h, body)"""
    h, body = hb
    N_ = aslf(N_)
    return sum_of(N_, h, body)
def sum_of(N_, h, body):
    v = mk("var", h)
    if is_const(N_):
        c = cval(N_)
        if c <= 0: return ZERO
        if c <= 6:
            r = ZERO
            for i in range(int(c)): r = add(r, subst(body, {v: const(i)}))
            return r
    else:
        k = min_offset(body, h) if body.k != "ite" or v_free(body.a[0], h) else 0
        if k and abs(k) <= 6:
            g = subst(body, {v: padd(atom(v), const(-k))})
            r = sum_of(padd(N_, const(k)), h, g)
            for i in range(abs(k)):
                if k > 0: r = sub(r, subst(g, {v: const(i)}))
                else: r = add(r, subst(g, {v: const(-i - 1)}))
            return r
        c = dict(N_.a[0]).get((), Fraction(0))
        if c != 0 and c.denominator == 1 and abs(c) <= 6:
            base = psub(N_, const(c))
            r = sum_of(base, h, body)
            if c > 0:
                for i in range(int(c)): r = add(r, subst(body, {v: padd(base, const(i))}))
            else:
                for i in range(int(-c)): r = sub(r, subst(body, {v: padd(base, const(-i - 1))}))
            return r
    if body.k == "ite":
        if v_free(body.a[0], h):
            # condition depends on the variable: ite(c,a,0)-style split keeps a canonical additive form
            c = _free_cond(body, h)
            if c is not None:
                c = batom(c)
                return ite(c, sum_of(N_, h, constrain(body, c)), sum_of(N_, h, constrain(body, bnot(c))))
            return _sum_leaf(N_, h, valatom(body))
        return ite(batom(body.a[0]), sum_of(N_, h, body.a[1]), sum_of(N_, h, body.a[2]))
    return _sum_leaf(N_, h, aslf(body))
_fc = {}
def _free_cond(body, h):
    """a condition inside the diagram that does not depend on the bound variable"""
    key = (body, h)
    if key in _fc: return _fc[key]
    r = None; seen = set(); st = [body]
    while st:
        x = st.pop()
        if x.k != "ite" or x in seen: continue
        seen.add(x)
        if not v_free(x.a[0], h) and (r is None or x.a[0].id < r.id): r = x.a[0]
        if len(seen) > 400: r = None; break
        st += [x.a[1], x.a[2]]
    _fc[key] = r
    return r
_mo = {}
def min_offset(b, h):
    """smallest constant offset with which the variable appears in an index"""
    key = (b, h)
    if key in _mo: return _mo[key]
    v = mk("var", h); offs = []
    seen = set()
    def walk(n):
        if n in seen or n.h < h: return
        seen.add(n)
        if n.k == "sel":
            for ix in n.a[1]:
                if ix.k == "P":
                    d = dict(ix.a[0])
                    if d.get(((v, 1),)) == 1: offs.append(d.get((), Fraction(0)))
        for x in walk_children(n.a): walk(x)
    walk(b)
    r = min(offs) if offs else 0
    r = int(r) if r == int(r) else 0
    _mo[key] = r
    return r
def v_free(n, h):
    """does canonical var h occur free in n?"""
    if n.h < h: return False
    return subst(n, {mk("var", h): mk("lv", 0)}) is not n if n.k != "pos" and n.k != "zero" else _cond_has(n, h)
def _cond_has(c, h):
    r = Subst({mk("var", h): mk("lv", 0)}).cond(c)
    return r is not batom(c)
def _sum_leaf(N_, h, body):
    v = mk("var", h)
    r = ZERO
    for m, c in body.a[0]:
        inv, dep = [], []
        for a, e in m:
            (dep if a.h >= h and v_free(a, h) else inv).append((a, e))
        inv = mk("P", ((tuple(inv), c),))
        if not dep:
            r = add(r, pmul(inv, N_)); continue
        if len(dep) == 1 and dep[0] == (v, 1):
            # arithmetic series
            r = add(r, pmul(inv, pscale(pmul(N_, psub(N_, ONE)), Fraction(1, 2)))); continue
        d = mk("P", ((tuple(dep), Fraction(1)),))
        # canonical binder height for this monomial
        r = add(r, mul(inv, _sum_atom(N_, v, d)))
    return r
def _sum_atom(N_, v, d):
    f = fresh_lv(N_)
    b = subst(d, {v: f})
    h2 = b.h + 1
    b2 = subst(b, {f: mk("var", h2)})
    # reversed index form
    if any_rev(b2, h2, N_):
        g = fresh_lv(N_)
        b3 = subst(b, {f: padd(psub(N_, ONE), pneg(atom(g)))})
        b4 = close(g, b3)
        b2, h2 = b4[1], b4[0]
        if not (b2.k == "P"): return sum_of(N_, h2, b2)
    if b2.k != "P" or len(b2.a[0]) != 1 or b2.a[0][0][1] != 1:
        return atom(mk("sum", N_, h2, b2))
    return atom(mk("sum", N_, h2, b2))
def any_rev(b, h, N_):
    """does the variable occur with coefficient -1 together with N in an index position (reversed loop)?"""
    hit = [0, 0]
    v = mk("var", h)
    seen = set()
    def walk(n):
        if n in seen or n.h < h: return
        seen.add(n)
        if n.k == "sel":
            for ix in n.a[1]:
                if ix.k == "P":
                    d = dict(ix.a[0])
                    c = d.get(((v, 1),))
                    if c is not None:
                        if c < 0: hit[0] += 1
                        else: hit[1] += 1
        for x in walk_children(n.a): walk(x)
    walk(b)
    return hit[0] > 0 and hit[1] == 0

def mk_any(N_, hb):
    h, body = hb
    if body is FALSE: return FALSE
    if body is TRUE: return pos(N_, "i")
    N_ = aslf(N_)
    if is_const(N_) and cval(N_) <= 4:
        r = FALSE
        for i in range(int(max(0, cval(N_)))): r = bor(r, subst(body, {mk("var", h): const(i)}))
        return r
    return batom(mk("any", N_, h, body))

# ---------------------------------------------------------------- arrays: filled in by arrays.py
def select(arr, idx): raise NotImplementedError
def subst_eff(s, a): raise NotImplementedError

# ---------------------------------------------------------------- printing
def show(n, d=0):
    if not isinstance(n, N): return str(n)
    k = n.k
    if d > 14: return "…"
    if k == "P":
        if not n.a[0]: return "0"
        out = []
        for m, c in n.a[0]:
            f = []
            for a, e in m: f.append(show(a, d + 1) + ("" if e == 1 else "^%d" % e))
            cs = str(c) if c.denominator < 10**6 else "%.12g" % float(c)
            if not f: out.append(cs)
            elif c == 1: out.append("*".join(f))
            elif c == -1: out.append("-" + "*".join(f))
            else: out.append(cs + "*" + "*".join(f))
        s = " + ".join(out).replace("+ -", "- ")
        return s if len(out) == 1 or d == 0 else "(" + s + ")"
    if k == "ite": return "(%s ? %s : %s)" % (show(n.a[0], d + 1), show(n.a[1], d + 1), show(n.a[2], d + 1))
    if k == "pos": return show(n.a[0], d + 1) + ">0"
    if k == "zero": return show(n.a[0], d + 1) + "==0"
    if k == "sel":
        ix = list(n.a[1])
        base = n.a[0]
        if base.k == "init":
            return showpath(base.a[0], ix, d)
        return "{%s}[%s]" % (show(base, d + 1), ",".join(show(i, d + 1) for i in ix))
    if k == "ptr": return "&" + showpath(n.a[0], list(n.a[1]), d)
    if k == "sum": return "SUM(v%d<%s: %s)" % (n.a[1], show(n.a[0], d + 1), show(n.a[2], d + 1))
    if k == "any": return "ANY(v%d<%s: %s)" % (n.a[1], show(n.a[0], d + 1), show(n.a[2], d + 1))
    if k == "var": return "v%d" % n.a[0]
    if k == "lv": return "i%d" % n.a[0]
    if k == "sym": return str(n.a[0])
    if k == "fn":
        return "%s(%s)" % (n.a[0], ", ".join(show(x, d + 1) for x in n.a[1:]))
    if k in ("paren", "val", "gval"): return "(%s)" % show(n.a[0], d + 1)
    if k == "init": return n.a[0]
    if k == "T": return "true"
    if k == "F": return "false"
    if k == "null": return "NULL"
    if k == "eff":
        _, kind, Ns, hs, g, idx, val = n.a
        q = ",".join("v%d<%s" % (h, show(x, d + 1)) for h, x in zip(hs, Ns))
        return "%s; %s%s[%s]%s=%s%s" % (show(n.a[0], d), "for " + q + ": " if q else "", "", ",".join(show(i, d + 1) for i in idx),
            "+" if kind == "add" else "", show(val, d + 1), "" if g is TRUE else " if " + show(g, d + 1))
    return "%s(%s)" % (k, ", ".join(show(x, d + 1) if isinstance(x, N) else ("[" + ",".join(show(y, d + 1) for y in x) + "]" if isinstance(x, tuple) else str(x)) for x in n.a))
def showpath(p, ix, d):
    """path string with '[]' placeholders"""
    out = []
    parts = p.split("[]")
    for i, seg in enumerate(parts):
        out.append(seg)
        if i < len(parts) - 1:
            t = ix[i] if i < len(ix) else None
            s = show(t, d + 1) if t is not None else "?"
            out.append("" if s == "0" and i == 0 and not p.endswith("[]" * 1) else "[%s]" % s)
    return "".join(out).replace("[0].", "->")


# ---------------------------------------------------------------- named intermediate values
# let(F, (x1..xn)): the value of the closed term F over parameters rv1..rvn, applied to x1..xn.  Keeps big intermediate
# results as one symbol; only the arguments take part in substitution.
CUT = [3000]
_rv = {}
def rvar(i):
    return mk("rv", i)
class _NoCut(Exception): pass
_cutmemo = {}
def cut(v):
    if v.size <= CUT[0] or v.k not in ("P", "ite"): return v
    r = _cutmemo.get(v)
    if r is None:
        r = _cutmemo[v] = _cut(v)
    return r
def _cut(v):
    args = {}
    memo = {}
    def param(a):
        r = args.get(a)
        if r is None: r = args[a] = rvar(len(args))
        return r
    def num(n):
        if n in memo: return memo[n]
        if n.k == "P":
            items = []
            for m, c in n.a[0]:
                items.append((tuple((at(a), e) for a, e in m), c))
            r = mk("P", tuple(items))      # structure kept as is: evaluation only
        elif n.k == "ite":
            r = mk("ite", cond(n.a[0]), num(n.a[1]), num(n.a[2]))
        elif n.k in ("T", "F"): r = n
        else: raise _NoCut()
        memo[n] = r
        return r
    def at(a):
        if a in memo: return memo[a]
        k = a.k
        if k in ("paren", "val", "gval"): r = mk(k, num(a.a[0]))
        elif k == "fn": r = mk("fn", *[(num(x) if x.k in ("P", "ite") else at(x)) if isinstance(x, N) else x for x in a.a])
        elif k in ("sel", "sum", "prod", "fold", "let", "lv", "var", "sym", "fopq", "first"): r = param(a)
        else: raise _NoCut()
        memo[a] = r
        return r
    def cond(c):
        if c in memo: return memo[c]
        if c.k in ("pos", "zero"): r = mk(c.k, num(c.a[0]), c.a[1])
        elif c.k in ("isnan", "isinf"): r = mk(c.k, num(c.a[0]))
        else: raise _NoCut()
        memo[c] = r
        return r
    try: F = num(v)
    except _NoCut: return v
    return atom(mk("let", F, tuple(aslf(a) for a in args)))
def mk_let(F, xs):
    return atom(mk("let", F, tuple(xs)))


_hg = {}
def has_gval(n):
    r = _hg.get(n)
    if r is None:
        r = n.k in ("gval", "let") or any(has_gval(x) for x in walk_children(n.a))
        _hg[n] = r
    return r
class ExpandG(Subst):
    """write guarded factors and named intermediates out again"""
    def __init__(s):
        Subst.__init__(s, {}); s.n = 0
    def touches(s, n): return has_gval(n)
    def _at(s, a):
        if a.k == "let": return subst(a.a[0], {rvar(i): x for i, x in enumerate(a.a[1])}) if False else s(let_body(a))
        return Subst._at(s, a)
def let_body(a):
    return Subst({rvar(i): x for i, x in enumerate(a.a[1])})(a.a[0])
_expmemos = [{}, {}, {}]
_exps = []
def expand_guards(v):
    global _ite_memo, _ap1, _ap2
    sv = (_ite_memo, _ap1, _ap2)
    _ite_memo, _ap1, _ap2 = _expmemos
    GUARDED[0] = False
    try:
        if not _exps: _exps.append(ExpandG())
        return _exps[0](v)
    finally:
        GUARDED[0] = True
        _ite_memo, _ap1, _ap2 = sv
