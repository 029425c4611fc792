"""Decides whether two function summaries agree: per location and per effect region by normal form, then identity test."""
import terms as T, arrays as A, evalt
from terms import mk, TRUE, FALSE, ZERO, bnot
from evalt import Model, Opaque, Skip, close_to, Side, NonTerm
import time, random, math

import re
SCRATCH = re.compile(r"\.work\d\*\[\]$")   # scratch vectors: contents after a call mean nothing
EQUAL, DIFF, UNKNOWN = "equal", "different", "undecided"

class Result:
    def __init__(s, path, status, detail="", how=""):
        s.path, s.status, s.detail, s.how = path, status, detail, how
    def __repr__(s): return "%s %s %s %s" % (s.status, s.path, s.how, s.detail)

def leaf_equal(a, b, depth=0):
    if a is b: return True
    if a.k == "ite" or b.k == "ite":
        if depth > 60: return False
        tops = [x.a[0] for x in (a, b) if x.k == "ite"]
        v = min(tops, key=lambda n: n.id)
        return leaf_equal(T._cof(a, v, True), T._cof(b, v, True), depth + 1) and leaf_equal(T._cof(a, v, False), T._cof(b, v, False), depth + 1)
    if a.k in ("ptr", "null") or b.k in ("ptr", "null"):
        return a.k == b.k == "ptr" and a.a[0] == b.a[0] and all(leaf_equal(x, y) for x, y in zip(a.a[1], b.a[1]))
    a, b = T.aslf(a), T.aslf(b)
    if a.k != "P" or b.k != "P": return False
    return T.rat_zero(T.psub(a, b))

def ground(x):
    """the contents under all writes"""
    if x.k == "ite": return T.ite(T.batom(x.a[0]), ground(x.a[1]), ground(x.a[2]))
    b = A.chain(x)[1]
    return ground(b) if b.k == "ite" else b
def nf_equal(ac, as_):
    """every cell either chain can write has the same normal form in both"""
    if ac is as_: return True
    # what stays unwritten must be the same contents
    if ground(ac) is not ground(as_): return False
    todo = []
    for a in (ac, as_):
        st = [a]
        while st:
            x = st.pop()
            if x.k == "ite": st += [x.a[1], x.a[2]]; continue
            effs, base = A.chain(x)
            if base.k == "ite": st.append(base)
            if base.k == "opq": return False
            todo += effs
    seen = set()
    for e in todo:
        kind, lvs, Ns, g, idx, val = A.reopen(e)
        g = A.simp_bool(g)
        if g is FALSE: continue
        key = e.a[2:4] + (e.a[5],)
        x = A.select(ac, idx); y = A.select(as_, idx)
        if x is y: continue
        x = A.simp_bool(T.constrain(x, g)); y = A.simp_bool(T.constrain(y, g))
        # accumulations that could not be inverted must be structurally identical, leaf_equal covers that
        if not leaf_equal(x, y) and not expanded_equal(x, y): return False
    return True
def expanded_equal(x, y):
    if not (T.has_gval(x) or T.has_gval(y)) or x.size + y.size > 60000: return False
    try:
        with T.deadline(4):
            x = T.expand_guards(x); y = T.expand_guards(y)
            return leaf_equal(x, y)
    except T.Budget: return False

def vals_equal(a, b):
    if a is None and b is None: return True
    if a is None or b is None: return False
    return leaf_equal(a, b)

class Ctx:
    def __init__(s, nmodels=60, **kw): s.n = nmodels; s.kw = kw; s.lim = 6 if nmodels <= 60 else 30
    def model(s, i, want=(), odd=(), dim=None):
        m = Model(i, **s.kw)
        if dim: m.dim = dim
        elif odd and i % 3 == 1:
            k = reach(odd)
            if k > 1: m.dim = k + 3      # counts past the whole numbers a condition compares with
        if odd and i % 5 in (1, 3, 4):
            r = random.Random("odd%d" % i)
            c = odd[i % len(odd)]
            m.aim(c, r.random() < 0.5, r, _doms.get(c))
        if want and (i % 4 or i % 2): m.steer(want)
        return m

_odd = {}; _doms = {}
_rch = {}
def reach(conds):
    """the largest small whole number one of the conditions compares with"""
    r = 0
    for c in conds:
        if c not in _rch:
            k = 0
            if c.k in ("pos", "zero") and c.a[1] == "i" and c.a[0].k == "P":
                for m, co in c.a[0].a[0]:
                    if m == () and abs(co) <= 8: k = int(abs(co))
            _rch[c] = k
        r = max(r, _rch[c])
    return r
def domains(x, want):
    """ranges of the loops whose writes depend on a condition"""
    seen = set(); st = [x]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if len(seen) > 20000: break
        if n.k == "eff" and n.a[2]:
            own = conditions(T.mk("own", n.a[4], tuple(n.a[5]), n.a[6]))
            for c in want:
                if c in own and c not in _doms: _doms[c] = list(zip(n.a[3], n.a[2]))
        st.extend(T.walk_children(n.a))
def conditions(x):
    out = {}; seen = set(); st = [x]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if len(seen) > 20000: break
        if n.k in ("pos", "zero", "any"): out[n] = 1
        st.extend(T.walk_children(n.a))
    return out
def oddconds(a, b):
    """conditions only one of two different terms depends on"""
    if a is None or b is None: return []
    r = _odd.get((a, b))
    if r is None:
        x, y = conditions(a), conditions(b)
        r = _odd[a, b] = sorted([c for c in x if c not in y] + [c for c in y if c not in x], key=lambda c: c.size)[:12]
        if r and any(evalt.fvs(c) for c in r): domains(a, r); domains(b, r)
    return r

def tries(ctx):
    """numbers of the interpretations looked at; the last few are near the only one found to differ"""
    return range(4 * ctx.n + 8)
def nearby(ctx, kept, i):
    """an interpretation close to one seen before"""
    r = random.Random("near%d" % i)
    m = ctx.model(kept[0])
    jig = lambda d: {k: math.copysign(r.uniform(0.3, 2), v) if isinstance(v, float) and v and not 1e-4 < abs(v) < 1e4 else v * r.uniform(0.8, 1.25) if isinstance(v, float) else v for k, v in d.items()}
    m.cells = jig(kept[1]); m.prm = jig(kept[2])
    return m
def steady(ctx, m, i, f, x, y):
    """does the difference of the two values stand out from what rounding does to them at this interpretation?"""
    if not (isinstance(x, float) and isinstance(y, float) and math.isfinite(x) and math.isfinite(y)): return True
    n = ctx.model(i)
    jig = lambda d: {k: v * (1 + 1e-12 * (hash(v) % 7 - 3.5)) if isinstance(v, float) and math.isfinite(v) and v * 64 != int(v * 64) else v for k, v in d.items()}
    n.cells = jig(m.cells); n.prm = jig(m.prm)
    try: u, v = f(n)
    except (Opaque, Skip): return True
    return not all(isinstance(t, float) for t in (u, v)) or abs(u - x) + abs(v - y) <= 0.1 * abs(x - y)
def test_arrays(path, ac, as_, ctx, assume=None):
    """(status, text): look for interpretations in which the two contents differ"""
    hits = []; opq = 0; ok = 0; why = {}
    t0 = time.time(); kept = None
    for i in tries(ctx):
        if time.time() - t0 > (ctx.lim if i < ctx.n else 1.5) and i < 4 * ctx.n: continue
        if i >= 4 * ctx.n and not kept: break
        m = ctx.model(i, list(getattr(assume, "conds", ())) + sepconds(ac, as_, ctx, i), oddconds(ac, as_)) if i < 4 * ctx.n else nearby(ctx, kept, i)
        try:
            if assume is not None and not assume(m): continue
            cells = set()
            for a in (ac, as_):
                t, base = m.touched(a, {})
                cells |= t
            for c in sorted(cells, key=repr):
                try: x, y = values(m, m, ac, as_, c)
                except Opaque as ex: opq += 1; why[str(ex)] = 1; continue
                except Skip as ex: why[str(ex)] = 1; continue
                ok += 1
                if not same(x, y) and steady(ctx, m, i, lambda n: values(n, n, ac, as_, c), x, y):
                    hits.append((c, x, y, i)); kept = kept or (i, dict(m.cells), dict(m.prm)); break
        except Opaque as ex: opq += 1; why[str(ex)] = 1; continue
        except Skip as ex: why[str(ex)] = 1; continue
        if len(hits) >= 2: break
    if len(hits) >= 2:
        c, x, y, i = hits[0]
        return DIFF, "cell %s: code %s, definition %s" % (list(c), fmt(x), fmt(y))
    if ok == 0: return UNKNOWN, "identity test has no verdict (%s)" % ",".join(sorted(why))[:80]
    return UNKNOWN, "normal forms differ, %d sample identities agree%s" % (ok, " (%d opaque)" % opq if opq else "")
def value(m, arr, c):
    return m.sel(arr, c, {})
def values(mx, my, a, b, c):
    x, y = value(mx, a, c), value(my, b, c)
    if isinstance(x, tuple) and not isinstance(y, tuple): y = my.ptrsel(b, c, {})
    elif isinstance(y, tuple) and not isinstance(x, tuple): x = mx.ptrsel(a, c, {})
    return x, y
def cellcmp(mx, my, a, b, c):
    def f(x, y):
        try:
            if isinstance(x, tuple) != isinstance(y, tuple): x, y = values(mx, my, a, b, c)
        except (Opaque, Skip): return None
        return None if same(x, y) else "cell %s: code %s, definition %s" % (list(c), fmt(x), fmt(y))
    return f
def same(x, y):
    return close_to(x, y)
def fmt(x): return "%.6g" % x if isinstance(x, float) else str(x)

def separate(a, b, r):
    """the literals of a random path through both decision diagrams that ends in different leaves"""
    memo = {}
    def cofs(x, y):
        tops = [z.a[0] for z in (x, y) if z.k == "ite"]
        v = min(tops, key=lambda n: n.id)
        return v, (T._cof(x, v, True), T._cof(y, v, True)), (T._cof(x, v, False), T._cof(y, v, False))
    def dif(x, y):
        if x is y: return False
        if x.k != "ite" and y.k != "ite": return True
        k = (x, y)
        if k not in memo:
            if len(memo) > 4000: return True
            v, p, q = cofs(x, y)
            memo[k] = dif(*p) | dif(*q)
        return memo[k]
    out = []
    try:
        while a is not b and (a.k == "ite" or b.k == "ite"):
            v, p, q = cofs(a, b)
            ch = [(w, z) for w, z in ((True, p), (False, q)) if dif(*z)]
            if not ch: break
            w, z = r.choice(ch)
            out.append(T.batom(v) if w else T.bnot(T.batom(v))); a, b = z
    except RecursionError: return []
    return out
def sepconds(a, b, ctx, i):
    """conditions to steer the i-th interpretation to: half of them aim at a difference"""
    if a is None or b is None or i % 2 == 0: return []
    r = random.Random("%d" % i)
    out = separate(a, b, r) if a.k == "ite" or b.k == "ite" else []
    ends = []
    for x in (a, b):
        while x.k == "ite": x = x.a[1] if any(c is T.batom(x.a[0]) for c in out) else x.a[2] if any(c is bnot(T.batom(x.a[0])) for c in out) else x.a[r.randint(1, 2)]
        ends.append(x)
    if "eff" in (ends[0].k, ends[1].k): out += separate_writes(*ends, r)
    return out
def separate_writes(a, b, r):
    """conditions under which a write that only one side makes takes place, or two corresponding writes store different values"""
    x, y = A.chain(a)[0], A.chain(b)[0]
    p, q = {e.a[1:] for e in x}, {e.a[1:] for e in y}
    only = [e for e in x if e.a[1:] not in q] + [e for e in y if e.a[1:] not in p]
    if not only: return []
    e = r.choice(only[-6:])
    kind, lvs, Ns, g, idx, val = A.reopen(e)
    out = [c for c in (T.pos(T.aslf(n), "i") for n in Ns if n.k == "P" and not n.fv) if c is not TRUE and c is not FALSE]
    if g is not TRUE and g is not FALSE: out.append(g)
    mates = [o for o in only if o is not e and o.a[1:4] == e.a[1:4] and o.a[5] == e.a[5]]
    mate = next((o for o in mates if o.a[4] is e.a[4]), mates[0] if mates else None)
    if mate is not None:
        k2, l2, N2, g2, i2, v2 = A.reopen(mate)
        v2 = T.Subst({u: T.atom(v) for u, v in zip(l2, lvs)})(v2) if l2 else v2
        if val.k == "ite" or v2.k == "ite": out += separate(val, v2, r)
    return out
def test_vals(a, b, ctx, assume=None):
    hits = []; ok = 0; why = {}
    t0 = time.time(); kept = None
    for i in tries(ctx):
        if time.time() - t0 > (ctx.lim if i < ctx.n else 1.5) and i < 4 * ctx.n: continue
        if i >= 4 * ctx.n and not kept: break
        m = ctx.model(i, list(getattr(assume, "conds", ())) + sepconds(a, b, ctx, i), oddconds(a, b)) if i < 4 * ctx.n else nearby(ctx, kept, i)
        try:
            if assume is not None and not assume(m): continue
            x = pv(m, a); y = pv(m, b)
        except (Opaque, Skip) as ex: why[str(ex)] = 1; continue
        ok += 1
        if not same(x, y) and steady(ctx, m, i, lambda n: (pv(n, a), pv(n, b)), x, y): hits.append((x, y)); kept = kept or (i, dict(m.cells), dict(m.prm))
        if len(hits) >= 2: break
    if len(hits) >= 2: return DIFF, "code %s, definition %s" % (fmt(hits[0][0]), fmt(hits[0][1]))
    return UNKNOWN, "normal forms differ, %d sample identities agree (%s)" % (ok, ",".join(sorted(why))[:80])
def pv(m, a):
    while a.k == "ite": a = a.a[1] if m.cond(a.a[0], {}) else a.a[2]
    return m.ev(a, {})

def guard_arr(c, a, base):
    """a where c holds, base elsewhere"""
    return a if c is TRUE else A.merge(c, a, base)

def compare(code, spec, ctx, ignore=(), only=None, assume=None, vc=None, vs=None, events=True, tmo=30, reads=None):
    """code/spec: (ret, Mem); vc, vs: their VF objects.  Returns list of Result"""
    rc, mc = code; rs, ms = spec
    out = []
    shape = []; missing = []
    ass = []
    def put(path, st, t, how): out.append(Result(path, st, t, how))
    alone = getattr(vc, "alone", ())
    lone = re.compile(r"\b(%s)\[\]" % "|".join(sorted(alone))) if alone else None
    def elsewhere(path, a):
        """the code keeps this in a block the definition does not have"""
        return lone is not None and (lone.search(path) or any(x is not None and mentions(x, lone) for x in (a,)))
    def skip(p):
        if p.startswith("loc") or p.startswith("?"): return True
        if any(match_path(p, x) for x in ignore): return True
        return only is not None and not any(match_path(p, x) for x in only)
    tuned = []
    def settings(path, a, b):
        """does one side depend on a setting where the other does not"""
        try:
            for c in oddconds(a, b):
                f = setnames(c)
                if f: tuned.append((path, f)); return
            f = setnames(a) ^ setnames(b)
            if f: tuned.append((path, f))
        except RecursionError: pass
    def arrs(path, a, b, asm):
        try:
            with T.deadline(tmo):
                if a is b or nf_equal(a, b): put(path, EQUAL, "", "normal form"); return
        except T.Budget: pass
        if elsewhere(path, a): put(path, UNKNOWN, "in a block of its own", ""); return
        settings(path, a, b)
        st, t = test_arrays(path, a, b, ctx, asm)
        put(path, st, t, "identity test")
    def vals(path, a, b, asm):
        try:
            with T.deadline(tmo):
                if vals_equal(a, b): put(path, EQUAL, "", "normal form"); return
        except T.Budget: pass
        if a is None or b is None: put(path, UNKNOWN, "one side has no value", ""); return
        if elsewhere(path, a): put(path, UNKNOWN, "in a block of its own", ""); return
        settings(path, a, b)
        st, t = test_vals(a, b, ctx, asm)
        put(path, st, t, "identity test")
    def conj(extra, upto, without=()):
        cs = [c for k, c in ass if k < upto and k not in without] + extra
        cs = [c for c in cs if c is not TRUE]
        if not cs and assume is None: return None
        def f(m):
            if assume is not None and not assume(m): return False
            return all(truth(m, c) for c in cs)
        f.conds = cs
        return f
    nrec = 0
    if vc is not None and vs is not None:
        ass = vc.assumes + vs.assumes
        if len(vc.recs) != len(vs.recs):
            shape.append("%d loops compared by transfer in the code, %d in the definition" % (len(vc.recs), len(vs.recs)))
        else:
            for x, y in zip(vc.recs, vs.recs):
                if len(x.phis) != len(y.phis) or [p[0] for p in x.phis] != [p[0] for p in y.phis]:
                    shape.append("loop at %s carries other variables than the definition's" % x.loc); continue
                nrec += 1
                tag = "loop@%s:%s" % (x.fn, x.k)
                asm = conj([], x.k)
                vals(tag + ":continue", x.lcond, y.lcond, asm)
                both = conj([x.lcond, y.lcond], x.k)
                for j, (p, q) in enumerate(zip(x.phis, y.phis)):
                    vals("%s:initial v%d" % (tag, j), p[1], q[1], asm)
                    vals("%s:next v%d" % (tag, j), p[2], q[2], both)
                for p in sorted(set(x.init) | set(y.init)):
                    if skip(p): continue
                    h = mk("init", "L%d:%s" % (x.k, p))
                    if p in x.init and p in y.init:
                        arrs("%s:initial %s" % (tag, p), x.init[p], y.init[p], asm)
                    arrs("%s:next %s" % (tag, p), x.latch.get(p, h), y.latch.get(p, h), both)
        if events:
            ec = [e for e in vc.events if e.mem is not None and e.fn in vc.bcount]
            es = [e for e in vs.events if e.mem is not None and e.fn in vs.bcount]
            if sorted(e.fn for e in ec) != sorted(e.fn for e in es):
                shape.append("calls of %s in the code, of %s in the definition" % (",".join(e.fn for e in ec), ",".join(e.fn for e in es)))
                # (only where the loops correspond and start in the same state do the two name the same things alike)
                if len(shape) == 1 and all(r.status == EQUAL for r in out if ":initial " in r.path): missing += lost_calls(vc, vs, ec, es, ctx, ass, truth, assume)
            else:
                # calls are matched by callee and occurrence; what their order means shows in the memory they are called on
                yx = {(e.fn, e.n): e for e in es}
                for j, x in enumerate(ec):
                    y = yx[x.fn, x.n]
                    tag = "call %s %d" % (x.fn, x.n)
                    lp = getattr(x, "loops", ())
                    asm = conj([], 10**9, lp)
                    vals(tag + " reached", x.cond, y.cond, asm)
                    cb = conj([x.cond, y.cond], 10**9, lp)
                    rd = reads.get(x.fn) if reads else None
                    for i, (p, q) in enumerate(zip(x.args, y.args)):
                        if p.k in ("fp",): continue
                        vals("%s arg %d" % (tag, i), p, q, cb)
                        if p.k == "ptr" and p.a[0].endswith("[]"):
                            base = p.a[0]; pre = base + "." if base.count("*") == 0 else base
                            for pa in sorted(set(x.mem.d) | set(y.mem.d)):
                                if (pa == base or pa.startswith(base + ".")) and not skip(pa) and (rd is None or "a%d[]" % i + pa[len(base):] in rd):
                                    arrs("%s reads %s" % (tag, pa), x.mem.get(pa), y.mem.get(pa), cb)
    fin = conj([], 10**9)
    if events and vc is not None:
        fc, odd = released(vc); fs, _ = released(vs)
        for p in sorted(set(fc) | set(fs)):
            x, y = oneiter(fc.get(p, FALSE)), oneiter(fs.get(p, FALSE))
            if x is None or y is None: continue
            vals("releases " + p, x, y, fin)
            if odd and p not in fc and out[-1].status == DIFF: out[-1].status = UNKNOWN
        tc, ts = twice(vc), twice(vs)
        for p in sorted(tc):
            x, y = oneiter(tc[p]), oneiter(ts.get(p, FALSE))
            if x is None or y is None: continue
            k = len(out); vals("releases %s twice" % p, x, y, fin)
            if out[-1].status != DIFF: del out[k:]
        if sorted(vc.allocs) != sorted(vs.allocs): put("blocks allocated", UNKNOWN, "%d allocations in the code, %d in the definition" % (len(vc.allocs), len(vs.allocs)), "")
        if vc.allocs or vs.allocs:
            for nm in sorted(set(vc.allocs) & set(vs.allocs)):
                x, y = vc.allocs[nm], vs.allocs[nm]
                if x[3] == "realloc" or y[3] == "realloc": continue
                x, y = (oneiter(x[0]), x[1]), (oneiter(y[0]), y[1])
                if x[0] is None or y[0] is None: continue
                vals("size of %s" % nm, x[0], y[0], fin)
                if out[-1].status == DIFF and not smaller(x[0], y[0], ctx, fin): out[-1].status = UNKNOWN; out[-1].detail += " (never smaller)"
                elif out[-1].status == DIFF: out[-1].detail += " bytes"
        for nm in sorted(alone or ()) if not odd else ():
            # a block of the code's own that it neither keeps nor hands on nor releases
            rx = re.compile(r"\b%s\[\]" % nm)
            if nm + "[]" in fc or nm not in vc.allocs or (rc is not None and mentions(rc, rx)): continue
            if any(mentions(a, rx) for e in vc.events if e.fn != "free" for a in e.args if isinstance(a, T.N)): continue
            if any(mentions(x, rx) for p, x in mc.d.items() if not p.startswith(("loc", nm)) and x is not None): continue
            put("releases " + nm, DIFF, "a block is allocated (%s) and lost: neither kept nor released" % (vc.allocs[nm][2].loc if vc.allocs[nm][2] is not None else ""), "no reference")
    if rc is not None or rs is not None:
        vals("return", rc, rs, fin)
    for p in sorted(set(mc.d) | set(ms.d)):
        if skip(p) or SCRATCH.search(p): continue
        arrs(p, mc.get(p), ms.get(p), fin)
    loopdiff = [r for r in out if r.path.startswith("loop@") and r.status != EQUAL]
    if shape or loopdiff:
        fp = None
        if vc.recs or vs.recs or shape:
            fp = fixpoint(code, spec, vc, vs, ctx, assume, skip, reads, events, out)
        for r in out:
            lsym = r.path.startswith("loop@") or shape
            if fp is None: 
                if shape and r.status != UNKNOWN: r.status, r.detail = UNKNOWN, r.detail + " (structure: %s)" % shape[0]
                continue
            d = fp.hits.get(r.path) if r.detail != "in a block of its own" else None
            if d: r.status, r.detail, r.how = DIFF, d, "loops iterated under an interpretation"
            elif shape and r.status == EQUAL and r.path not in fp.lsym: pass
            elif shape and r.status != UNKNOWN: r.status, r.detail = UNKNOWN, r.detail + " (structure: %s)" % shape[0]
            elif not shape and r.status == DIFF and (r.path.startswith("loop@") or r.path in fp.lsym) and not fp.hits and fp.ok >= 12:
                # the loops do their work in other steps, with the same outcome
                r.status, r.detail = UNKNOWN, r.detail + " (inside the loop only; %d outcomes agree)" % fp.ok
        if fp is not None:
            have = {r.path for r in out}
            for p, d in fp.hits.items():
                if p not in have and not (lone and lone.search(p)): out.append(Result(p, DIFF, d, "loops iterated under an interpretation"))
        if shape: out.append(Result("structure", UNKNOWN, "; ".join(shape), ""))
    out += missing
    if tuned and any(r.status == DIFF for r in out):
        out.append(Result("settings used", DIFF, "%s of the settings is used differently (%s)" % (", ".join(sorted(tuned[0][1])), tuned[0][0]), "settings fields"))
    elif not shape: out.append(Result("settings used", EQUAL, "", "settings fields"))
    return out
SETTING = re.compile(r'stgs\*(?:\[\])?(?:->|\.)(\w+)')
_setn = {}
def setnames(x):
    """names of the settings a term depends on"""
    if x is None: return frozenset()
    r = _setn.get(x)
    if r is None:
        out = set(); st = [x]; seen = set()
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            if len(seen) > 20000: break
            if n.k in ("sym", "init") and isinstance(n.a[0], str):
                g = SETTING.search(n.a[0])
                if g: out.add(g.group(1))
            st.extend(T.walk_children(n.a))
        r = _setn[x] = frozenset(out)
    return r
LS = re.compile(r'L\d+[.:]')
def mentions(x, rx):
    st = [x]; seen = set()
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if n.k == "ptr" and rx.search(n.a[0]): return True
        st.extend(T.walk_children(n.a))
    return False
def has_lsym(x, memo):
    st = [x]; seen = set()
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if n.k in ("sym", "init") and isinstance(n.a[0], str) and LS.match(n.a[0]): return True
        st.extend(T.walk_children(n.a))
    return False
def towards(a, memo):
    """condition under which the value comes out of a loop compared by transfer"""
    if a.k != "ite": return TRUE if has_lsym(a, None) else FALSE
    r = memo.get(a)
    if r is None:
        c = T.batom(a.a[0])
        r = memo[a] = T.bor(T.band(c, towards(a.a[1], memo)), T.band(T.bnot(c), towards(a.a[2], memo)))
    return r
class Fix: pass
def fixpoint(code, spec, vc, vs, ctx, assume, skip, reads, events, out=()):
    """outcomes compared with the loops that have no closed form iterated from their initial state, under interpretations of the free symbols"""
    rc, mc = code; rs, ms = spec
    F = Fix(); F.hits = {}; F.ok = 0; F.lsym = set()
    hits = {}
    def hit(p, t, i):
        h = hits.setdefault(p, {}); h.setdefault(i, t)
    obs = []
    if rc is not None and rs is not None: obs.append(("return", "v", rc, rs))
    for p in sorted(set(mc.d) | set(ms.d)):
        if skip(p) or SCRATCH.search(p): continue
        x, y = mc.get(p), ms.get(p)
        if x is not y or has_lsym(x, None): obs.append((p, "a", x, y))
    if events:
        fc, odd = released(vc); fs, odd2 = released(vs)
        if not odd and not odd2:
            for p in sorted(set(fc) | set(fs)):
                x, y = oneiter(fc.get(p, FALSE)), oneiter(fs.get(p, FALSE))
                if x is not None and y is not None and (x is not y or has_lsym(x, None)) and not evalt.fvs(x) and not evalt.fvs(y): obs.append(("releases " + p, "v", x, y))
    F.lsym = {o[0] for o in obs if o[1] == "a" or o[0] == "return"} & {o[0] for o in obs if has_lsym(o[2], None) or has_lsym(o[3], None)}
    ec = [e for e in vc.events if e.mem is not None and e.fn in vc.bcount]
    es = [e for e in vs.events if e.mem is not None and e.fn in vs.bcount]
    calls = []
    if events and sorted(e.fn for e in ec) == sorted(e.fn for e in es):
        yx = {(e.fn, e.n): e for e in es}
        calls = [(x, yx.get((x.fn, x.n))) for x in ec]
        if any(y is None or len(x.loops) != len(y.loops) for x, y in calls): return None
    elif ec or es: return None
    aims = []
    if len(vc.recs) == len(vs.recs):
        for x, y in zip(vc.recs, vs.recs):
            prs = [(True, x.lcond, y.lcond)]
            if len(x.phis) == len(y.phis): prs += [(True, p[2], q[2]) for p, q in zip(x.phis, y.phis) if p[2] is not None and q[2] is not None] + [(False, p[1], q[1]) for p, q in zip(x.phis, y.phis)]
            aims += [(x.k, fr, u, v) for fr, u, v in prs if u is not v and (u.k == "ite" or v.k == "ite")]
            aims += [(x.k, None, x.latch[q], y.latch[q]) for q in sorted(set(x.latch) & set(y.latch)) if x.latch[q] is not None and y.latch[q] is not None and x.latch[q] is not y.latch[q] and any(r.status == DIFF and r.path == "loop@%s:%s:next %s" % (x.fn, x.k, q) for r in out)]
            if any(r.status == DIFF and r.path.startswith("loop@%s:%s:next" % (x.fn, x.k)) for r in out): aims.append((x.k, True, x.lcond, FALSE))
    ways = []; memo = {}
    for o in obs:
        if o[1] != "a": continue
        for z in o[2:4]:
            try: c = towards(z, memo)
            except RecursionError: continue
            if c is not TRUE and c is not FALSE and c not in ways and not has_lsym(c, None): ways.append(c)
    bad = {re.sub(r" (arg \d+|reached|reads .*)$", "", r.path) for r in out if r.path.startswith("call ") and r.status != EQUAL}
    stray = [e for e, _ in calls if "call %s %d" % (e.fn, e.n) in bad and e.cond is not TRUE][:16]
    lone = unshared(code, spec, vc, vs); wide = reach(lone)
    lone = [(c, loopof(c, vc)) for c in sorted(lone, key=lambda c: c.size)[:12]]
    lrec = {r.k: r for r in vc.recs}
    t0 = time.time()
    kept = {}
    for i in range(3 * ctx.n + 12):
        if time.time() - t0 > (5 if i < ctx.n else 2) * ctx.lim and i < 3 * ctx.n: continue
        if i >= ctx.n and any(len(h) >= 2 for h in hits.values()): break
        if i >= 3 * ctx.n and not kept: break
        near = None
        if i >= 3 * ctx.n:
            # a difference seen once, looked for again around that interpretation
            near = sorted(kept)[i % len(kept)]
        m = nearby(ctx, kept[near], i) if near is not None else ctx.model(i, dim=wide + 3 if wide and i % 4 >= 2 else None)
        if wide and i % 4 >= 2 and near is None: m.least = wide + 1      # (counts past the numbers that a condition compares with)
        # towards the paths on which the loops are reached at all
        if ways and near is None and i % 3: m.steer([ways[i % len(ways)]])
        try:
            if assume is not None and not assume(m): continue
        except (Opaque, Skip): continue
        sc, ss = Side(m, vc), Side(m, vs)
        if near is not None: pass
        elif lone and i % 6 == 5:
            # a condition only one of them has, in the first iteration of the loop it speaks of
            t = i // 6; c, k = lone[t % len(lone)]; t //= len(lone)
            # (of a counter, in the iteration it changes in)
            g = reach([c]); late = k is not None and g > 0 and t % 3 != 0
            f = sc.root if k is None else sc.frame(tuple((q, g + t // 3 % 2 if late and q == k else 0) for q in sc.anc(k)))
            try:
                if k in lrec and (late or t % 4 < 3): f.steer([lrec[k].lcond])
                if t % 4 in (0, 3):
                    for d, q in lone:
                        if q == k and d is not c: f.aim(d, True, random.Random("%d" % i))
                f.aim(c, t % 2 == 0, random.Random("%d" % i))
            except (Opaque, Skip, NonTerm): pass
        elif stray and (i % 4 == 2 or i % 2 and not aims):
            # the first iteration of the enclosing loops, towards a call that was not found to be the same
            e = stray[(i // 2) % len(stray)]
            f = sc.frame(tuple((q, 0) for q in sc.calls.get((e.fn, e.n), ())))
            try: f.steer([e.cond], limit=1.5)
            except (Opaque, Skip, NonTerm): pass
        elif i % 2 and aims:
            # the first iteration of a loop whose transfer differs, on a path where it does
            k, fr, u, v = aims[(i // 2) % len(aims)]
            f = sc.frame(tuple((q, 0) for q in sc.anc(k)[:-1 if fr is False else None]))
            cs = separate(u, v, random.Random("%d" % i)) if fr is not None else sepconds(u, v, ctx, i)
            if fr is None and k in lrec: cs = [lrec[k].lcond] + cs
            try: f.steer(cs)
            except (Opaque, Skip, NonTerm): pass
        done = 0
        def both(f, g, p, cmp):
            nonlocal done
            try: y = g()
            except (Opaque, Skip, NonTerm): return
            try: x = f()
            except NonTerm as ex:
                # (no verdict where the definition's loops are long themselves)
                if any(isinstance(r, int) and r > 20 for r in ss.fins.values()) or any(isinstance(c, int) and abs(c) > 40 for c in m.cells.values()): return
                hit(p, "the loop in %s does not end where the definition's does" % ex, i); return
            except (Opaque, Skip): return
            done += 1
            t = cmp(x, y)
            if t: hit(p, t, i)
        for p, k, x, y in obs:
            if k == "v":
                both(lambda: pv(sc.root, x), lambda: pv(ss.root, y), p, lambda u, v: None if same(u, v) else "code %s, definition %s" % (fmt(u), fmt(v)))
            else:
                def cells(side, a): return lambda: side.root.touched(a, {})[0]
                got = []
                both(cells(sc, x), cells(ss, y), p, lambda u, v: got.append(u | v))
                for c in sorted(got[0], key=repr) if got else ():
                    both(lambda: value(sc.root, x, c), lambda: value(ss.root, y, c), p, cellcmp(sc.root, ss.root, x, y, c))
        for x, y in calls:
            tag = "call %s %d" % (x.fn, x.n)
            got = []
            both(lambda: runs(sc, x), lambda: runs(ss, y), tag + " reached", lambda u, v: got.append((u, v)) or (None if sorted(u) == sorted(v) else "in iterations %s of the code, %s of the definition" % (sorted(u), sorted(v))))
            for it in sorted(set(got[0][0]) & set(got[0][1])) if got else ():
                fx, fy = got[0][0][it], got[0][1][it]
                for j, (p, q) in enumerate(zip(x.args, y.args)):
                    if p.k == "fp": continue
                    both(lambda: pv(fx, p), lambda: pv(fy, q), "%s arg %d" % (tag, j), lambda u, v: None if same(u, v) else "code %s, definition %s" % (fmt(u), fmt(v)))
                    if p.k == "ptr" and p.a[0].endswith("[]"):
                        base = p.a[0]; rd = reads.get(x.fn) if reads else None
                        for pa in sorted(set(x.mem.d) | set(y.mem.d)):
                            if (pa == base or pa.startswith(base + ".")) and not skip(pa) and (rd is None or "a%d[]" % j + pa[len(base):] in rd):
                                u, v = x.mem.get(pa), y.mem.get(pa)
                                if u is v and not has_lsym(u, None): continue
                                g2 = []
                                nm = "%s reads %s" % (tag, pa)
                                both(lambda: fx.touched(u, {})[0], lambda: fy.touched(v, {})[0], nm, lambda r, q_: g2.append(r | q_))
                                for c in sorted(g2[0], key=repr) if g2 else ():
                                    both(lambda: value(fx, u, c), lambda: value(fy, v, c), nm, cellcmp(fx, fy, u, v, c))
        if done: F.ok += 1
        if any(i in h for h in hits.values()) and len(kept) < 6 and near is None: kept[i] = (i, dict(m.cells), dict(m.prm))
        if sum(len(h) >= 3 for h in hits.values()) >= 2 and i > 12: break
    F.hits = {p: sorted(h.items())[0][1] for p, h in hits.items() if len(h) >= 2}
    return F
def unshared(code, spec, vc, vs):
    """conditions that only one of the two has"""
    def every(res, v):
        out = {}
        for r in v.recs:
            for x in [r.lcond] + [y for p in r.phis for y in p[1:3]] + list(r.latch.values()) + list(r.init.values()):
                if x is not None: out.update(conditions(x))
        for x in [res[0]] + list(res[1].d.values()):
            if x is not None: out.update(conditions(x))
        return out
    try: x, y = every(code, vc), every(spec, vs)
    except RecursionError: return []
    return [c for c in x if c not in y] + [c for c in y if c not in x]
def loopof(c, v):
    """the innermost loop kept by transfer whose state a condition reads"""
    ks = set(); seen = set(); st = [c]; recs = {r.k: r for r in v.recs}
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if n.k in ("sym", "init"):
            m = re.match(r"L(\d+)[.:]", str(n.a[0]))
            if m and int(m.group(1)) in recs: ks.add(int(m.group(1)))
        st.extend(T.walk_children(n.a))
    def depth(k):
        d = 0
        while k is not None: k = recs[k].parent; d += 1
        return d
    return max(sorted(ks), key=depth) if ks else None
def runs(side, e):
    """iterations in which a call is made"""
    ks = side.calls.get((e.fn, e.n), ()); out = {}
    def go(G, rest):
        if not rest:
            f = side.frame(G)
            if f.true(e.cond): out[tuple(t for _, t in G)] = f
            return
        for t in range(side.final(G, rest[0]) + 1): go(G + ((rest[0], t),), rest[1:])
    go((), list(ks))
    return out
def lost_calls(vc, vs, ec, es, ctx, ass, truth, assume):
    """a callee called less (or more) often by the code than by the definition on some path both agree on up to there.
    Traces are steered through the conditions; the part before the divergence consists of identical, equally numbered calls."""
    out = []
    cc, cs = count(ec), count(es)
    for fn in sorted(set(cc) | set(cs)):
        if cc.get(fn, 0) == cs.get(fn, 0): continue
        if fn not in cc and inlined(vc, vs, fn): continue
        hits = 0; seen = 0
        conds = [e.cond for e in (es if cs.get(fn, 0) > cc.get(fn, 0) else ec) if e.fn == fn]
        for i in range(ctx.n):
            m = ctx.model(i, [conds[i % len(conds)]])
            try:
                if assume is not None and not assume(m): continue
                tc = trace(m, ec, truth); ts = trace(m, es, truth)
            except (Opaque, Skip): continue
            bad = diverge(tc, ts, fn)
            seen += 1
            if bad: hits += 1
            if hits >= 3: break
        if hits >= 3:
            less = cc.get(fn, 0) < cs.get(fn, 0)
            out.append(Result("call %s" % fn, DIFF, "a path on which the code %s" % ("omits the call of " + fn if less else "makes an additional call of " + fn), "call traces"))
    return out
def count(evs):
    d = {}
    for e in evs: d[e.fn] = d.get(e.fn, 0) + 1
    return d
def trace(m, evs, truth):
    """executed calls, per nest of loops"""
    out = {}
    for e in evs:
        k = len(getattr(e, "loops", ()) or ())
        if truth(m, e.cond): out.setdefault(k, []).append((e.fn, e.n))
    return out
def diverge(tc, ts, fn):
    for k in sorted(set(tc) | set(ts)):
        a, b = tc.get(k, []), ts.get(k, [])
        if a == b: continue
        na, nb = sum(x[0] == fn for x in a), sum(x[0] == fn for x in b)
        if na == nb: return False
        j = 0
        while j < len(a) and j < len(b) and a[j] == b[j]: j += 1
        # the first difference is about fn itself, nothing before it depends on another numbering
        x = a[j][0] if j < len(a) else None; y = b[j][0] if j < len(b) else None
        if x == y == fn: return (len(b) > len(a) and [e for e in b if e in a] == a) or (len(a) > len(b) and [e for e in a if e in b] == b)
        return fn in (x, y) and x != y
    return False
def inlined(vc, vs, fn):
    """the code itself may do what the callee did: it makes more stores than the definition"""
    return len(vc.stores) > len(vs.stores)
def callmatch(vc, vs):
    """renumbering of the code's calls so that calls made under the same condition carry the same number"""
    out = {}
    ec = [e for e in vc.events if e.mem is not None and e.fn in vc.bcount]; es = [e for e in vs.events if e.mem is not None and e.fn in vs.bcount]
    cc, cs = count(ec), count(es)
    for fn in cc:
        if cc[fn] != cs.get(fn):
            # some are missing or new: those that correspond are numbered alike, the others on their own
            a = [e for e in ec if e.fn == fn]; left = [e for e in es if e.fn == fn]; mp = {}
            for ok in (lambda x, y: x.cond is y.cond and len(x.args) == len(y.args) and all(p is q for p, q in zip(x.args, y.args)), lambda x, y: x.cond is y.cond):
                for x in a:
                    y = None if x.n in mp else next((y for y in left if ok(x, y)), None)
                    if y is not None: left.remove(y); mp[x.n] = y.n
            if mp: out.update({(fn, x.n): mp.get(x.n, 100 + x.n) for x in a})
            continue
        if cc[fn] < 2: continue
        a = [e for e in ec if e.fn == fn]; b = [e for e in es if e.fn == fn]
        alike = lambda x, y: x.cond is y.cond and len(x.args) == len(y.args) and all(p is q for p, q in zip(x.args, y.args))
        if all(x.cond is y.cond for x, y in zip(a, b)) and not any(alike(x, y) and not alike(a[i], b[i]) for i, x in enumerate(a) for y in b): continue
        left = list(b); mp = {}
        # the same call at the same place, the same call elsewhere, a call under the same condition
        for x, y in zip(a, b):
            if alike(x, y): left.remove(y); mp[x.n] = y.n
        for ok in (alike, lambda x, y: x.cond is y.cond):
            for x in a:
                if x.n in mp: continue
                y = next((y for y in left if ok(x, y)), None)
                if y is not None: left.remove(y); mp[x.n] = y.n
        if not left: out.update({(fn, i): j for i, j in mp.items()})
    return out
def oneiter(x):
    """the loop variable of a statement in one loop, by a common name"""
    l = [v for v in evalt.fvs(x) if v.k == "lv"]
    if len(l) > 1: return None
    return T.Subst({l[0]: T.atom(mk("sym", "iteration"))})(x) if l else x
def released(v):
    """heap pointer -> condition under which it is released"""
    out = {}; odd = False
    for e in v.events:
        if e.fn != "free": continue
        def go(p, c):
            nonlocal odd
            if p.k == "ite":
                b = T.batom(p.a[0]); go(p.a[1], T.band(c, b)); go(p.a[2], T.band(c, T.bnot(b))); return
            if p.k != "ptr": return
            if p.a[0].startswith("?"): odd = True; return
            out[p.a[0]] = T.bor(out.get(p.a[0], FALSE), T.band(c, T.bnot(T.ptrnull(p))))   # releasing nothing is nothing
        go(e.args[0], e.cond)
    return out, odd
def twice(v):
    """heap pointer -> condition under which it is released by two releases, or None if one of them sits in a loop"""
    out = {}; seen = {}
    for e in v.events:
        if e.fn != "free" or e.loops: continue
        def go(p, c):
            if p.k == "ite":
                b = T.batom(p.a[0]); go(p.a[1], T.band(c, b)); go(p.a[2], T.band(c, T.bnot(b))); return
            if p.k != "ptr" or p.a[0].startswith("?"): return
            c = T.band(c, T.bnot(T.ptrnull(p)))
            for d in seen.get(p, ()): out[p.a[0]] = T.bor(out.get(p.a[0], FALSE), T.band(c, d))
            mine.append((p, c))
        mine = []; go(e.args[0], e.cond)
        for p, c in mine: seen.setdefault(p, []).append(c)
    return {p: c for p, c in out.items() if c is not FALSE}
def smaller(a, b, ctx, assume):
    """some interpretation makes a smaller than b"""
    for i in range(ctx.n):
        m = ctx.model(i, getattr(assume, "conds", ()), dim=(None, 17)[i % 2])
        try:
            if assume is not None and not assume(m): continue
            if m.ev(a, {}) < m.ev(b, {}): return True
        except (Opaque, Skip): continue
    return False
def malmatch(code, spec, vc, vs):
    """which allocation of the code plays the part of which allocation of the definition: by the fields the blocks are kept in,
    the calls they are handed to, and their sizes.  Blocks without a partner are numbered from 100 on."""
    rc, mc = code; rs, ms = spec
    def mals(n):
        out = []; seen = set()
        def walk(x):
            if x in seen: return
            seen.add(x)
            if x.k == "ptr":
                g = re.match(r'mal(\d+)\[\]$', x.a[0])
                if g and int(g.group(1)) not in out: out.append(int(g.group(1)))
            for y in T.walk_children(x.a): walk(y)
        walk(n)
        return out
    f = {}; done = set(); todo = []
    def pairup(x, y):
        a, b = mals(x), mals(y)
        if len(a) == len(b):
            for i, j in zip(a, b):
                if i not in f and j not in f.values(): f[i] = j; todo.append((i, j))
    if rc is not None and rs is not None: pairup(rc, rs)
    for p in sorted(set(mc.d) & set(ms.d)):
        if not p.startswith("mal"): pairup(mc.d[p], ms.d[p])
    def follow():
        while todo:
            i, j = todo.pop()
            for p in sorted(mc.d):
                if p.startswith("mal%d[]" % i):
                    q = "mal%d[]" % j + p[len("mal%d[]" % i):]
                    if q in ms.d: pairup(mc.d[p], ms.d[q])
    follow()
    ev = {(e.fn, e.n): e for e in vs.events if e.mem is not None and e.fn in vs.bcount}
    for e in vc.events:
        if e.mem is None or e.fn not in vc.bcount or (e.fn, e.n) not in ev: continue
        for x, y in zip(e.args, ev[e.fn, e.n].args): pairup(x, y)
    follow()
    num = lambda d: sorted(int(k[3:]) for k in d)
    a = [i for i in num(vc.allocs) if i not in f]; b = [j for j in num(vs.allocs) if j not in f.values()]
    same = lambda i, j: vc.allocs["mal%d" % i][3] == vs.allocs["mal%d" % j][3] and vc.allocs["mal%d" % i][0] is vs.allocs["mal%d" % j][0]
    for i in list(a):
        j = i if i in b and same(i, i) else next((j for j in b if same(i, j)), None)
        if j is not None: f[i] = j; a.remove(i); b.remove(j)
    if len(a) == len(b): f.update(zip(a, b)); a = []; b = []
    for i in a: f[i] = 100 + i
    vc.alone = {"mal%d" % (100 + i) for i in a}; vs.alone = {"mal%d" % j for j in b}
    return f
def truth(m, c):
    while c.k == "ite": c = c.a[1] if m.cond(c.a[0], {}) else c.a[2]
    if c is TRUE: return True
    if c is FALSE: return False
    return bool(m.ev(c, {}))
def match_path(p, x):
    return p == x or p.endswith(x)
