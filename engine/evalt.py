"""Identity test for closed forms: evaluates two summary terms under one random interpretation of their free symbols.
Only used to separate 'the normal forms differ' from 'the functions differ'; it never executes the analysed code."""
import math, random, re, time
import terms as T, arrays as A
from terms import N, TRUE, FALSE, bnot

class Opaque(Exception): pass
class Skip(Exception): pass

SPECIAL = [0.0, 1.0, -1.0, 0.5, 2.0, 1e-14, 3e-7, -1e-14]

_fv = {}
NOV = ()
def _u(sets):
    r = set()
    for x in sets: r.update(x)
    return r
def _srt(r): return tuple(sorted(r, key=lambda x: x if isinstance(x, int) else 10**6 + x.id)) if r else NOV
def _fvt(x):
    if isinstance(x, N): return fvs(x)
    if isinstance(x, tuple): return _u(_fvt(y) for y in x)
    return NOV
def fvs(n):
    """free variables (canonical heights and loop symbols) of a term"""
    r = _fv.get(n)
    if r is not None: return r
    k = n.k
    if k == "var": r = {n.a[0]}
    elif k == "lv": r = {n}
    elif k == "rv": r = ()
    elif k in ("sum", "prod", "any", "first"): r = _u((fvs(n.a[0]), _u((fvs(n.a[2]),)) - {n.a[1]}))
    elif k == "fold": r = _u((_fvt(n.a[0]), _fvt(n.a[1]), _u((_fvt(n.a[4]),)) - {n.a[2], n.a[3]}))
    elif k == "eff": r = _u((fvs(n.a[0]), fvs_own(n)))
    elif k == "let": r = _u(fvs(x) for x in n.a[1])
    else: r = _u(_fvt(x) for x in n.a)
    r = _fv[n] = _srt(r)
    return r
_fvo = {}
def fvs_own(e):
    r = _fvo.get(e)
    if r is None:
        _, kind, Ns, hs, g, ix, val = e.a
        r = _fvo[e] = _srt(_u((_fvt(Ns), _fvt(g), _fvt(ix), _fvt(val))) - set(hs))
    return r

def bijection(s, path, idx):
    """an injective map of the integers, different in every interpretation"""
    b, o = divmod(idx[-1], 8)
    l = list(range(8)); s.rng("bij", path, idx[:-1], b).shuffle(l)
    return 8 * b + l[o]
def columns(s, path, idx):
    """where the columns of a sparse matrix begin: lengths 0, 1, 2, one after the other"""
    j = idx[-1]
    if not 0 <= j <= 64: return 0
    return sum(s.rng("jc", path, idx[:-1], i).choice((0, 0, 1, 1, 2)) for i in range(j))
# positions in the KKT matrix recorded at set-up: no two coincide
LAYOUT = {
    "jc*[]": lambda s, idx: columns(s, "", idx),
    "kkt_idx*[]": lambda s, idx: 1000 + 7 * bijection(s, "kkt_idx", idx),
    "AtoK*[]": lambda s, idx: 100000 + 3 * bijection(s, "AtoK", idx),
    "GtoK*[]": lambda s, idx: 200000 + 3 * bijection(s, "GtoK", idx),
    "Didx*[]": lambda s, idx: 1000000 * (idx[-2] + 1) + 1000 * idx[-1] + s.rng("didx", idx).randint(0, 200),
    "soc*[].colstart*[]": lambda s, idx: 1000000 * (idx[-2] + 1) + 500000 + 1000 * idx[-1],
    "expc*[].colstart*[]": lambda s, idx: 300000 + 1000 * idx[-2] + 100 * idx[-1] + s.rng("ecol", idx).randint(0, 20)}
class Model:
    """values of initial memory cells and scalar parameters.  gens: list of (path suffix, fn(model, path, idx) -> value)"""
    def __init__(s, seed, gens=(), ints=(), dim=3, special=0.2, consts=(), nonneg=(), isyms=()):
        s.isyms = isyms
        s.seed = seed; s.rnd = random.Random(seed)
        s.gens = list(gens); s.ints = ints; s.dim = dim; s.least = 0
        s.cells = {}
        s.special = special if seed % 3 else 0.0
        s.consts = list(consts)
        s.scale = [1.0, 1.0, 10.0, 1e-4][seed % 4]
        # kinds of interpretations: any reals, all positive, dominated by the first entries, small whole numbers, positive with zeros
        s.regime = ["real", "real", "pos", "cone", "real", "whole", "poszero", "real"][(seed * 5 // 4) % 8]
        s.memo = {}; s.mats = {}; s.cur = {}
        s.steps = 0
        s.prm = {}; s.genv = {}; s.forced = {}; s.pins = set(); s.trace = None
        s.sides = []
    def reset(s):
        s.memo = {}; s.mats = {}
        for x in s.sides:
            x.fins = {}
            for f in x.frames.values(): f.memo = {}; f.mats = {}
    # ------------------------------------------------------------ steering towards a path condition
    def steer(s, conds, limit=0.7):
        """choose values under which every condition holds, where simple changes of single cells can do it"""
        s.stop = time.time() + limit
        s.genv = {}
        for c in conds:
            for x in fvs(c):
                if isinstance(x, int): return False
                if x not in s.genv: s.genv[x] = s.rng("genv", len(s.genv)).choice((0, 0, 0, 1, 2))
        for t in range(8):
            good = True
            for c in conds:
                if c is FALSE: continue
                if time.time() > s.stop: return False
                try:
                    if not s.holds(c): good = False; s.walk(c, t)
                except (Opaque, Skip): good = False
            if good: return True
            if t % 2: s.pins = set()
        return False
    def holds(s, c):
        while c.k == "ite": c = c.a[1] if s.cond(c.a[0], s.genv) else c.a[2]
        return c is TRUE
    def walk(s, c, t):
        """follow a random path of the decision diagram to true, making its conditions come true"""
        paths = []
        def count(n):
            # number of steps to reach true
            k = ("dist", n)
            if k in s.dist: return s.dist[k]
            if n.k != "ite": r = 0 if n is TRUE else 10**6
            else: r = 1 + min(count(n.a[1]), count(n.a[2]))
            s.dist[k] = r
            return r
        s.dist = {}
        r = s.rng("walk", t, c.id if False else 0)
        n = c
        while n.k == "ite":
            a, b = count(n.a[1]), count(n.a[2])
            if min(a, b) >= 10**6: return False
            try: now = s.cond(n.a[0], s.genv)
            except (Opaque, Skip): now = None
            if a >= 10**6: want = False
            elif b >= 10**6: want = True
            elif now is None: want = r.random() < 0.5
            else: want = now if r.random() < 0.9 or t == 0 else not now
            if now != want and not s.force(n.a[0], want, s.genv): 
                if (b if want else a) >= 10**6 or now is None: return False
                want = now
            n = n.a[1] if want else n.a[2]
        return n is TRUE
    def aim(s, c, want, r, doms=None):
        """make condition c, at some small values of the variables it is bound by, come out as wanted"""
        f = fvs(c)
        if any(not isinstance(x, int) and x.k != "lv" for x in f): return False
        s.stop = time.time() + 0.3
        env = {x: r.choice((0, 0, 0, 1, 2)) for x in f}
        if doms:
            # the iteration aimed at is one the loop makes
            for h, N in doms:
                if h not in env: env[h] = 0
                try:
                    s.genv = {x: env[x] for x in fvs(N) if x in env}
                    if s.rngval(N, env) > env[h]: continue
                    inside = T.pos(T.sub(N, T.const(env[h])), "i")
                    if not s.holds(inside): s.walk(inside, 0)
                except (Opaque, Skip, KeyError): pass
            s.genv = {}
        if c.k == "any" and r.random() < 0.7: return s.force_exists(c, want, env, r)
        try:
            if s.cond(c, env) == want: return True
        except (Opaque, Skip): pass
        return s.force(c, want, env)
    def force_exists(s, c, want, env, r):
        """make the body of an ANY fail up to some iteration, and hold in that one if wanted"""
        N, h, body = c.a[:3]
        keep = s.genv
        try:
            t = r.choice((0, 1, 1, 2, 2))
            if want and N.k == "P":
                s.genv = dict(env)
                inside = T.pos(T.sub(N, T.const(t)), "i")
                if not s.holds(inside): s.walk(inside, 0)
            n = s.rngval(N, env)
            if want: n = min(n, t)
            for j in range(min(n, 6) + (1 if want else 0)):
                b = body if want and j == n else bnot(body)
                s.genv = dict(env); s.genv[h] = j
                for a in range(4):
                    if time.time() > s.stop: return False
                    try:
                        if s.holds(b): break
                    except (Opaque, Skip): pass
                    s.walk(b, a)
            return s.cond(c, env) == want
        except (Opaque, Skip): return False
        finally: s.genv = keep
    def cellof(s, a, env={}):
        s.trace = []
        try:
            s.memo.pop((a, 1) + tuple(env[x] for x in fvs(a)), None); s.memo.pop((a, 1), None)
            v = s._at(a, env)
            tr = s.trace
        finally: s.trace = None
        for k in reversed(tr):
            if s.cells.get(k) is v or s.cells.get(k) == v: return k
        return None
    def pin(s, c):
        if c.k in ("pos", "zero") and c.a[0].k == "P":
            for m, _ in c.a[0].a[0]:
                for a, e in m:
                    if a.k in ("sym", "sel"):
                        try: k = s.cellof(a)
                        except (Opaque, Skip): continue
                        if k: s.pins.add(k)
    def force(s, c, want, env={}):
        return s.force_linear(c, want, env) or c.k == "any" and s.force_exists(c, want, env, s.rng("fe", len(s.pins))) or s.force_any(c, want, env)
    def force_linear(s, c, want, env):
        if c.k in ("isnan", "isinf", "bopq", "ptrnull"):
            if fvs(c): return False
            s.forced[c] = want; s.reset(); return True
        if c.k not in ("pos", "zero") or c.a[0].k != "P": return False
        p = c.a[0]; integer = c.a[1] == "i"
        cand = []
        for m, co in p.a[0]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].k in ("sym", "sel"):
                try: k = s.cellof(m[0][0], env)
                except (Opaque, Skip): continue
                if k and k not in s.pins: cand.append((k, co))
        s.rng("force", c.a[0].size).shuffle(cand)
        for k, co in cand:
            old = s.cells[k]
            try: v = s.ev(p, env)
            except (Opaque, Skip): return False
            step = 1 if integer else s.rng("st", k).uniform(0.5, 2) * max([1.0] + [abs(float(co2)) for m2, co2 in p.a[0] if m2 == ()])
            if not integer:
                kc = [abs(float(co2)) for m2, co2 in p.a[0] if m2 == ()]
                if kc and kc[0] and not 0.02 < kc[0] < 20 and s.rng("near", k).random() < 0.6: step = kc[0] / 2
            target = (step if want else (s.rng("neg", k).choice([0, -1]) if integer else -step)) if c.k == "pos" else (0 if want else step)
            x = old + (target - v) / float(co)
            if s.is_int(k[0]):
                if abs(x - round(x)) > 1e-9: continue
                x = round(x)
                lo = A.lower_of(k[0][4:] if k[0].startswith("sym:") else k[0])
                if lo is not None and x < lo: continue
            s.cells[k] = x; s.reset()
            try: ok = s.cond(c, env) == want
            except (Opaque, Skip): ok = False
            if c.k == "zero" and want and not ok and not integer:
                pass
            if ok: s.pins.add(k); return True
            s.cells[k] = old; s.reset()
        return False
    def force_any(s, c, want, env):
        """change one of the cells the condition depends on until the condition comes out as wanted"""
        s.trace = []; s.reset()
        try: s.cond(c, env)
        except (Opaque, Skip): pass
        finally: tr, s.trace = s.trace, None
        ks = [k for k in dict.fromkeys(tr) if k not in s.pins and k in s.cells]
        r = s.rng("any", len(ks)); r.shuffle(ks)
        near = thresholds(c)
        for k in ks[:12]:
            if time.time() > s.stop: break
            old = s.cells[k]
            if s.is_int(k[0]):
                lo = A.lower_of((k[0][4:] if k[0].startswith("sym:") else k[0]).split("#it")[0])
                cand = [x for x in (0, 1, 2, 3, -1, old + 1) if x != old and (lo is None or x >= lo)]
            else: cand = near + [0.0, 1.0, -old, old * 8 + 1, old / 64, -8 * old - 1]
            for x in cand:
                s.cells[k] = x; s.reset()
                try: ok = s.cond(c, env) == want
                except (Opaque, Skip): ok = False
                if ok: s.pins.add(k); return True
            s.cells[k] = old
        s.reset()
        return False
    def perm(s, key, n=128):
        if key not in s.prm:
            l = list(range(n)); random.Random("%s%s" % (s.seed, key)).shuffle(l); s.prm[key] = l
        return s.prm[key]
    def rng(s, *key):
        return random.Random(repr((s.seed,) + key))
    def cell(s, path, idx):
        k = (path, idx)
        if s.trace is not None: s.trace.append(k)
        if k in s.cells: return s.cells[k]
        v = None
        best = None
        for suf, g in s.gens:
            if path.endswith(suf) and (best is None or len(suf) > len(best[0])): best = (suf, g)
        if best: v = best[1](s, path, idx) if callable(best[1]) else best[1]
        if v is None:
            r = s.rng("cell", path, idx)
            path = path.split("#it")[0]
            if path.startswith(("a", "sym:a")) and A.path_is(path, tuple(LAYOUT) + tuple(A.INJ)) and all(isinstance(i, int) for i in idx):
                lay = next((y for x, y in LAYOUT.items() if path.endswith(x)), None)
                v = lay(s, idx) if lay else bijection(s, path, idx)
            elif re.match(r"sym:Brand\d*\.i", path): v = r.randint(0, 2147483647)
            elif s.is_int(path):
                lo = A.lower_of(path[4:] if path.startswith("sym:") else path)
                if lo is None: lo = -1 if path.rsplit(":", 1)[-1] in A.INTS and not (A.path_is(path, A.MONO) or A.path_is(path, A.INJ)) else 0
                v = r.randint(lo, max(lo, 0) + s.dim)
                if s.least and lo == 0 and v < s.least and r.random() < 0.6: v = r.randint(s.least, s.dim)
            else: v = s.real(r, idx)
        s.cells[k] = v
        return v
    def real(s, r, idx):
        g = s.regime
        if g == "pos": return r.uniform(0.1, 2)
        if g == "cone": return r.uniform(1, 2) * 4.0 ** -min(idx[-1], 20) * r.choice([1, -1] if idx[-1] % 3 else [1]) if idx and idx[-1] >= 0 else r.uniform(0.1, 2)
        if g == "whole": return float(r.choice([-1, 0, 1, 1, 2, 3]))
        if g == "poszero": return 0.0 if r.random() < 0.3 else r.uniform(0.1, 2)
        if r.random() < s.special: return r.choice(SPECIAL + s.consts)
        return r.uniform(-2, 2) * s.scale
    def is_int(s, path):
        path = path.split("#it")[0]
        if path.startswith("sym:"):
            m = re.match(r'sym:(?:L\d+|B\w+?\d+)\.([iIf])', path)
            if m: return m.group(1) in "iI"
            if path[4:] in s.isyms: return True
        if path.rsplit(":", 1)[-1] in A.INTS: return True
        return A.lower_of(path) is not None or A.path_is(path, A.MONO) or A.path_is(path, A.INJ) or any(path.endswith(x) for x in s.ints)
    def uf(s, name, args):
        key = (name,) + tuple(round(a, 6) if isinstance(a, float) and abs(a) < 1e6 else (float("%.7g" % a) if isinstance(a, float) else a) for a in args)
        if name in T.INTFN: return s.rng("uf", key).choice((0, 0, 1, 1, 2, 3))
        return s.rng("uf", key).uniform(-2, 2)
    # ------------------------------------------------------------ evaluation
    def tick(s):
        s.steps += 1
        if s.steps > 3000000: raise Opaque("budget")
    def ev(s, n, env):
        """n: value / boolean node, env: var height or lv node -> int"""
        f = fvs(n)
        if f:
            try: key = (n,) + tuple([env[x] for x in f])
            except KeyError: raise Opaque("lv")
        else: key = n
        r = s.memo.get(key)
        if r is None:
            try: r = s._ev(n, env)
            except (Opaque, Skip) as ex: s.memo[key] = ex; raise
            s.memo[key] = r
        elif isinstance(r, BaseException): raise r
        return r
    def _ev(s, n, env):
        s.tick()
        k = n.k
        if k == "P":
            t = 0
            for m, c in n.a[0]:
                v = c.numerator if c.denominator == 1 else float(c)
                for a, e in m:
                    x = s.at(a, env)
                    if x is True: x = 1
                    elif x is False: x = 0
                    if e > 0: v = v * x ** e
                    else:
                        if x == 0: raise Skip("div0")
                        v = v * float(x) ** e
                t = t + v
            if isinstance(t, float) and (t != t or abs(t) > 1e200): raise Skip("range")
            return t
        if k == "ite":
            return s.ev(n.a[1], env) if s.cond(n.a[0], env) else s.ev(n.a[2], env)
        if k == "T": return True
        if k == "F": return False
        if k in ("ptr", "null"): return s.ptrval(n, env)
        return s.at(n, env)
    def ptrval(s, n, env):
        if n.k == "null" or s.cond(T.mk("ptrnull", n), env): return ("p", "null")
        return ("p",) + s.ptrkey(n, env)
    def ptrev(s, n, env):
        while n.k == "ite": n = n.a[1] if s.cond(n.a[0], env) else n.a[2]
        if n.k in ("ptr", "null"): return s.ptrval(n, env)
        if n.k == "P" and len(n.a[0]) == 1 and n.a[0][0][1] == 1 and len(n.a[0][0][0]) == 1: n = n.a[0][0][0][0][0]
        if n.k == "sel": return s.ptrsel(n.a[0], tuple(s.idx(x, env) for x in n.a[1]), env)
        raise Opaque("pointer")
    def ptrsel(s, arr, idx, env):
        """sel of a cell known to hold a pointer"""
        while True:
            if arr.k == "ite": arr = arr.a[1] if s.cond(arr.a[0], env) else arr.a[2]; continue
            if arr.k == "eff":
                d = s.writes(arr, env)
                if idx in d:
                    if isinstance(d[idx], BaseException): raise d[idx]
                    if isinstance(d[idx], tuple): return d[idx]
                    if arr.a[2]: raise Opaque("pointer")
                    return s.ptrev(arr.a[6], env)
                arr = arr.a[0]; continue
            if arr.k == "init" and not re.match(r"L\d+:", arr.a[0]): return s.ptrval(T.mkptr(arr.a[0] + "*[]", tuple(T.const(i) for i in idx) + (T.ZERO,)), env)
            raise Opaque("pointer")
    def cond(s, c, env):
        k = c.k
        if c in s.forced: return s.forced[c]
        if k == "pos":
            v = s.ev(c.a[0], env)
            if c.a[1] == "r" and isinstance(v, float):
                # sums of magnitudes decide whether a comparison is a numerical tie
                if v != 0 and abs(v) < 1e-11 * s.mag(c.a[0], env): raise Skip("tie")
            return v > 0
        if k == "zero":
            v = s.ev(c.a[0], env)
            if isinstance(v, float):
                if v != 0 and abs(v) < 1e-11 * s.mag(c.a[0], env): raise Skip("tie")
            return v == 0
        if k == "any":
            return s.first(c.a[0], c.a[1], c.a[2], env) is not None
        if k == "isnan":
            return s.rng("isnan", round(float(s.ev(c.a[0], env)), 6)).random() < 0.15
        if k == "isinf":
            v = float(s.ev(c.a[0], env))
            return abs(v) >= 1e29 or v != 0 and s.rng("isinf", "%.6g" % v).random() < 0.3
        if k == "ptrnull":
            return s.rng("null", s.ptrkey(c.a[0], env)).random() < 0.3
        if k == "bopq" and c.a[0] == "ptreq": return False      # (blocks under different names are taken to be different ones)
        if k == "bopq": raise Opaque("bopq")
        raise Opaque("cond " + k)
    def ptrkey(s, p, env):
        if p.k == "ptr": return (p.a[0],) + tuple(s.ev(i, env) for i in p.a[1])
        if p.k == "null": return ("null",)
        if p.k == "ite": return s.ptrkey(p.a[1] if s.cond(p.a[0], env) else p.a[2], env)
        if p.k == "P" and len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1 and p.a[0][0][0][0][1] == 1: p = p.a[0][0][0][0][0]
        if p.k == "sym": return ("sym", str(p.a[0]))
        raise Opaque("ptr")
    def mag(s, p, env):
        t = 0.0
        for m, c in p.a[0] if p.k == "P" else ():
            v = abs(float(c))
            for a, e in m: v *= abs(float(s.at(a, env))) ** e
            t += v
        return t
    def rngval(s, N_, env):
        v = s.ev(N_, env)
        if v is True or v is False: v = int(v)
        if isinstance(v, float):
            if v != int(v): raise Skip("nonint")
            v = int(v)
        if v > 400: raise Skip("big")
        return v
    def first(s, N_, h, body, env):
        n = s.rngval(N_, env)
        e = dict(env)
        for i in range(max(0, n)):
            e[h] = i
            if s.ev(body, e): return i
        return None
    def at(s, a, env):
        k = a.k
        if k == "var": return env[a.a[0]]
        if k == "lv":
            if a in env: return env[a]
            raise Opaque("lv")
        f = fvs(a)
        if f:
            try: key = (a, 1) + tuple([env[x] for x in f])
            except KeyError: raise Opaque("lv")
        else: key = (a, 1)
        r = s.memo.get(key)
        if r is None:
            try: r = s._at(a, env)
            except (Opaque, Skip) as ex: s.memo[key] = ex; raise
            s.memo[key] = r
        elif isinstance(r, BaseException): raise r
        return r
    def _at(s, a, env):
        s.tick()
        k = a.k
        if k == "sel":
            idx = tuple(s.idx(i, env) for i in a.a[1])
            return s.sel(a.a[0], idx, env)
        if k == "sym": return s.cell("sym:" + str(a.a[0]), ())
        if k == "sum":
            n = s.rngval(a.a[0], env); e = dict(env); t = 0
            for i in range(max(0, n)):
                e[a.a[1]] = i; t = t + s.ev(a.a[2], e)
            return t
        if k == "prod":
            n = s.rngval(a.a[0], env); e = dict(env); t = 1
            for i in range(max(0, n)):
                e[a.a[1]] = i; t = t * s.ev(a.a[2], e)
            return t
        if k == "fold":
            n = s.rngval(a.a[0], env); e = dict(env); x = s.ev(a.a[1], env)
            for i in range(max(0, n)):
                e[a.a[2]] = i; e[a.a[3]] = x; x = s.ev(a.a[4], e)
            return x
        if k == "first":
            r = s.first(a.a[0], a.a[1], a.a[2], env)
            return s.rngval(a.a[0], env) if r is None else r
        if k in ("paren", "val", "gval"): return s.ev(a.a[0], env)
        if k == "let":
            args = tuple(s.ev(x, env) for x in a.a[1])
            key = (a.a[0], args)
            r = s.memo.get(key)
            if r is None:
                try: r = s.lev(a.a[0], args, {})
                except (Opaque, Skip) as ex: r = ex
                s.memo[key] = r
            if isinstance(r, BaseException): raise r
            return r
        if k == "fn":
            nm = a.a[0]
            if nm in ("INF", "NAN"): return s.uf(nm, ())  if nm == "NAN" else 1e30
            args = []
            for x in a.a[1:]:
                if isinstance(x, N): args.append(s.ev(x, env) if x.k not in T.ARRK or x.k in ("T", "F") else s.arrkey(x, env))
                else: args.append(x)
            if nm == "sqrt":
                if args[0] < 0: 
                    if args[0] > -1e-12: return 0.0
                    raise Skip("sqrt")
                return math.sqrt(args[0])
            if nm == "exp":
                if args[0] > 300: raise Skip("exp")
                return math.exp(args[0])
            if nm == "log":
                if args[0] < 0: return s.uf("log", args)      # not a number: equal only to itself
                if args[0] == 0: raise Skip("log")
                return math.log(args[0])
            if nm == "f32": return float("%.3g" % args[0])      # (any coarser number)
            if nm == "trunc": return math.trunc(args[0])
            if nm == "pow":
                try: r = float(args[0]) ** float(args[1])
                except (OverflowError, ZeroDivisionError): raise Skip("pow")
                if isinstance(r, complex): raise Skip("pow")
                return r
            if nm == "ceildiv": return max(0, -((-int(args[0])) // int(args[1])))
            if nm in ("sdiv", "udiv"):
                if args[1] == 0: raise Skip("div0")
                q = abs(int(args[0])) // abs(int(args[1])); return q if (args[0] >= 0) == (args[1] >= 0) else -q
            if nm in ("srem", "urem"):
                if args[1] == 0: raise Skip("div0")
                return int(math.fmod(int(args[0]), int(args[1])))
            if nm in ("and", "or", "xor"):
                x, y = int(args[0]), int(args[1]); return x & y if nm == "and" else x | y if nm == "or" else x ^ y
            if nm == "ashr": return int(args[0]) >> int(args[1])
            if nm == "shl": return int(args[0]) << int(args[1])
            return s.uf(nm, args)
        if k in ("pos", "zero", "any", "isnan", "isinf", "ptrnull", "bopq"): return s.cond(a, env)
        if k == "ite": return s.ev(a, env)
        if k == "fopq":
            # a value the source leaves unset can be anything
            if a.a[0] == "undef": return s.rng("undef").choice([3, 5, -2, 7])
            raise Opaque("fopq")
        if k == "P": return s.ev(a, env)
        raise Opaque(k)
    def lev(s, n, args, memo):
        """value of a closed let body: same rules as ev, with parameters"""
        sub = LetModel(s, args)
        return sub.ev(n, {})
    def arrkey(s, x, env): raise Opaque("array argument")
    def idx(s, i, env):
        v = s.ev(i, env)
        if v is True: v = 1
        if v is False: v = 0
        if isinstance(v, float):
            if v != int(v): raise Skip("nonint index")
            v = int(v)
        return v
    def sel(s, arr, idx, env):
        while True:
            k = arr.k
            if k == "ite": arr = arr.a[1] if s.cond(arr.a[0], env) else arr.a[2]; continue
            if k == "init": return s.cell(arr.a[0], idx)
            if k == "eff":
                d = s.writes(arr, env)
                if d is None: raise Opaque("effect")
                kind = arr.a[1]
                if idx in d:
                    v = d[idx]
                    if isinstance(v, BaseException): raise v
                    if kind == "set": return v
                    return v + s.sel(arr.a[0], idx, env)
                arr = arr.a[0]; continue
            raise Opaque(k)
    def writes(s, e, env):
        try: key = (e,) + tuple([env[x] for x in fvs_own(e)])
        except KeyError: raise Opaque("lv")
        r = s.mats.get(key)
        if r is not None: return r
        _, kind, Ns, hs, g, ix, val = e.a
        out = {}
        def rec(j, en):
            if j == len(Ns):
                s.tick()
                if not s.ev(g, en): return
                i = tuple(s.idx(x, en) for x in ix)
                try: v = s.ev(val, en)
                except (Opaque, Skip) as ex: v = ex
                if kind == "add" and i in out:
                    if isinstance(v, BaseException) or isinstance(out[i], BaseException): out[i] = Opaque("acc")
                    else: out[i] = out[i] + v
                else: out[i] = v
                return
            n = s.rngval(Ns[j], en)
            for t in range(max(0, n)):
                en[hs[j]] = t
                rec(j + 1, en)
        rec(0, dict(env))
        s.mats[key] = out
        return out
    def touched(s, arr, env):
        """concrete cells possibly written along the chain"""
        out = set()
        def go(a):
            while True:
                if a.k == "ite": a = a.a[1] if s.cond(a.a[0], env) else a.a[2]; continue
                if a.k == "eff":
                    out.update(s.writes(a, env)); a = a.a[0]; continue
                return a
        base = go(arr)
        return out, base

class NonTerm(Exception): pass

class Side:
    """one of the two summaries under an interpretation: its loops kept by transfer are iterated from their initial state"""
    def __init__(s, base, vf):
        s.base = base; s.frames = {}; s.fins = {}; s.n = 0
        s.recs = {r.k: r for r in vf.recs}
        s.calls = {}; base.sides.append(s)
        for e in vf.events: s.calls[e.fn, getattr(e, "n", None)] = tuple(sorted(getattr(e, "loops", ()), key=s.depth))
        s.root = s.frame(())
    def anc(s, k):
        out = []
        while k is not None: out.append(k); k = s.recs[k].parent
        return out[::-1]
    def depth(s, k): return len(s.anc(k))
    def frame(s, F):
        f = s.frames.get(F)
        if f is None: f = s.frames[F] = Frame(s, F)
        return f
    def resolve(s, F, ks):
        """the part of the iteration vector that loops ks (outermost first) need, finished loops at their last iteration"""
        d = dict(F); G = ()
        for k in ks: G += ((k, d[k] if k in d else s.final(G, k)),)
        return G
    def final(s, G, k):
        r = s.fins.get((G, k))
        if r is None:
            t = 0; c = s.recs[k].lcond
            try:
                while s.frame(G + ((k, t),)).true(c):
                    t += 1; s.n += 1
                    if t > 120: raise NonTerm("%s" % s.recs[k].fn)
                    if s.n > 4000: raise Skip("many iterations")
                r = t
            except (Opaque, Skip, NonTerm) as ex: r = ex
            s.fins[G, k] = r
        if isinstance(r, BaseException): raise r
        return r

class Frame(Model):
    """evaluation at one iteration of the enclosing loops"""
    def __init__(s, side, F):
        s.side, s.F, s.b = side, F, side.base
        s.memo = {}; s.mats = {}; s.steps = 0; s.seed = s.b.seed; s.prm = s.b.prm; s.forced = s.b.forced; s.cells = s.b.cells; s.ints = s.b.ints; s.isyms = s.b.isyms
    trace = property(lambda s: s.b.trace, lambda s, v: setattr(s.b, "trace", v))
    pins = property(lambda s: s.b.pins, lambda s, v: setattr(s.b, "pins", v))
    def reset(s): s.b.reset()
    def tick(s): s.b.tick()
    def uf(s, name, args): return s.b.uf(name, args)
    def rng(s, *k): return s.b.rng(*k)
    def true(s, c):
        while c.k == "ite": c = c.a[1] if s.cond(c.a[0], {}) else c.a[2]
        if c is TRUE: return True
        if c is FALSE: return False
        return bool(s.ev(c, {}))
    def touched(s, arr, env):
        key = ("touched", arr)
        if key in s.memo: return s.memo[key]
        out, base = Model.touched(s, arr, env)
        m = re.match(r'L(\d+):(.*)', base.a[0]) if base.k == "init" else None
        if m and int(m.group(1)) in s.side.recs:
            k = int(m.group(1)); r = s.side.recs[k]
            G = s.side.resolve(s.F, s.side.anc(k)); t = G[-1][1]
            if t == 0: fr, v = s.side.frame(G[:-1]), r.init.get(m.group(2))
            else: fr, v = s.side.frame(G[:-1] + ((k, t - 1),)), r.latch.get(m.group(2))
            if v is not None:
                o2, base = fr.touched(v, {}); out = out | o2
        s.memo[key] = out, base
        return out, base
    def cell(s, path, idx):
        sc = path.startswith("sym:"); nm = path[4:] if sc else path
        m = re.match(r'L(\d+)([.:])(.*)', nm)
        if m and int(m.group(1)) in s.side.recs:
            k = int(m.group(1)); rest = m.group(3); r = s.side.recs[k]
            G = s.side.resolve(s.F, s.side.anc(k)); t = G[-1][1]
            if G != s.F: return s.side.frame(G).cell(path, idx)
            if sc:
                if rest == "I": return t
                if int(rest[1:]) >= len(r.phis): raise Opaque("variable of the other side's loop")
                v = r.phis[int(rest[1:])][1 if t == 0 else 2]
                if v is None: raise Opaque("pointer loop variable")
            else:
                v = (r.init if t == 0 else r.latch).get(rest)
                if v is None: v = T.mk("init", rest)
            fr = s.side.frame(G[:-1] if t == 0 else G[:-1] + ((k, t - 1),))
            return fr.ev(v, {}) if sc else fr.sel(v, idx, {})
        m = re.match(r'B(.+?)(\d+)[.:]', nm)
        if m:
            ks = s.side.calls.get((m.group(1), int(m.group(2))))
            if ks:
                G = s.side.resolve(s.F, ks)
                return s.b.cell(path + "#it%s" % ",".join(str(t) for _, t in G), idx)
        return s.b.cell(path, idx)

class LetModel(Model):
    def __init__(s, parent, args):
        s.p = parent; s.args = args; s.memo = {}; s.steps = parent.steps; s.lm = {}
        s.seed = parent.seed; s.forced = {}; s.trace = None
    def ev(s, n, env):
        r = s.lm.get(n)
        if r is None:
            r = s._ev(n, env); s.lm[n] = r
        return r
    def at(s, a, env):
        if a.k == "rv": return s.args[a.a[0]]
        r = s.lm.get((a, 1))
        if r is None:
            r = s._at(a, env); s.lm[(a, 1)] = r
        return r
    def tick(s): s.p.tick()
    def uf(s, name, args): return s.p.uf(name, args)
    def rng(s, *k): return s.p.rng(*k)

def thresholds(c):
    """values on either side of the small or large numbers a condition compares with"""
    out = []
    if c.k in ("pos", "zero") and c.a[0].k == "P":
        for m, co in c.a[0].a[0]:
            x = abs(float(co))
            if m == () and x and not 0.02 < x < 20: out += [x / 2, -x / 2, 2 * x, 2 * x * x]
    return out
def close_to(a, b):
    if a is b: return True
    if isinstance(a, bool) or isinstance(b, bool): return int(a) == int(b)
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, tuple) or isinstance(b, tuple): return a == b
    return abs(a - b) <= 3e-9 * max(1e-9, abs(a), abs(b)) + 1e-14
