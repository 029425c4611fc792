"""Value-flow summariser: evaluates a function's control-flow graph once, bottom-up, into closed-form terms.
No path enumeration and no solver: joins become guarded values, counted loops are closed by recurrence rules."""
import re, math
from fractions import Fraction
import terms as T, arrays as A, cfgx, llir
from terms import mk, TRUE, FALSE, ZERO, ONE, NULL, const, aslf, ite, band, bor, bnot, add, sub, mul, div, subst, is_const, cval

NANCMP = False
class Unsupported(Exception): pass

class Event:
    __slots__ = ("cond", "fn", "args", "inst", "mem", "stack", "order", "loops", "n")
    def __init__(s, cond, fn, args, inst, mem, stack, order):
        s.n = 0; s.cond, s.fn, s.args, s.inst, s.mem, s.stack, s.order = cond, fn, args, inst, mem, stack, order; s.loops = ()

class Mem:
    """path -> array node; unknown paths come from the parent (loop header symbol or initial contents)"""
    __slots__ = ("d", "mk0")
    def __init__(s, mk0, d=None): s.mk0 = mk0; s.d = dict(d) if d else {}
    def get(s, p):
        r = s.d.get(p)
        if r is None and "." in p:
            # a field of an object some external call has filled
            q = p.rsplit(".", 1)[0]; b = s.d.get(q)
            if b is not None and b.k == "init" and b.a[0].startswith("ext:"): return mk("init", b.a[0] + p[len(q):])
        return r if r is not None else s.mk0.arr(p)
    def set(s, p, v): s.d[p] = v
    def copy(s): return Mem(s.mk0, s.d)
class Root:
    def arr(s, p): return mk("init", p)
    def ptrarr(s, p): return mk("init", p)
ROOT = Root()
class LoopRoot:
    n = [0]
    def __init__(s, mem_in):
        LoopRoot.n[0] += 1
        s.uid = LoopRoot.n[0]; s.mem_in = mem_in; s.touched = {}; s.ptr_used = set()
    def arr(s, p):
        r = s.touched.get(p)
        if r is None: r = s.touched[p] = mk("hdr", s.uid, p)
        return r
    def ptrarr(s, p):
        s.ptr_used.add(p)
        m = s.mem_in
        if p in m.d: return m.d[p]
        return m.mk0.ptrarr(p)

NOEFFECT = {"printf", "fprintf", "puts", "putchar", "fflush", "llvm.dbg.value", "llvm.dbg.declare", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "free"}
MATH = {"sqrt": "sqrt", "llvm.sqrt.f64": "sqrt", "fabs": "fabs", "llvm.fabs.f64": "fabs", "exp": "exp", "log": "log", "llvm.exp.f64": "exp", "llvm.log.f64": "log"}
MATH2 = {"pow": "pow", "llvm.pow.f64": "pow"}

class LoopInfo:
    def __init__(s): pass

_lo = {}
def local_order(f):
    """allocas of f, the ones handed to calls first, in the order of those calls"""
    if f not in _lo:
        al = [i for i in f.entry.insts if i.op == "alloca"]; names = {a.res: a for a in al}; out = []
        for b in cfgx.rpo(f):
            for i in b.insts:
                if i.op != "call" or str(i.extra).startswith("llvm."): continue
                for t, v in i.args:
                    if v in names and names[v] not in out: out.append(names[v])
        _lo[f] = out + [a for a in al if a not in out]
    return _lo[f]
class VF:
    def __init__(s, prog, boundary=None, opaque_loops=None, unroll=4):
        s.prog = prog
        s.boundary = boundary or {}      # name -> list of (arg index / path writer) ; see call_boundary
        s.stack = []
        s.events = []
        s.loopinfos = []
        s.uid = s.lid = s.mid = 0; s.malmap = {}; s.callmap = {}; s.allocs = {}; s.alone = ()
        s.order = 0; s.extn = 0
        s.condstack = []
        s.notes = []
        s.tie = 0; s.ties = 1
        s.visited = set(); s.stores = set()
        s.nstmts = 0
        s.recs = []          # loops compared by their per-iteration transfer instead of a closed form
        s.assumes = []       # (record index, condition): some exit of the loop is taken
        s.nhavoc = 0
        s.vol = []       # symbols whose value belongs to one execution of a call or loop
        s.bcount = {}
    # ------------------------------------------------------------------ entry points
    def run(s, name, args=None, mem=None):
        f = s.prog.funcs[name] if isinstance(name, str) else name
        if args is None:
            args = []
            for i, t in enumerate(f.ptypes):
                if t == "ptr": args.append(T.mkptr("a%d[]" % i, (ZERO,)))
                else: args.append(T.atom(mk("sym", "a%d" % i)))
        mem = mem or Mem(ROOT)
        r, m = s.call_fn(f, args, mem)
        return r, m
    def call_fn(s, f, args, mem):
        if len(s.stack) > 30 or f.name in [x.name for x in s.stack]: raise Unsupported("recursion in " + f.name)
        s.stack.append(f)
        s.visited.add(f.name)
        try:
            env = dict(zip(f.params, args))
            for i, t in enumerate(f.ptypes):
                pass
            reg = s.region(f, set(cfgx.rpo(f)), f.entry, None, mem.copy(), env, TRUE)
            if not reg.rets: return None, mem
            # merge returns
            val, m = reg.rets[0][2], reg.rets[0][1]
            for c, m2, v2 in reg.rets[1:]:
                if v2 is not None: val = ite(c, v2, val)
                m = s.merge_mem(c, m2, m)
            for p in [p for p in m.d if p.startswith("loc") and p in reg.locals]: del m.d[p]
            for p in list(m.d):
                r = re.match(r'(loc\d+)\[\]', p)
                if r and (r.group(1) + "[]") in reg.locals: del m.d[p]
            return val, m
        finally:
            s.stack.pop()
    def merge_mem(s, c, A_, B_):
        if A_ is B_: return A_
        out = Mem(A_.mk0)
        for p in set(A_.d) | set(B_.d):
            out.d[p] = A.merge(c, A_.get(p), B_.get(p))
        return out
    # ------------------------------------------------------------------ regions
    def region(s, f, blocks, entry, loop, mem, env, cond0):
        """evaluate blocks (a function body or one loop body) once.  Back edges to `entry` become latch edges."""
        R = LoopInfo(); R.rets = []; R.latch = []; R.exits = []; R.locals = set()
        cfgx.loops(f)
        of = f._loop_of
        order = [b for b in cfgx.rpo(f) if b in blocks]
        incoming = {b: [] for b in order}
        incoming[entry].append((cond0, mem, None, env))
        done = set()
        R.condof = {}
        for b in order:
            if b in done: continue
            inc = incoming[b]
            if not inc: continue
            # innermost loop containing b, relative to current region
            inner = of.get(b)
            while inner is not None and inner.parent is not loop and inner is not loop: inner = inner.parent
            if inner is loop: inner = None
            c, m, e = s.join(b, inc, skip_phis=(inner is not None and inner.header is b) or b is entry and loop is not None)
            if inner is not None:
                if inner.header is not b: raise Unsupported("irreducible entry in " + f.name)
                s.condstack.append(c)
                outs = s.loop(f, inner, inc, c, m, e, R)
                s.condstack.pop()
                for x in inner.blocks: done.add(x)
                for frm, to, ec, em, ee in outs:
                    ec = band(c, ec)
                    if ec is FALSE: continue
                    if to in blocks and not (loop is not None and to is entry): incoming[to].append((ec, em, frm, ee))
                    elif to is entry: R.latch.append((ec, em, frm, ee))
                    else: R.exits.append((frm, to, ec, em, ee))
                continue
            R.condof[b] = c
            s.condstack.append(c)
            m, e = s.block(f, b, c, m, e, R)
            s.condstack.pop()
            t = b.term
            if t.op == "ret":
                R.rets.append((c, m, s.val(t.args[0], e) if t.args else None))
            elif t.op == "br":
                if len(b.succ) == 1:
                    s.edge(R, b, b.succ[0], c, m, e, blocks, entry, loop, incoming)
                else:
                    cv = s.boolval(t.args[0], e)
                    if b.succ[0] is b.succ[1]:
                        s.edge(R, b, b.succ[0], c, m, e, blocks, entry, loop, incoming)
                    else:
                        s.edge(R, b, b.succ[0], band(c, cv), m, e, blocks, entry, loop, incoming)
                        s.edge(R, b, b.succ[1], band(c, bnot(cv)), m, e, blocks, entry, loop, incoming)
            elif t.op == "switch":
                v = s.val(t.args[0], e)
                rest = c; tg = {}
                for k, succ in zip(t.extra, b.succ[1:]):
                    q = T.iszero(sub(v, const(k)), "i")
                    tg.setdefault(succ, []).append(band(rest, q))
                    rest = band(rest, bnot(q))
                tg.setdefault(b.succ[0], []).append(rest)
                for succ, cs in tg.items():
                    cc = FALSE
                    for x in cs: cc = bor(cc, x)
                    s.edge(R, b, succ, cc, m, e, blocks, entry, loop, incoming)
        return R
    def edge(s, R, b, to, c, m, e, blocks, entry, loop, incoming):
        if c is FALSE: return
        if to is entry and loop is not None: R.latch.append((c, m, b, e))
        elif to in blocks: incoming[to].append((c, m, b, e))
        else: R.exits.append((b, to, c, m, e))
    def join(s, b, inc, skip_phis=False):
        c = inc[0][0]
        for x in inc[1:]: c = bor(c, x[0])
        if len(inc) == 1:
            cc, m, frm, e = inc[0]
            e = e if not b.phis or skip_phis else dict(e)
            if not skip_phis:
                for p in b.phis:
                    e[p.res] = s.phi_in(p, frm, e)
            return cc, m.copy(), e
        # merged environment: values defined on all incoming edges and equal, else guarded
        sel = [T.constrain(x[0], c) for x in inc]
        m = inc[-1][1].copy()
        for (cc, mm, frm, e), g in reversed(list(zip(inc[:-1], sel[:-1]))):
            m = s.merge_mem(g, mm, m)
        if m in (x[1] for x in inc): m = m.copy()
        base = dict(inc[0][3])
        for x in inc[1:]:
            for k, v in x[3].items():
                if k not in base: base[k] = v
                elif base[k] is not v: base[k] = None if False else v
        # non-phi values that differ between edges (loop-exit values) get guarded
        keys = set(inc[0][3])
        for x in inc[1:]: keys &= set(x[3])
        for k in keys:
            vs = [x[3][k] for x in inc]
            if any(v is not vs[0] for v in vs) and all(v is not None for v in vs):
                r = vs[-1]
                for v, g in reversed(list(zip(vs[:-1], sel[:-1]))): r = ite(g, v, r)
                base[k] = r
        if not skip_phis:
            pv = {}
            for p in b.phis:
                r = s.phi_in(p, inc[-1][2], inc[-1][3])
                for (cc, mm, frm, e), g in reversed(list(zip(inc[:-1], sel[:-1]))):
                    r = ite(g, s.phi_in(p, frm, e), r)
                pv[p.res] = r
            base.update(pv)
        return c, m, base
    def phi_in(s, p, frm, e):
        for v, lab in p.extra:
            if lab == frm.name: return s.val((p.ty, v), e)
        raise Unsupported("phi without edge")
    # ------------------------------------------------------------------ values
    def val(s, op, e):
        t, v = op
        if v.startswith("%"):
            r = e.get(v)
            if r is None:
                return T.atom(mk("fopq", "undef", v))
            return r
        if t == "ptr":
            if v == "null": return NULL
            if v.startswith("@"): return T.mkptr(v + "[]", (ZERO,)) if not s.prog.resolve(s.stack[-1], v[1:]) else mk("fp", v[1:])
            if v.startswith("getelementptr"):
                return T.mkptr("@constgep:" + v + "[]", (ZERO,))
            if v in ("undef", "poison"): return NULL
            return T.mkptr("?" + v + "[]", (ZERO,))
        if v in ("undef", "poison"): return T.atom(mk("fopq", "undef", "u"))
        if v == "true": return TRUE
        if v == "false": return FALSE
        if t in ("double", "float"):
            x = llir.parse_fp(v)
            if x != x: return T.NAN
            if x in (float("inf"), float("-inf")): return T.INF if x > 0 else T.neg(T.INF)
            return const(Fraction(x))
        if v == "zeroinitializer": return ZERO
        return const(int(v))
    def boolval(s, op, e):
        v = s.val(op, e)
        def leaf(x):
            if x in (TRUE, FALSE): return x
            return bnot(T.iszero(x, "i"))
        return T.map1q(leaf, v)
    def num(s, v):
        return T.map1q(lambda x: ONE if x is TRUE else ZERO if x is FALSE else x, v)
    # ------------------------------------------------------------------ instructions
    def block(s, f, b, cond, mem, env, R):
        env = dict(env)
        for i in b.insts:
            op = i.op
            if op == "phi": continue
            if i is b.term and op in ("br", "ret", "switch", "unreachable"): break
            s.nstmts += 1
            s.inst(f, i, cond, mem, env, R)
            if isinstance(mem, tuple): pass
            if s.newmem is not None: mem = s.newmem; s.newmem = None
        return mem, env
    newmem = None
    def inst(s, f, i, cond, mem, env, R):
        op = i.op
        A2 = lambda: (s.num(s.val(i.args[0], env)), s.num(s.val(i.args[1], env)))
        if op == "load":
            env[i.res] = s.load(s.val(i.args[0], env), i.ty, mem)
        elif op == "store":
            v = s.val(i.args[0], env)
            if i.args[0][0] != "ptr": v = s.num(v)
            if i.args[0][0] == "double": v = T.cut(v)
            s.store(s.val(i.args[1], env), v, mem); s.stores.add(id(i))
        elif op == "getelementptr":
            env[i.res] = s.gep(i, env)
        elif op == "alloca":
            if i.res not in env or not str(env[i.res].a[0] if env[i.res].k == "ptr" else "").startswith("loc"):
                # numbered by first use as a call argument, so that the order of declarations means nothing
                for a in local_order(f):
                    s.lid += 1
                    p = "loc%d[]" % s.lid
                    R.locals.add(p)
                    env[a.res] = T.mkptr(p, (ZERO,))
        elif op == "add": env[i.res] = add(*A2())
        elif op == "sub": env[i.res] = sub(*A2())
        elif op == "mul": env[i.res] = mul(*A2())
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = A2()
            env[i.res] = T.cut({"fadd": add, "fsub": sub, "fmul": mul, "fdiv": div}[op](T.cut(a), T.cut(b)))
        elif op == "fneg": env[i.res] = T.neg(s.val(i.args[0], env))
        elif op == "fptrunc":
            # (single precision: only exact constants come through unchanged)
            env[i.res] = T.map1("fptrunc", lambda x: x if is_const(x) and cval(x).denominator & cval(x).denominator - 1 == 0 and abs(cval(x).numerator) < 1 << 24 else T.atom(mk("fn", "f32", aslf(x))), s.val(i.args[0], env))
        elif op in ("sext", "trunc", "sitofp", "uitofp", "fpext", "freeze"): env[i.res] = s.num(s.val(i.args[0], env))
        elif op == "zext":
            env[i.res] = s.num(s.val(i.args[0], env))
        elif op in ("bitcast",): env[i.res] = s.val(i.args[0], env)
        elif op in ("fptosi", "fptoui"):
            env[i.res] = T.map1("fptosi", lambda x: x if is_const(x) and cval(x).denominator == 1 else T.atom(mk("fn", "trunc", aslf(x))), s.val(i.args[0], env))
        elif op in ("sdiv", "srem", "udiv", "urem"):
            a, b = A2()
            env[i.res] = T.map2(op, lambda x, y: s.intdiv(op, aslf(x), aslf(y)), a, b)
        elif op in ("and", "or", "xor"):
            a, b = s.val(i.args[0], env), s.val(i.args[1], env)
            if i.ty == "i1":
                a, b = s.boolval(i.args[0], env), s.boolval(i.args[1], env)
                env[i.res] = band(a, b) if op == "and" else bor(a, b) if op == "or" else ite(a, bnot(b), b)
            else:
                env[i.res] = T.map2(op, lambda x, y: T.atom(mk("fn", op, aslf(x), aslf(y))), s.num(a), s.num(b))
        elif op in ("shl", "ashr", "lshr"):
            a, b = A2()
            if op == "shl" and is_const(b): env[i.res] = mul(a, const(2 ** int(cval(b))))
            else: env[i.res] = T.map2(op, lambda x, y: T.atom(mk("fn", op, aslf(x), aslf(y))), a, b)
        elif op == "icmp": env[i.res] = s.icmp(i, env)
        elif op == "fcmp": env[i.res] = s.fcmp(i, env)
        elif op == "select":
            env[i.res] = ite(s.boolval(i.args[0], env), s.val(i.args[1], env), s.val(i.args[2], env))
        elif op in ("ptrtoint", "inttoptr"):
            env[i.res] = T.atom(mk("fopq", op, i.text)) if op == "ptrtoint" else T.mkptr("?p[]", (ZERO,))
        elif op == "call":
            s.call(f, i, cond, mem, env, R)
        elif op in ("unreachable",): pass
        else: raise Unsupported("instruction " + op)
    def intdiv(s, op, a, b):
        if is_const(a) and is_const(b) and cval(b) != 0:
            x, y = int(cval(a)), int(cval(b))
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return const(q if "div" in op else x - q * y)
        return T.atom(mk("fn", op, a, b))
    def icmp(s, i, env):
        a, b = s.val(i.args[0], env), s.val(i.args[1], env)
        p = i.extra
        if i.ty == "ptr":
            if a is NULL: a, b = b, a
            if b is NULL: z = T.ptrnull(a)
            elif a is b: z = TRUE
            else: z = s.ptreq(a, b)
            return z if p == "eq" else bnot(z)
        d = sub(s.num(a), s.num(b))
        return A.simp_bool(s.rel(p.lstrip("us") if p not in ("eq", "ne") else p, d, "i"))
    def ptreq(s, a, b):
        if a.k == "ite": return ite(T.batom(a.a[0]), s.ptreq(a.a[1], b), s.ptreq(a.a[2], b))
        if b.k == "ite": return ite(T.batom(b.a[0]), s.ptreq(a, b.a[1]), s.ptreq(a, b.a[2]))
        if a is b: return TRUE
        if a is NULL or b is NULL: return T.ptrnull(b if a is NULL else a)
        if a.k == "ptr" and b.k == "ptr" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and a.a[1][:-1] == b.a[1][:-1]:
            return T.iszero(sub(a.a[1][-1], b.a[1][-1]), "i")
        return T.batom(mk("bopq", "ptreq", a, b))
    def rel(s, p, d, kind):
        if p == "eq": return T.iszero(d, kind)
        if p == "ne": return bnot(T.iszero(d, kind))
        if p == "gt": return T.pos(d, kind)
        if p == "lt": return T.pos(T.neg(d), kind)
        if p == "ge": return bnot(T.pos(T.neg(d), kind))
        if p == "le": return bnot(T.pos(d, kind))
        raise Unsupported("cmp " + p)
    def fcmp(s, i, env):
        a, b = s.val(i.args[0], env), s.val(i.args[1], env)
        p = i.extra
        if p in ("true", "false"): return TRUE if p == "true" else FALSE
        if p in ("uno", "ord"):
            z = bor(T.isnan(a), T.isnan(b))
            return z if p == "uno" else bnot(z)
        def f(x, y):
            if (x is T.NAN or y is T.NAN) and NANCMP: return TRUE if p[0] == "u" else FALSE
            return s.rel(p[1:], T.psub(aslf(x), aslf(y)), "r")
        return T.map2("fcmp" + p, f, a, b)
    # ------------------------------------------------------------------ memory
    def gep(s, i, env):
        base = s.val(i.args[0], env)
        idxs = [s.num(s.val(a, env)) for a in i.args[1:]]
        return s.lift_ptr(base, lambda p: s.gep1(p, i, idxs))
    def lift_ptr(s, v, f):
        if v.k == "ite": return ite(T.batom(v.a[0]), s.lift_ptr(v.a[1], f), s.lift_ptr(v.a[2], f))
        return f(v)
    def gep1raw(s, p, j):
        if p.k == "ite": return ite(T.batom(p.a[0]), s.gep1raw(p.a[1], j), s.gep1raw(p.a[2], j))
        if p.k != "ptr": return p
        return T.mkptr(p.a[0], p.a[1][:-1] + (add(p.a[1][-1], const(j)),))
    def gep1(s, p, i, idxs):
        if p.k != "ptr":
            return T.mkptr("?gep[]", (ZERO,))
        path, ix = p.a[0], list(p.a[1])
        ty = i.ty
        if not (is_const(idxs[0]) and cval(idxs[0]) == 0):
            if path.endswith("[]"): ix[-1] = add(ix[-1], idxs[0])
            else: return T.mkptr("?gep2:" + path + "[]", (ZERO,))
        for x in idxs[1:]:
            if ty.startswith("%struct") or ty.startswith("%union"):
                n = int(cval(x))
                path += "." + s.prog.fieldname(ty, n)
                body = s.prog.structs[ty]
                ty = llir.split_top(body.strip()[1:-1])[n]
            elif ty.startswith("["):
                m = re.match(r'\[(\d+) x (.*)\]$', ty)
                ty = m.group(2)
                path += "[]"; ix.append(x)
            else: raise Unsupported("gep into " + ty)
        return T.mkptr(path, tuple(ix))
    def load(s, ptr, ty, mem):
        def one(p):
            if p.k != "ptr": return T.mkptr("?null[]", (ZERO,)) if ty == "ptr" else T.atom(mk("fopq", "nullload"))
            path, ix = p.a
            if ty == "ptr":
                arr = mem.d.get(path)
                if arr is None or A.chain(arr)[1].k == "hdr" and arr.k == "hdr": arr = mem.mk0.ptrarr(path)
                def leaf(a, q):
                    if a.k == "init": return T.mkptr(a.a[0] + "*[]", tuple(q) + (ZERO,))
                    if a.k == "hdr":
                        # pointer field written in a loop
                        return T.mkptr("?hdr%d:%s[]" % (a.a[0], a.a[1]), (ZERO,))
                    return T.mkptr("?opq%d:%s[]" % (a.id, path), (ZERO,))
                return A.select(arr, ix, leaf)
            if ty[0] == 'i' and path not in A.INTS: A.INTS.add(path)
            return A.select(mem.get(path), ix)
        return s.lift_ptr(ptr, one)
    def store(s, ptr, v, mem):
        if ptr.k == "ite":
            # weak update of several targets
            def go(p, c):
                if p.k == "ite":
                    go(p.a[1], band(c, T.batom(p.a[0]))); go(p.a[2], band(c, bnot(T.batom(p.a[0])))); return
                if p.k != "ptr": return
                path, ix = p.a
                mem.set(path, A.mk_eff(mem.get(path), "set", (), (), c, ix, v))
            go(ptr, TRUE); return
        if ptr.k != "ptr": return
        path, ix = ptr.a
        mem.set(path, A.store(mem.get(path), ix, v))
    # ------------------------------------------------------------------ calls
    def call(s, f, i, cond, mem, env, R):
        name = i.extra
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"): return
        args = [s.val(a, env) for a in i.args]
        args = [s.num(a) if t != "ptr" else a for a, (t, _) in zip(args, i.args)]
        if name in MATH:
            env[i.res] = T.map1q(lambda x: T.fn(MATH[name], aslf(x)), args[0]); return
        if name in MATH2:
            env[i.res] = T.fn(MATH2[name], *args); return
        if name.startswith("llvm.is.fpclass"):
            env[i.res] = T.isnan(args[0]); return
        if name in ("llvm.smax.i64", "llvm.maxnum.f64", "fmax"): env[i.res] = ite(T.pos(sub(args[0], args[1]), "r"), args[0], args[1]); return
        if name in ("llvm.smin.i64", "llvm.minnum.f64", "fmin"): env[i.res] = ite(T.pos(sub(args[0], args[1]), "r"), args[1], args[0]); return
        if name in ("llvm.fmuladd.f64", "fma", "llvm.fma.f64"): env[i.res] = add(mul(args[0], args[1]), args[2]); return
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            s.memcpy(args, mem)
            if i.res: env[i.res] = args[0]
            return
        if name.startswith("llvm.memset") or name == "memset":
            s.memset(args, mem)
            if i.res: env[i.res] = args[0]
            return
        s.order += 1
        callee = s.prog.resolve(f, name)
        full = TRUE
        for x in s.condstack: full = band(full, x)
        ev = Event(full, name, args, i, None, tuple(x.name for x in s.stack), s.order)
        if name in s.boundary or callee is None or name in NOEFFECT:
            ev.mem = mem.copy()
            s.events.append(ev)
        if name in s.boundary:
            k = s.bcount.get(name, 0); ev.n = s.callmap.get((name, k), k)
            r = s.boundary[name](s, args, mem, i)
            if i.res: env[i.res] = r
            return
        if callee is not None:
            r, m = s.call_fn(callee, args, mem)
            if i.res: env[i.res] = r if r is not None else T.atom(mk("fopq", "noret"))
            s.newmem = m
            return
        if name in ("malloc", "calloc", "realloc"):
            s.mid += 1
            nm = "mal%d" % s.malmap.get(s.mid, s.mid)
            env[i.res] = T.mkptr(nm + "[]", (ZERO,))
            sz = [s.num(x) for x in args[-1:] if name == "realloc"] or [s.num(x) for x in args]
            s.allocs[nm] = (sz[0] if len(sz) == 1 else mul(sz[0], sz[1]), full, i, name)
            return
        if name in NOEFFECT:
            if i.res: env[i.res] = T.atom(mk("fn", name)) if i.ty != "ptr" else NULL
            return
        # what the clock says: some value of its own for every reading and clock
        if name == "clock_gettime" and len(args) == 2 and args[1].k == "ptr":
            s.extn += 1
            for q in [q for q in mem.d if q.startswith(args[1].a[0])]: del mem.d[q]
            mem.set(args[1].a[0], mk("init", "ext:clock(%s)#%d" % (T.show(args[0]), s.extn)))
            if i.res: env[i.res] = T.atom(mk("fopq", name, s.order))
            return
        # unknown external; constant arguments are part of what it computes
        kc = ",".join(T.show(a) for a in args if a.k == "P" and is_const(a))
        if kc: name += "(%s)" % kc
        if i.res:
            if i.ty == "ptr": env[i.res] = T.mkptr("ext:%s%d[]" % (name, s.order), (ZERO,))
            else: env[i.res] = T.atom(mk("fopq", name, s.order))
        for a in args:
            def hv(p):
                if p.k == "ptr":
                    for q in list(mem.d):
                        if q.startswith(p.a[0]): mem.set(q, mk("opq", name, s.order, q))
                    mem.set(p.a[0], mk("opq", name, s.order, p.a[0]))
                return p
            if a.k in ("ptr", "ite") and not a.k == "P":
                try: s.lift_ptr(a, hv)
                except Exception: pass
    def memcpy(s, args, mem):
        d, src, n = args[:3]
        if d.k != "ptr" or src.k != "ptr":
            s.notes.append("memcpy through conditional pointer"); return
        if n.k == "P" and d.a[0].endswith("[]") and src.a[0].endswith("[]"):
            sub_fields = [p for p in set(mem.d) if p.startswith(src.a[0] + ".") or p.startswith(d.a[0] + ".")]
            fl = s.struct_of_size(n, src.a[0])
            if fl:
                for fld in fl:
                    a, b = d.a[0] + "." + fld, src.a[0] + "." + fld
                    mem.set(a, A.store(mem.get(a), d.a[1], A.select(mem.get(b), src.a[1])))
                return
            cnt = T.pscale(n, Fraction(1, 8))
            if s.bytewise(d.a[0], src.a[0], mem): cnt = n
            lv = T.fresh_lv(cnt)
            v = A.select(mem.get(src.a[0]), src.a[1][:-1] + (add(src.a[1][-1], T.atom(lv)),))
            mem.set(d.a[0], A.mk_eff(mem.get(d.a[0]), "set", (lv,), (cnt,), TRUE, d.a[1][:-1] + (add(d.a[1][-1], T.atom(lv)),), v))
            return
        mem.set(d.a[0], mk("opq", "memcpy", s.order, d.a[0]))
    def bytewise(s, d, src, mem):
        return any(x in d for x in getattr(s, "byte_paths", ()))
    def struct_of_size(s, n, path):
        if not is_const(n): return None
        k = int(cval(n))
        if k % 8: return None
        if path.endswith("info*[]") or path.endswith("best_info*[]"):
            fl = s.prog.fields.get("%struct.stats")
            if fl and len(fl) * 8 == k: return fl
        return None
    def memset(s, args, mem):
        d, v, n = args[:3]
        if d.k == "ptr" and n.k == "P" and is_const(v) and cval(v) == 0 and d.a[0].endswith("[]"):
            cnt = n if s.bytewise(d.a[0], None, mem) else T.pscale(n, Fraction(1, 8))
            lv = T.fresh_lv(cnt)
            mem.set(d.a[0], A.mk_eff(mem.get(d.a[0]), "set", (lv,), (cnt,), TRUE, d.a[1][:-1] + (add(d.a[1][-1], T.atom(lv)),), ZERO))
        elif d.k == "ptr":
            mem.set(d.a[0], mk("opq", "memset", s.order, d.a[0]))
    # ------------------------------------------------------------------ loops
    def loop(s, f, lp, inc, cond, mem_in, env_in, R):
        h = lp.header
        # initial phi values
        init = {}
        for p in h.phis:
            vs = []
            sel = [T.constrain(x[0], cond) for x in inc]
            r = s.phi_in(p, inc[-1][2], inc[-1][3])
            for (cc, mm, frm, e), g in reversed(list(zip(inc[:-1], sel[:-1]))):
                r = ite(g, s.phi_in(p, frm, e), r)
            init[p.res] = r
        n_ev = len(s.events); saved_uid = (s.uid, s.lid, s.mid); saved_order = (s.order, s.extn); n_li = len(s.loopinfos)
        n_rc = len(s.recs); n_as = len(s.assumes); hv = s.nhavoc; bc = dict(s.bcount); ties = s.ties
        res = s.loop_symbolic(f, lp, init, mem_in, env_in, R)
        if res is not None and res.small is not None and not lp.children:
            # constant small trip count: unroll exactly
            del s.events[n_ev:]; del s.loopinfos[n_li:]
            (s.uid, s.lid, s.mid), (s.order, s.extn) = saved_uid, saved_order
            del s.recs[n_rc:]; del s.assumes[n_as:]; s.nhavoc = hv; s.bcount = bc; s.ties = ties
            r2 = s.loop_unroll(f, lp, init, mem_in, env_in, R, res.small)
            if r2 is not None: return r2
            res = s.loop_symbolic(f, lp, init, mem_in, env_in, R)
        return res.outs
    def loop_unroll(s, f, lp, init, mem_in, env_in, R, n):
        mem = mem_in; env = dict(env_in); vals = dict(init); outs = []
        c = TRUE
        for it in range(n + 2):
            e = dict(env); e.update(vals)
            r = s.region(f, lp.blocks, lp.header, lp, mem, e, c)
            R.locals |= r.locals
            R.rets.extend(r.rets)
            for x in r.exits: outs.append(x)
            if not r.latch: return outs
            if len(r.latch) != 1: return None
            c, mem, frm, env = r.latch[0]
            vals = {p.res: s.phi_in(p, frm, env) for p in lp.header.phis}
        return None
    def loop_symbolic(s, f, lp, init, mem_in, env_in, R):
        h = lp.header
        I = T.fresh_lv(None); Iv = T.atom(I)
        lroot = LoopRoot(mem_in)
        mem0 = Mem(lroot)
        env = dict(env_in)
        sym = {}       # phi name -> lv symbol
        ptrphi = {}
        for p in h.phis:
            v = T.fresh_lv(None); sym[p.res] = v
            if p.ty != "ptr" and not s.increasing(f, lp, p, init[p.res]): A.SIGNED.add(v)
            if p.ty == "ptr":
                b = init[p.res]
                if b.k == "ptr":
                    env[p.res] = T.mkptr(b.a[0], b.a[1][:-1] + (T.atom(v),)); ptrphi[p.res] = b
                else:
                    env[p.res] = T.mkptr("?phi%d[]" % v.a[0], (ZERO,)); ptrphi[p.res] = None
            elif p.ty == "i1": env[p.res] = T.batom(mk("bopq", "i1phi", T.atom(v)))
            else: env[p.res] = T.atom(v)
        al0 = set(s.allocs); n_ev = len(s.events); n_rc = len(s.recs); n_as = len(s.assumes); hv0 = s.nhavoc; n_vol = len(s.vol)
        reg = s.region(f, lp.blocks, h, lp, mem0, env, TRUE)
        R.locals |= reg.locals
        out = LoopInfo(); out.small = None
        info = LoopInfo(); info.fn = f.name; info.loop = lp; info.opaque = False; info.iter = I; info.mem_in = mem_in; info.lroot = lroot
        s.loopinfos.append(info)
        body_events = s.events[n_ev:]
        # returns inside the loop body are handled as side exits
        exits = list(reg.exits)
        rets = list(reg.rets)
        if not reg.latch:
            # loop never iterates: plain code
            mp = {sym[p]: (init[p] if p not in ptrphi else (init[p].a[1][-1] if ptrphi[p] is not None else ZERO)) for p in sym}
            for p in sym: 
                if mp[sym[p]].k == "ite": pass
            out.outs = s.finish_plain(exits, rets, mp, lroot, mem_in, R)
            m2 = dict(mp)
            for p, hd in lroot.touched.items(): m2[hd] = mem_in.get(p)
            s.rewrite(T.Subst(m2), n_rc, n_as, n_ev)
            return out
        if len(reg.latch) > 1:
            # loop-simplify guarantees one latch block; merge edges
            lc = FALSE
            for x in reg.latch: lc = bor(lc, x[0])
        lcond, lmem, lfrm, lenv = reg.latch[0]
        S = LoopSolver(s, f, lp, I, sym, ptrphi, init, lroot, mem_in, lcond, lmem, lfrm, lenv, exits, rets, R)
        S.n_rc, S.n_as, S.n_ev = n_rc, n_as, n_ev; S.al0 = al0
        S.vol = frozenset(s.vol[n_vol:])
        S.must_match = len(s.recs) > n_rc or s.nhavoc > hv0
        S.solve()
        info.solver = S; info.opaque = S.opaque; info.trip = S.trip
        info.events = body_events; info.reg = reg; info.lcond = lcond; info.lmem = lmem
        S.retarget_events(s.events, n_ev)
        out.outs = S.outs
        out.small = S.small
        return out
    def increasing(s, f, lp, p, ini):
        """an integer that starts at a nonnegative value and is only ever added to"""
        if p.ty in ("double", "float", "i1") or not all(x.k == "P" and T.known_nonneg(x) for x in T.leaves(ini)): return False
        defs = getattr(f, "_defs", None)
        if defs is None: defs = f._defs = {i.res: i for i in f.insts() if i.res}
        seen = set(); st = [v for v, lab in p.extra if v.startswith("%") and lab in {b.name for b in lp.blocks}]
        ok = {p.res}
        while st:
            v = st.pop()
            if v in ok or v in seen: continue
            seen.add(v)
            i = defs.get(v)
            if i is None: return False
            if i.op == "phi": nx = [x for x, lab in i.extra]
            elif i.op == "select": nx = [i.args[1][1], i.args[2][1]]
            elif i.op in ("sext", "zext", "trunc", "freeze"): nx = [i.args[0][1]]
            elif i.op == "add":
                a, b = i.args[0][1], i.args[1][1]
                if not b.startswith("%") and int(b) >= 0: nx = [a]
                else: return False
            else: return False
            for x in nx:
                if x.startswith("%"): st.append(x)
                elif x in ("undef", "poison") or int(x) < 0: return False
        return True
    def rewrite(s, sb, n_rc, n_as, n_ev):
        """apply the meaning of an enclosing loop's symbols to everything recorded inside it"""
        for r in s.recs[n_rc:]:
            r.sub(sb)
        for j in range(n_as, len(s.assumes)): s.assumes[j] = (s.assumes[j][0], sb(s.assumes[j][1]))
        for e in s.events[n_ev:]:
            e.cond = sb(e.cond)
            e.args = [sb(a) if a is not None else a for a in e.args]
            if e.mem is not None:
                m = e.mem
                d = {p: sb(a) for p, a in m.d.items()}
                root = m.mk0
                e.mem = Mem(ROOT, d) if not isinstance(root, LoopRoot) else s.outer_mem(root, d, sb)
    def outer_mem(s, root, d, sb):
        m = Mem(root.mem_in.mk0, root.mem_in.d)
        for p, hd in root.touched.items():
            if p not in d: d[p] = sb(hd)
        m.d.update(d)
        return m
    def finish_plain(s, exits, rets, mp, lroot, mem_in, R):
        m2 = dict(mp)
        for p, hd in lroot.touched.items(): m2[hd] = mem_in.get(p)
        sb = T.Subst(m2)
        outs = []
        for frm, to, c, m, e in exits:
            nm = mem_in.copy()
            for p, a in m.d.items(): nm.d[p] = sb(a)
            outs.append((frm, to, sb(c), nm, {k: (sb(v) if v is not None and v.fv else v) for k, v in e.items()}))
        for c, m, v in rets:
            nm = mem_in.copy()
            for p, a in m.d.items(): nm.d[p] = sb(a)
            R.rets.append((band(s.condstack[-1], sb(c)), nm, sb(v) if v is not None else None))
        return outs

class LoopRec:
    """a loop kept as header state, initial state, one-iteration transfer and continue condition"""
    def sub(s, sb):
        f = lambda x: sb(x) if x is not None else None
        s.init = {p: f(a) for p, a in s.init.items()}
        s.latch = {p: f(a) for p, a in s.latch.items()}
        s.phis = [(ty, f(a), f(b)) for ty, a, b in s.phis]
        s.lcond = f(s.lcond)
        s.exitc = [f(c) for c in s.exitc]
        s.trip = f(s.trip)

class LoopSolver:
    def __init__(s, vf, f, lp, I, sym, ptrphi, init, lroot, mem_in, lcond, lmem, lfrm, lenv, exits, rets, R):
        s.vf, s.f, s.lp, s.I, s.sym, s.ptrphi, s.init, s.lroot, s.mem_in = vf, f, lp, I, sym, ptrphi, init, lroot, mem_in
        s.lcond, s.lmem, s.lenv, s.exits, s.rets, s.R = lcond, lmem, lenv, exits, rets, R
        s.lfrm = lfrm
        s.opaque = False; s.small = None; s.trip = None; s.outs = []
        s.sol = {}         # solved: lv/sel node -> value at iteration I (leaf or diagram)
        s.fin = {}
        s.folded = set()
        s.apsub = None; s.apgen = 0; s.apmemo = {}
    # ---- helpers
    def hdrs(s): return s.lroot.touched
    def ap(s, v):
        if not s.sol or v is None: return v
        if s.apsub is None: s.apsub = T.Subst(dict(s.sol)); s.apgen += 1
        # values substituted in an earlier round only need the newly solved symbols
        r = s.apmemo.get(v)
        if r is not None:
            if r[0] == s.apgen: return r[1]
            w = s.apsub(r[1])
        else: w = s.apsub(v)
        s.apmemo[v] = (s.apgen, w)
        return w
    def unresolved(s, v):
        """unsolved symbols in v"""
        return [x for x in v.fv if x in s.unk]
    def solve(s):
        I, Iv = s.I, T.atom(s.I)
        vf = s.vf
        header = s.lp.header
        s.latch = {}
        for p in header.phis:
            v = vf.phi_in(p, s.lfrm, s.lenv)
            if p.res in s.ptrphi:
                b = s.ptrphi[p.res]
                if b is not None and v.k == "ptr" and v.a[0] == b.a[0] and all(x is y for x, y in zip(v.a[1][:-1], b.a[1][:-1])):
                    s.latch[s.sym[p.res]] = v.a[1][-1]
                else:
                    s.latch[s.sym[p.res]] = None
            else:
                s.latch[s.sym[p.res]] = vf.num(v) if p.ty != "i1" else None
        s.ini = {}
        for p in header.phis:
            b = s.init[p.res]
            s.ini[s.sym[p.res]] = (s.ptrphi[p.res].a[1][-1] if s.ptrphi.get(p.res) is not None else ZERO) if p.res in s.ptrphi else (vf.num(b) if p.ty != "i1" else ZERO)
        # modified paths
        s.mod = {}
        for p, a in s.lmem.d.items():
            hd = s.hdrs().get(p)
            if hd is None: hd = s.lroot.arr(p)
            if a is not hd: s.mod[p] = a
        for ex in s.exits:
            for p, a in ex[3].d.items():
                hd = s.lroot.arr(p)
                if a is not hd and p not in s.mod: s.mod[p] = hd      # changed only on a side exit
        for c, m, v in s.rets:
            for p, a in m.d.items():
                hd = s.lroot.arr(p)
                if a is not hd and p not in s.mod: s.mod[p] = hd
        # pointer fields modified in the loop while used for addressing: give up on precision
        for p in s.lroot.ptr_used:
            if p in s.mod: s.opaque = True; s.vf.notes.append("pointer field %s modified in loop" % p)
        # unmodified paths: header contents = contents before
        pre = {}
        for p, hd in s.hdrs().items():
            if p not in s.mod: pre[hd] = s.mem_in.get(p)
        s.sol.update(pre)
        s.unk = set(s.sym.values()) | {s.hdrs()[p] for p in s.mod}
        # scalar promotion candidates
        s.scal = {}      # path -> list of idx
        s.arrp = {}
        for p, a in s.mod.items():
            effs, base = A.chain(a)
            if a.k == "ite": effs, base = s.split_ite(a)
            s.arrp[p] = (effs, base)
        if s.opaque: return s.make_opaque()
        if s.must_match: return s.make_matched()
        guard_rounds = 0
        s.exitc = [(i, ex[2]) for i, ex in enumerate(s.exits)]
        s.havoc = {}
        s.done_arr = {}
        progress = True
        while progress and guard_rounds < 40:
            guard_rounds += 1
            progress = False
            # 1. phis
            for x, L in list(s.latch.items()):
                if x not in s.unk: continue
                if L is None: continue
                if s.try_phi(x, L): progress = True
            # 2. trip count
            if s.trip is None:
                if s.try_trip(): progress = True
            # 3. scalars in memory
            for p in list(s.mod):
                if s.hdrs()[p] in s.unk and s.try_scalar(p): progress = True
            # 4. arrays
            for p in list(s.mod):
                if s.hdrs()[p] in s.unk and s.try_array(p): progress = True
            if not progress:
                # 5. self-contained folds
                for x, L in list(s.latch.items()):
                    if x in s.unk and L is not None and s.try_fold(x, L): progress = True
                if not progress:
                    for p in list(s.mod):
                        if s.hdrs()[p] in s.unk and s.try_scalar_fold(p): progress = True; break
                if not progress:
                    # 6. give up on the remaining unknowns one at a time
                    rest = [x for x in s.unk]
                    if rest and s.trip is None and len(s.exits) + len(s.rets) > 0:
                        pass
                    if rest: return s.make_matched()
            if not s.unk and s.trip is not None: break
        if s.trip is None:
            return s.make_matched()
        s.finish()
    def split_ite(s, a): return [], a
    # ---- recurrences
    def closed(s, x, L, ini):
        """closed form of x at iteration I given latch value L (already substituted) or None"""
        I, Iv = s.I, T.atom(s.I)
        fvx = [u for u in L.fv if u in s.unk]
        if not fvx:
            # L independent of x: delayed
            if I not in L.fv and L is ini: return ini
            prev = subst(L, {I: sub(Iv, ONE)}) if I in L.fv else L
            if prev is ini: return ini
            return ite(T.pos(Iv, "i"), prev, ini)
        d = sub(L, T.atom(x) if x.k in ("lv", "sel") else x)
        if not any(u in s.unk for u in d.fv):
            if I not in d.fv and d.k == "P": return add(ini, mul(d, Iv))
            h, b = T.close(I, d)
            return add(ini, T.sum_of(Iv, h, b))
        # geometric / product  L = x * q
        if L.k == "P" and len(L.a[0]) == 1:
            m, c = L.a[0][0]
            dm = dict(m)
            if dm.get(x) == 1:
                q = mk("P", ((tuple((a, e) for a, e in m if a is not x), c),))
                if not any(u in s.unk for u in q.fv):
                    h, b = T.close(I, q)
                    return mul(ini, T.atom(mk("prod", Iv, h, b)))
        return None
    def try_phi(s, x, L):
        L = s.ap(L)
        r = s.closed(x, L, s.ini[x])
        if r is None: return False
        s.set_sol(x, r)
        return True
    def set_sol(s, x, r):
        mp = {x: r}
        sb = T.Subst(mp)
        for k in list(s.sol):
            v = s.sol[k]
            if x in v.fv: s.sol[k] = sb(v)
        s.sol[x] = r
        s.apsub = None
        s.unk.discard(x)
    def cond_trip(s, cont):
        """number of iterations for which cont(i) holds, starting from 0"""
        if cont is FALSE: return ZERO
        if cont.k != "ite": return None
        c, a, b = cont.a
        I = s.I
        if any(u in s.unk for u in cont.fv): return None
        neg = None
        if a is TRUE and b is FALSE: neg = False
        elif a is FALSE and b is TRUE: neg = True
        else:
            # guard independent of i: (g ? cont' : cont'')
            if I not in c.fv:
                ta, tb = s.cond_trip(a) if a is not TRUE else None, s.cond_trip(b) if b is not TRUE else None
                if ta is None or tb is None: return None
                return ite(T.batom(c), ta, tb)
            return None
        if c.k == "pos" and c.a[1] == "i":
            d = c.a[0]
            if neg: d = T.psub(ONE, d)
        elif c.k == "zero" and neg:
            d = c.a[0]
            co = dict(d.a[0]).get(((I, 1),), Fraction(0))
            if co > 0: d = T.pneg(d)
        else: return None
        co = dict(d.a[0]).get(((I, 1),), Fraction(0))
        rest = T.psub(d, T.pscale(T.atom(I), co))
        if I in rest.fv or co >= 0: return None
        if co == -1: return rest
        if is_const(rest):
            import math
            return const(math.ceil(cval(rest) / -co))
        return T.atom(mk("fn", "ceildiv", rest, const(-co)))
    def try_trip(s):
        lp = s.lp
        hx = [(i, ex) for i, ex in enumerate(s.exits) if ex[0] is lp.header]
        s.main = None
        if len(hx) == 1:
            i, ex = hx[0]
            cont = bnot(s.ap(ex[2]))
            t = s.cond_trip(cont)
            if t is not None:
                s.main = i; s.bottom = False; return s.set_trip(t)
        lx = [(i, ex) for i, ex in enumerate(s.exits) if ex[0] in lp.latches or ex[0] is s.lfrm]
        if len(lx) == 1 and lx[0][1][0] is not lp.header:
            i, ex = lx[0]
            side = FALSE
            for j, e2 in enumerate(s.exits):
                if j != i: side = bor(side, s.ap(e2[2]))
            c = s.ap(ex[2])
            reach = bor(c, s.ap(s.lcond))
            cont = bnot(T.constrain(c, reach))
            t = s.cond_trip(cont)
            if t is not None:
                s.main = i; s.bottom = True; return s.set_trip(t)
        if not hx and not lx or True:
            # only side exits
            pass
        return False
    def set_trip(s, t):
        s.trip = t
        rng = add(t, ONE) if s.bottom else t
        s.nexec = rng
        if rng.k == "P": T.RANGE[s.I] = rng
        if is_const(rng) and 0 <= cval(rng) <= s.vf_unroll() and not s.lp.children: s.small = int(cval(rng))
        A.clear_memo()
        return True
    def vf_unroll(s): return 4
    # ---- memory scalars
    def reads(s, p):
        """index tuples at which the header contents of p are read by anything the loop produces"""
        hd = s.hdrs()[p]
        out = []
        bad = [False]
        seen = set()
        def walk(n):
            if n in seen or hd not in n.fv: return
            seen.add(n)
            if n.k == "sel":
                if n.a[0] is hd: out.append(n)
                elif A.chain(n.a[0])[1] is hd: bad[0] = True
            if n.k == "hdr": return
            for x in T.walk_children(n.a): walk(x)
        def chainwalk(a):
            effs, base = A.chain(a)
            for e in effs:
                for x in T.walk_children(e.a[1:]): walk(x)
            if base is not hd and hd in base.fv: bad[0] = True
        for q, a in s.mod.items():
            chainwalk(s.ap_arr(a))
        for x, L in s.latch.items():
            if L is not None and x in s.unk: walk(s.ap(L))
        walk(s.ap(s.lcond))
        for ex in s.exits:
            walk(s.ap(ex[2]))
            for q, a in ex[3].d.items(): chainwalk(s.ap_arr(a))
        for c, m, v in s.rets:
            walk(s.ap(c))
            if v is not None: walk(s.ap(v))
        for x, v in s.sol.items():
            walk(v)
        return out, bad[0]
    def ap_arr(s, a): return s.ap(a)
    def try_scalar(s, p):
        a = s.ap(s.mod[p])
        hd = s.hdrs()[p]
        effs, base = A.chain(a)
        if base is not hd or a.k == "ite": 
            return False
        idxs = []
        for e in effs:
            if e.a[2]: return False
            for x in e.a[5]:
                if s.I in x.fv or any(u in s.unk for u in x.fv): return False
            if e.a[5] not in idxs: idxs.append(e.a[5])
        if not idxs or len(idxs) > 20: return False
        for i in range(len(idxs)):
            for j in range(i):
                if not A.disjoint(idxs[i], idxs[j]): return False
        rd, bad = s.reads(p)
        if bad: return False
        for r in rd:
            if r.a[1] in idxs: continue
            if any(s.I in x.fv or any(u in s.unk for u in x.fv) for x in r.a[1]): return False
            if not all(A.disjoint(r.a[1], ix) for ix in idxs): return False
        # latch values
        cells = {}
        for ix in idxs:
            cells[ix] = (mk("sel", hd, ix), A.select(a, ix))
        # solve jointly: each cell treated as an unknown symbol
        syms = {c[0] for c in cells.values()}
        solved = {}
        prog = True
        pre = s.mem_in.get(p)
        while prog and len(solved) < len(cells):
            prog = False
            for ix, (sy, L) in cells.items():
                if ix in solved: continue
                v = T.fresh_lv(None)
                L2 = subst(L, {sy: T.atom(v)})
                L2 = subst(L2, {cells[j][0]: solved[j] for j in solved}) if solved else L2
                if any(u in s.unk for u in L2.fv): continue
                s.unk.add(v)
                r = s.closed(v, L2, A.select(pre, ix))
                s.unk.discard(v)
                if r is None or v in r.fv: continue
                solved[ix] = r; prog = True
        if len(solved) < len(cells): return False
        for ix, r in solved.items(): s.set_sol(cells[ix][0], r)
        for r in rd:
            if r.a[1] not in idxs: s.set_sol(r, A.select(pre, r.a[1]))
        s.scal[p] = (idxs, solved)
        # header contents at iteration I as an array
        arr = pre
        for ix in idxs: arr = A.store(arr, ix, solved[ix])
        s.set_sol(hd, arr)
        return True
    def try_scalar_fold(s, p):
        a = s.ap(s.mod[p]); hd = s.hdrs()[p]
        effs, base = A.chain(a)
        if base is not hd or a.k == "ite" or s.trip is None: return False
        idxs = []
        for e in effs:
            if e.a[2]: return False
            for x in e.a[5]:
                if s.I in x.fv or any(u in s.unk for u in x.fv): return False
            if e.a[5] not in idxs: idxs.append(e.a[5])
        if len(idxs) != 1: return False
        ix = idxs[0]
        sy = mk("sel", hd, ix)
        rd, bad = s.reads(p)
        if bad or any(r is not sy for r in rd): return False
        v = T.fresh_lv(None)
        L = subst(A.select(a, ix), {sy: T.atom(v)})
        s.unk.add(v)
        r = s.fold(v, L, A.select(s.mem_in.get(p), ix))
        s.unk.discard(v)
        if r is None: return False
        s.set_sol(sy, r)
        s.scal[p] = ([ix], {ix: r})
        s.set_sol(hd, A.store(s.mem_in.get(p), ix, r))
        return True
    def fold(s, x, L, ini):
        if any(u in s.unk and u is not x for u in L.fv): return None
        h1 = L.h + 1; h2 = h1 + 1
        b = subst(L, {s.I: mk("var", h1), x: mk("var", h2)})
        return T.atom(mk("fold", T.atom(s.I), ini, h1, h2, b))
    def try_fold(s, x, L):
        L = s.ap(L)
        r = s.fold(x, L, s.ini[x])
        if r is None: return False
        s.set_sol(x, r)
        s.folded.add(x)
        return True
    # ---- arrays
    def try_array(s, p):
        if s.trip is None: return False
        hd = s.hdrs()[p]
        a = s.ap(s.mod[p])
        if a.k == "ite": return False
        effs, base = A.chain(a)
        if base is not hd: return False
        others = s.unk - {hd}
        items = []
        for e in effs:
            kind, lvs, Ns, g, idx, val = A.reopen(e)
            for x in list(idx) + list(Ns):
                if any(u in s.unk for u in x.fv): return False
            add_form = None
            if kind == "set":
                # a[idx] = a_before[idx] + r
                if len(effs) >= 1:
                    self_read = mk("sel", hd, idx)
                    r = sub(val, T.atom(self_read))
                    if hd not in r.fv and g.k != "?" and hd not in g.fv:
                        if hd in val.fv: add_form = r
            items.append([e, kind, lvs, Ns, g, idx, val, add_form])
        # accumulate form only valid if all effects of the path are accumulations or the accumulation's own index was not
        # written earlier in the body (select already resolved that)
        rd, bad = s.reads_except(p, items)
        if bad: return False
        I = s.I
        # cross-iteration reads
        resolved = []
        for r in rd:
            if any(u in others for x in r.a[1] for u in x.fv):
                return False
            if not s.read_clean(r.a[1], items): return False
            resolved.append(r)
        accum = any(it[7] is not None for it in items) 
        if accum and not all(it[7] is not None or it[1] == "add" for it in items):
            # mixed: treat accumulations as plain reads
            for it in items:
                if it[7] is not None:
                    if not s.read_clean(it[5], items): return False
            selfreads = True; accum = False
        elif accum:
            if all(s.injective(it) for it in items) and s.order_ok(items) and all(s.read_clean(it[5], items) for it in items if it[7] is not None):
                accum = False; selfreads = True
            else: selfreads = False
        else: selfreads = False
        if not accum:
            for it in items:
                if it[1] == "set" and not s.injective(it): return False
            if not s.order_ok(items): return False
        # all values otherwise resolvable later; record
        pre = s.mem_in.get(p)
        s.done_arr[p] = (accum,)
        # every read of the header contents touches cells not written by earlier iterations
        s.set_sol(hd, pre)
        return True
    def reads_except(s, p, items):
        hd = s.hdrs()[p]
        selfs = {mk("sel", hd, it[5]) for it in items if it[7] is not None}
        rd, bad = s.reads(p)
        # opened copies have fresh variables: compare after closing
        keep = []
        own = set()
        for it in items:
            if it[7] is None: continue
            e = it[0]
            own.add(s.closed_read(e, hd))
        for r in rd:
            if r in own: continue
            keep.append(r)
        # reads inside opened items (with fresh lvs) rather than closed vars
        keep2 = []
        for r in keep:
            if any(x.h for x in r.a[1]): continue      # canonical-variable form, re-found in opened form below
            keep2.append(r)
        for it in items:
            for n in (it[4], it[6] if it[7] is None else it[7]):
                for r in find_sel(n, hd):
                    if any(x.h for x in r.a[1]): return [], True
                    if r not in keep2: keep2.append(r)
        # reads with bound variables elsewhere (inside sums of other paths) are not handled
        for r in keep:
            if any(x.h for x in r.a[1]):
                if not s.owned_by_effects(r, p): return [], True
        return keep2, bad
    def closed_read(s, e, hd):
        return mk("sel", hd, e.a[5])
    def owned_by_effects(s, r, p):
        """r (with canonical variables) occurs only in the effects of p itself"""
        hd = s.hdrs()[p]
        for q, a in s.mod.items():
            if q == p: continue
            effs, base = A.chain(s.ap(a))
            for e in effs:
                for x in T.walk_children(e.a[1:]):
                    if hd in x.fv:
                        # opened check
                        kind, lvs, Ns, g, idx, val = A.open_eff(e)
                        for n in (g, val) + tuple(idx) + tuple(Ns):
                            for rr in find_sel(n, hd):
                                if any(y.h for y in rr.a[1]): return False
                                if not s.read_clean_p(rr.a[1], p): return False
        for x, L in s.latch.items():
            if L is not None and x in s.unk:
                for rr in find_sel(s.ap(L), hd):
                    if any(y.h for y in rr.a[1]): return False
        for x, v in s.sol.items():
            if hd in v.fv:
                for rr in find_sel(v, hd):
                    if any(y.h for y in rr.a[1]): return False
        return True
    def read_clean_p(s, ridx, p):
        a = s.ap(s.mod[p]); effs, base = A.chain(a)
        items = []
        for e in effs:
            kind, lvs, Ns, g, idx, val = A.reopen(e)
            items.append([e, kind, lvs, Ns, g, idx, val, None])
        return s.read_clean(ridx, items)
    def earlier(s):
        """iteration variable i' = an earlier iteration: I = i' + 1 + t"""
        i2 = T.fresh_lv(s.trip if s.trip.k == "P" else None)
        return i2
    def read_clean(s, ridx, items):
        """cells read at iteration I were not written in an earlier iteration"""
        I = s.I
        for it in items:
            # earlier iteration j, current I = j + 1 + t
            j = T.fresh_lv(s.nexec if s.nexec.k == "P" else None); t = T.fresh_lv(None)
            if s.nexec.k == "P":
                T.RANGE[t] = sub(sub(s.nexec, ONE), T.atom(j))
            cur = add(add(T.atom(j), ONE), T.atom(t))
            widx, wl = s.rename(it, {I: T.atom(j)})
            r2 = tuple(subst(x, {I: cur}) for x in ridx)
            for l in {l for x in r2 for l in x.fv if l in T.RANGE and I in T.RANGE[l].fv}:
                f = T.fresh_lv(subst(T.RANGE[l], {I: cur})); r2 = tuple(subst(x, {l: f}) for x in r2)
            if not A.disjoint(widx, r2): return False
        return True
    def rename(s, it, mp):
        """write index of an item with fresh inner binders under mp"""
        idx = it[5]; m = dict(mp)
        for l, n in zip(it[2], it[3]):
            n2 = subst(n, m)
            f = T.fresh_lv(n2); m[l] = T.atom(f)
        return tuple(subst(x, m) for x in idx), m
    def injective(s, it):
        I = s.I
        j = T.fresh_lv(s.nexec if s.nexec.k == "P" else None); t = T.fresh_lv(None)
        if s.nexec.k == "P":
            T.RANGE[t] = sub(sub(s.nexec, ONE), T.atom(j))
        cur = add(add(T.atom(j), ONE), T.atom(t))
        a, _ = s.rename(it, {I: T.atom(j)})
        b, _ = s.rename(it, {I: cur})
        return A.disjoint(a, b)
    def order_ok(s, items):
        """an earlier-listed effect of a later iteration must not overwrite a later-listed effect of an earlier one"""
        I = s.I
        for x in range(len(items)):
            for y in range(x + 1, len(items)):
                # items[x] at iteration cur > j vs items[y] at iteration j
                j = T.fresh_lv(s.nexec if s.nexec.k == "P" else None); t = T.fresh_lv(None)
                if s.nexec.k == "P":
                    T.RANGE[t] = sub(sub(s.nexec, ONE), T.atom(j))
                cur = add(add(T.atom(j), ONE), T.atom(t))
                a, _ = s.rename(items[x], {I: cur})
                b, _ = s.rename(items[y], {I: T.atom(j)})
                if not A.disjoint(a, b): return False
        return True
    # ---- giving up
    def giveup(s, rest):
        """remaining unknowns become opaque, identified by their own transfer"""
        key = []
        s.vf.uid += 1
        tagk = s.vf.opaque_key(s) if hasattr(s.vf, "opaque_key") else s.vf.uid
        s.vf.notes.append("unsolved recurrence in %s at %s" % (s.f.name, s.lp.header.insts[-1].loc))
        for x in rest:
            if x.k == "lv":
                s.set_sol(x, T.atom(mk("fopq", "rec", s.vf.uid, "I", T.atom(s.I), x_name(s, x))))
            else:
                p = x.a[1]
                s.havoc[p] = True
                s.set_sol(x, mk("opq", "rec", s.vf.uid, p, T.atom(s.I)))
        s.gaveup = True
    def volatile(s, v):
        if not s.vol: return False
        seen = set(); st = [v]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x in s.vol: return True
            st.extend(T.walk_children(x.a))
        return False
    def shifted(s, a, sh, sign):
        for idx, v in sh or ():
            x = T.add(A.select(a, idx), v if sign > 0 else T.neg(v))
            a = A.lift_prev(a, lambda z: A.mk_eff(z, "set", (), (), TRUE, idx, x)) if a.k == "ite" else A.mk_eff(a, "set", (), (), TRUE, idx, x)
        return a
    def make_matched(s):
        vf = s.vf
        k = len(vf.recs)
        # keep the counters that have closed forms, everything else is header state
        pre = {hd: s.mem_in.get(p) for p, hd in s.hdrs().items() if p not in s.mod}
        s.sol = dict(pre); s.apsub = None; s.apmemo = {}
        s.unk = set(s.sym.values()) | {s.hdrs()[p] for p in s.mod}
        for p in s.mod: s.hdrs()[p]
        prog = True
        while prog:
            prog = False
            for x, L in list(s.latch.items()):
                if x in s.unk and L is not None and not s.volatile(L) and s.try_phi(x, L): prog = True
        s.trip = None; s.small = None; s.main = None
        s.try_trip()
        trip = s.trip if s.main is not None else None
        if trip is not None and (trip.fv & s.unk): trip = None
        s.small = None
        mp = {}
        phis = []
        cand = [(q, s.sym[q.res]) for q in s.lp.header.phis if s.sym[q.res] in s.unk]
        kind = lambda q: "i" if q.ty in ("i64", "i32", "ptr", "i1", "i8") else "f"
        # canonical order of the loop variables: by kind and initial value, ties by the permutation number vf.tie
        groups = {}
        for q, x in cand: groups.setdefault((kind(q), -1 if s.ini[x].fv else s.ini[x].id), []).append((q, x))
        for key in sorted(groups):
            g = groups[key]; nf = math.factorial(len(g)) if len(g) < 6 else 1
            pn = (vf.tie // vf.ties) % nf; vf.ties *= nf
            g = list(g)
            while g:
                nf = math.factorial(len(g) - 1)
                q, x = g.pop((pn // nf) % len(g)); pn %= nf
                mp[x] = T.atom(mk("sym", "L%d.%s%d" % (k, key[0], len(phis))))
                vf.vol.append(mk("sym", "L%d.%s%d" % (k, key[0], len(phis))))
                phis.append((key[0], x))
        shift = {}
        for p, hd in s.hdrs().items():
            if p in s.mod:
                h = mk("init", "L%d:%s" % (k, p)); vf.vol.append(h)
                # an integer that starts at a constant is counted from there, so that where counting starts means nothing
                sh = [(e.a[5], e.a[6]) for e in A.chain(s.mem_in.get(p))[0] if e.a[1] == "set" and not e.a[2] and e.a[4] is TRUE] if p in A.INTS else []
                sh = [(idx, A.select(s.mem_in.get(p), idx)) for idx, _ in sh]
                shift[p] = [(idx, v) for idx, v in dict(sh).items() if is_const(v) and cval(v) != 0 and cval(v).denominator == 1]
                mp[hd] = s.shifted(h, shift[p], 1)
        vf.vol.append(mk("sym", "L%d.I" % k))
        Isym = T.atom(mk("sym", "L%d.I" % k))
        mp[s.I] = Isym
        full = T.Subst(dict(s.sol)); ren = T.Subst(mp)
        sb = lambda v: ren(full(v))
        r = LoopRec(); r.k = k; r.fn = s.f.name; r.loc = s.lp.header.insts[-1].loc
        r.init = {p: s.shifted(s.mem_in.get(p), shift.get(p), -1) for p in s.mod}
        r.latch = {p: s.shifted(sb(s.lmem.get(p)), shift.get(p), -1) for p in s.mod}
        r.phis = [(ty, s.ini[x], sb(s.latch[x]) if s.latch[x] is not None else None) for ty, x in phis]
        r.lcond = sb(s.lcond)
        r.trip = sb(trip) if trip is not None else None
        r.exitc = [sb(ex[2]) for ex in s.exits] + [sb(c) for c, m, v in s.rets]
        r.solved = len(s.sym) - len(phis)
        vf.rewrite(sb, s.n_rc, s.n_as, s.n_ev)
        for e in vf.events[s.n_ev:]: e.loops = getattr(e, "loops", ()) + (k,)
        for rr in vf.recs[s.n_rc:]:
            if getattr(rr, "parent", None) is None: rr.parent = k
        r.parent = None
        vf.recs.append(r)
        anyx = FALSE
        for c in r.exitc: anyx = bor(anyx, c)
        vf.assumes.append((k, bor(bnot(vf.condstack[-1]), anyx)))
        vf.notes.append("loop matched by transfer in %s at %s" % (s.f.name, r.loc))
        s.matched = r
        n = len(s.exits) + len(s.rets)
        no = TRUE; kk = 0
        at = T.Subst({mk("sym", "L%d.I" % k): trip}) if False else None
        for j, item in enumerate(s.exits + s.rets):
            isret = j >= len(s.exits)
            if isret: c, m, v = item
            else: frm, to, c, m, e = item
            cj = sb(c)
            ec = no if j == n - 1 else band(no, cj)
            no = band(no, bnot(cj))
            nm = s.mem_in.copy()
            fin = sb
            if not isret and j == s.main and trip is not None:
                mp2 = dict(mp); mp2[s.I] = r.trip
                ren2 = T.Subst(mp2)
                fin = lambda w, ren2=ren2: ren2(full(w))
            for p in s.mod: nm.d[p] = fin(m.get(p))
            if isret: s.R.rets.append((band(vf.condstack[-1], ec), nm, fin(v) if v is not None else None))
            else: s.outs.append((frm, to, ec, nm, {q: (fin(x) if x is not None and x.fv else x) for q, x in e.items()}))
        s.sb_final = sb
    def make_opaque(s):
        s.opaque = True
        vf = s.vf
        vf.uid += 1
        u = vf.uid
        vf.notes.append("opaque loop in %s at %s" % (s.f.name, s.lp.header.insts[-1].loc))
        mp = {}
        for nme, x in s.sym.items():
            mp[x] = T.atom(mk("fopq", "loop", u, nme))
        for p, hd in s.hdrs().items():
            mp[hd] = s.mem_in.get(p) if p not in s.mod else mk("opq", "loop", u, p)
        mp[s.I] = T.atom(mk("fopq", "loop", u, "I"))
        s.opq_map = mp
        s.opq_uid = u
        sb = T.Subst(mp)
        s.sb_final = sb
        n = len(s.exits) + len(s.rets)
        for k, (frm, to, c, m, e) in enumerate(s.exits):
            nm = s.mem_in.copy()
            for p in s.mod: nm.d[p] = sb(m.get(p))
            for p, a in m.d.items(): nm.d[p] = sb(a)
            ec = T.batom(mk("bopq", "exit", u, k)) if n > 1 else TRUE
            s.outs.append((frm, to, ec if k == 0 or n == 1 else s.exclusive(u, k, n), nm, {q: (sb(v) if v is not None and v.fv else v) for q, v in e.items()}))
        for k, (c, m, v) in enumerate(s.rets):
            nm = s.mem_in.copy()
            for p in s.mod: nm.d[p] = sb(m.get(p))
            ec = s.exclusive(u, len(s.exits) + k, n)
            s.R.rets.append((band(vf.condstack[-1], ec), nm, sb(v) if v is not None else None))
    def exclusive(s, u, k, n):
        c = TRUE
        for j in range(k): c = band(c, bnot(T.batom(mk("bopq", "exit", u, j))))
        if k < n - 1: c = band(c, T.batom(mk("bopq", "exit", u, k)))
        return c
    # ---- results
    def close_over(s, p, upto, sb):
        """contents of p after iterations 0..upto-1"""
        pre = s.mem_in.get(p)
        if p in s.scal:
            idxs, solved = s.scal[p]
            arr = pre
            for ix in idxs: arr = A.store(arr, ix, subst(solved[ix], {s.I: upto}))
            return arr
        if p in s.havoc: return mk("opq", "rec", s.havuid(p), p, upto)
        accum = s.done_arr[p][0]
        a = sb(s.mod[p]) if False else s.fin_mod(p, sb)
        effs, base = A.chain(a)
        out = pre
        for e in effs:
            kind, lvs, Ns, g, idx, val = A.reopen(e)
            if accum and kind == "set":
                self_ = s.selfval(p, idx)
                val = sub(val, self_); kind = "add"
            own = {s.hdrs()[p]: pre}
            g = subst(g, own); val = subst(val, own); idx = tuple(subst(x, own) for x in idx); Ns = tuple(subst(x, own) for x in Ns)
            I2 = T.fresh_lv(upto if upto.k == "P" else None)
            m = {s.I: T.atom(I2)}
            nl, nn = [I2], [upto]
            for l, n in zip(lvs, Ns):
                n2 = subst(n, m); f = T.fresh_lv(n2 if n2.k == "P" else None); m[l] = T.atom(f); nl.append(f); nn.append(n2)
            sb2 = T.Subst(m)
            out = A.lift_prev(out, lambda o: A.mk_eff(o, kind, tuple(nl), tuple(nn), sb2(g), tuple(sb2(x) for x in idx), sb2(val)))
        return out
    def havuid(s, p): return getattr(s, "hv_uid", 0)
    def selfval(s, p, idx):
        return T.atom(mk("sel", s.hdrs()[p], idx))
    def fin_mod(s, p, sb):
        """the body's effect chain with everything solved except the header base of p itself"""
        return T.Subst({k: v for k, v in s.sol.items() if k is not s.hdrs()[p]})(s.mod[p])
    def finish(s):
        vf = s.vf; I = s.I
        for p in s.mod:
            if p in s.havoc: s.hv_uid = vf.uid
        sb = T.Subst({k: v for k, v in s.sol.items() if v is not k})
        # side exits
        sides = [(i, ex) for i, ex in enumerate(s.exits) if i != s.main]
        side_c = []
        anyc = FALSE
        for i, ex in sides: anyc = bor(anyc, sb(ex[2]))
        for c, m, v in s.rets: anyc = bor(anyc, sb(c))
        trip = s.trip
        normal = TRUE
        if anyc is not FALSE:
            h, b = T.close(I, anyc)
            bad = T.map1q(lambda n: T.mk_any(n, (h, b)), s.nexec)
            normal = bnot(bad)
            first = T.map1q(lambda n: T.atom(mk("first", n, h, b)), s.nexec)
        # main exit
        if s.main is not None:
            frm, to, c, m, e = s.exits[s.main]
            nm = s.mem_in.copy()
            at = {I: trip}
            fin_arr = {}
            for p in s.mod:
                full = s.close_over(p, s.nexec, sb)
                nm.d[p] = full
                fin_arr[p] = full
            # environment at exit
            hm = {}
            for p in s.mod:
                hm[s.hdrs()[p]] = s.close_over(p, trip, sb) if s.hdrs()[p] not in s.sol or s.sol[s.hdrs()[p]] is s.hdrs()[p] else None
            hm = {k: v for k, v in hm.items() if v is not None}
            ne = {}
            for q, v in e.items():
                if v is None or not v.fv: ne[q] = v; continue
                ne[q] = s.fin_val(v, sb, at, hm)
            # effects of the (partial) exiting pass are already in nm for bottom exits; header-exit passes have none
            if not s.bottom:
                for p, a in m.d.items():
                    if p in s.mod and a is not s.hdrs()[p]:
                        effs, base = A.chain(s.fin_mod_a(a, p))
                        o = nm.d[p]
                        sb3 = T.Subst(dict(at))
                        for ef in effs: o = A.rebase(sb3(ef), o)
                        nm.d[p] = o
            s.outs.append((frm, to, normal, nm, ne))
        k = 0
        tot = len(sides) + len(s.rets)
        nofirst = TRUE
        for lst, isret in ((sides, False), (s.rets, True)):
            for item in lst:
                if isret: c, m, v = item; frm = to = e = None
                else: frm, to, c, m, e = item[1]
                k += 1
                at = {I: first}
                cc = sb(c)
                ec = bad
                if tot > 1:
                    cx = subst(cc, at)
                    ec = band(bad, band(nofirst, cx)) if k < tot else band(bad, nofirst)
                    nofirst = band(nofirst, bnot(cx))
                nm = s.mem_in.copy()
                hm = {}
                sb3 = T.Subst(dict(at))
                for p in s.mod:
                    before = s.close_over(p, first, sb)
                    hm[s.hdrs()[p]] = before
                    a = m.get(p)
                    if a is not s.hdrs()[p]:
                        effs, base = A.chain(s.fin_mod_a(a, p))
                        o = before
                        for ef in effs: o = A.rebase(sb3(ef), o) if o.k != "ite" else A.lift_prev(o, lambda z: A.rebase(sb3(ef), z))
                        nm.d[p] = o
                    else: nm.d[p] = before
                if isret:
                    s.R.rets.append((band(vf.condstack[-1], ec), nm, s.fin_val(v, sb, at, hm) if v is not None else None))
                else:
                    ne = {q: (s.fin_val(v, sb, at, hm) if v is not None and v.fv else v) for q, v in e.items()}
                    s.outs.append((frm, to, ec, nm, ne))
        s.sb_final = sb
    def fin_mod_a(s, a, p):
        return T.Subst({k: v for k, v in s.sol.items() if k is not s.hdrs()[p]})(a)
    def fin_val(s, v, sb, at, hm):
        v = sb(v)
        if not v.fv: return v
        m = dict(at); m.update({k: x for k, x in hm.items() if x is not None})
        return T.Subst(m)(v)
    def retarget_events(s, events, n0):
        """events recorded in the body: keep their terms (over the iteration variable) after substitution"""
        sb = getattr(s, "sb_final", None)
        if sb is None: return
        for e in events[n0:]:
            if e.fn == "free": e.cond = sb(e.cond); e.args = [sb(a) if a is not None else a for a in e.args]
        for nm, al in s.vf.allocs.items():
            if nm in s.al0: continue
            s.vf.allocs[nm] = (sb(al[0]), sb(al[1])) + al[2:]

# ------------------------------------------------------------------ callees kept as symbols
def pure(name):
    """result is an unspecified function of the scalar arguments"""
    def f(v, args, mem, inst):
        if inst.ty not in ("double", "float"): T.INTFN.add(name)
        xs = []
        for a in args:
            # an array argument stands for its contents
            if a.k == "ptr" and a.a[0].endswith("[]"): xs += [a.a[0]] + ([mem.d[a.a[0]]] if a.a[0] in mem.d else []) + list(a.a[1])
            elif a.k not in ("ptr", "null"): xs.append(a)
        return T.map1q(lambda x: x, T.fn(name, *xs))
    return f
def cells(name, ins, outs, ret=False):
    """fixed-size callee: outs/ins are (argument, number of cells); every output is an unspecified function of the inputs"""
    def f(v, args, mem, inst):
        xs = []
        for a, n in ins:
            if n is None: xs.append(args[a]); continue
            for j in range(n):
                xs.append(v.load(v.gep1raw(args[a], j), "double", mem))
        for a, n in outs:
            for j in range(n):
                v.store(v.gep1raw(args[a], j), T.fn("%s.%d.%d" % (name, a, j), *xs), mem)
        return T.fn(name, *xs) if ret else None
    return f
def havoc(name, outs, rty=None):
    """callee compared by its arguments and the memory it is called on; outs: 'aK[]...' path patterns it writes"""
    def f(v, args, mem, inst):
        n = v.bcount.get(name, 0); v.bcount[name] = n + 1; n = v.callmap.get((name, n), n)
        v.nhavoc += 1
        for o in outs:
            k, rest = re.match(r'a(\d+)\[\](.*)', o).groups()
            a = args[int(k)]
            def one(p):
                if p.k == "ite": one(p.a[1]); one(p.a[2]); return
                if p.k != "ptr": return
                q = p.a[0] + rest
                v.vol.append(mk("init", "B%s%d:%s" % (name, n, q)))
                mem.set(q, v.vol[-1])
            one(a)
        ty = inst.ty if rty is None else rty
        if ty == "void": return None
        v.vol.append(mk("sym", "B%s%d.%s" % (name, n, "i" if ty in ("i64", "i32") else "f")))
        return T.atom(v.vol[-1])
    return f
def auto_havoc(prog, name, boundary=None, cache={}):
    """havoc() with the output paths taken from the callee's own summary"""
    key = (id(prog), name)
    if key not in cache:
        with T.deadline(20):
            r, m = VF(prog, boundary).run(name)
        cache[key] = tuple(p for p in m.d if re.match(r'a\d+\[\]', p))
    return havoc(name, cache[key])

def x_name(s, x):
    for i, (n, v) in enumerate(s.sym.items()):
        if v is x: return i
    return -1
def find_sel(n, hd):
    out = []; seen = set()
    def walk(x):
        if x in seen or hd not in x.fv: return
        seen.add(x)
        if x.k == "sel" and x.a[0] is hd and x not in out: out.append(x)
        for y in T.walk_children(x.a): walk(y)
    walk(n)
    return out
