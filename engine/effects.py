"""Which memory a function may read and write, as access paths of its parameters (flow-insensitive, bottom-up over the call graph).
A path is aK[] followed by .field, [] and *[] (pointer dereference), e.g. a0[].KKT*[].RHS1*[]"""
import re
import llir

ALLOC = {"malloc", "calloc", "realloc"}
class Eff:
    def __init__(s):
        s.reads, s.writes, s.calls = {}, {}, []      # path -> first instruction doing it
        s.allocs, s.frees, s.ext = [], [], {}

def gep_paths(prog, i, base):
    out = set()
    for p in base:
        q = p; ty = i.ty
        if not (q.endswith("[]")) and i.args[1][1] != "0": q += "[]"
        for t, x in i.args[2:]:
            if ty.startswith("%struct") or ty.startswith("%union"):
                n = int(x)
                q += "." + prog.fieldname(ty, n)
                ty = llir.split_top(prog.structs[ty].strip()[1:-1])[n]
            elif ty.startswith("["):
                m = re.match(r'\[(\d+) x (.*)\]$', ty); ty = m.group(2); q += "[]"
        out.add(q)
    return out

MAXP = 12
class Effects:
    def __init__(s, prog):
        s.prog = prog; s.memo = {}; s.busy = set()
    def pts(s, f):
        """SSA pointer -> set of access paths"""
        prog = s.prog
        P = {}
        for k, (n, t) in enumerate(zip(f.params, f.ptypes)):
            if t == "ptr": P[n] = {"a%d[]" % k}
        alias = {}
        def val(a):
            if a in P: return P[a]
            if a.startswith("@"): return {"glob:%s[]" % a[1:].strip('"')}
            return set()
        ch = True; rounds = 0
        while ch and rounds < 30:
            ch = False; rounds += 1
            for i in f.insts():
                n = None
                if i.op == "alloca": n = {"loc:%s[]" % i.res}
                elif i.op == "getelementptr": n = gep_paths(prog, i, val(i.args[0][1]))
                elif i.op == "phi" and i.ty == "ptr":
                    n = set()
                    for v, b in i.extra: n |= val(v)
                elif i.op == "select" and i.ty == "ptr": n = val(i.args[1][1]) | val(i.args[2][1])
                elif i.op == "load" and i.ty == "ptr":
                    n = set()
                    for p in val(i.args[0][1]):
                        if p.count("*") < 6: n.add(p + "*[]")
                        n |= alias.get(p, set())
                elif i.op == "store" and i.args[0][0] == "ptr":
                    v = val(i.args[0][1])
                    for p in val(i.args[1][1]):
                        if v - alias.get(p, set()): alias.setdefault(p, set()).update(v); ch = True
                elif i.op == "call" and i.ty == "ptr" and i.res:
                    if i.extra in ALLOC: n = {"mal:%s[]" % i.res}
                    else:
                        g = prog.resolve(f, i.extra)
                        n = {"ret:%s%s[]" % (i.extra, i.res)} if g is not None else {"ext:%s%s[]" % (i.extra, i.res)}
                elif i.op in ("bitcast", "inttoptr", "freeze") and i.ty == "ptr": n = val(i.args[0][1])
                if n and i.res and not n <= P.get(i.res, set()):
                    P.setdefault(i.res, set()); P[i.res] = P[i.res] | n; ch = True
        return P, val
    def of(s, f):
        if f.name in s.memo and s.memo[f.name][0] is f: return s.memo[f.name][1]
        e = Eff()
        if f in s.busy: return e
        s.busy.add(f)
        P, val = s.pts(f)
        for i in f.insts():
            if i.op == "load":
                for p in val(i.args[0][1]): e.reads.setdefault(p, i)
            elif i.op == "store":
                for p in val(i.args[1][1]): e.writes.setdefault(p, i)
            elif i.op == "call":
                n = i.extra
                if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"): continue
                args = [val(a) if t == "ptr" else set() for t, a in i.args]
                g = s.prog.resolve(f, n) if not n.startswith("%") else None
                e.calls.append((n, i))
                if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
                    for p in args[0]: e.writes.setdefault(p, i)
                    for p in args[1]: e.reads.setdefault(p, i)
                elif n.startswith("llvm.memset") or n == "memset":
                    for p in args[0]: e.writes.setdefault(p, i)
                elif g is not None and g.blocks:
                    c = s.of(g)
                    for src, dst in ((c.reads, e.reads), (c.writes, e.writes)):
                        for p in src:
                            m = re.match(r'a(\d+)\[\]', p)
                            if not m:
                                if p.startswith("glob:"): dst.setdefault(p, i)
                                continue
                            k = int(m.group(1))
                            if k < len(args):
                                for b in args[k]:
                                    q = b + p[m.end():] if b.endswith("[]") or not p[m.end():] else b + p[m.end():]
                                    dst.setdefault(q, i)
                else:
                    e.ext.setdefault(n, i)
        s.busy.discard(f)
        s.memo[f.name] = (f, e)
        return e

_cache = {}
def effects(prog, name, fn=None):
    E = _cache.setdefault(id(prog), Effects(prog))
    return E.of(fn or prog.funcs[name])
