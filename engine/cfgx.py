"""CFG utilities: reverse postorder, dominators, natural loops, call graph."""
class Loop:
    def __init__(s, header):
        s.header = header; s.blocks = set(); s.latches = []; s.parent = None; s.children = []
    def exits(s):
        return [(b, t) for b in s.header.fn.order if b in s.blocks for t in b.succ if t not in s.blocks]
    def __repr__(s): return "<loop %s>" % s.header

def rpo(fn):
    if hasattr(fn, "_rpo"): return fn._rpo
    seen = set(); out = []
    st = [(fn.entry, iter(fn.entry.succ))]; seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for t in it:
            if t not in seen:
                seen.add(t); st.append((t, iter(t.succ))); break
        else:
            out.append(b); st.pop()
    out.reverse()
    fn._rpo = out
    return out

def idoms(fn):
    if hasattr(fn, "_idom"): return fn._idom
    order = rpo(fn); num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.pred:
                if p in idom and p in num:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a is not c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
            if idom.get(b) is not new: idom[b] = new; ch = True
    fn._idom = idom
    return idom
def dominates(fn, a, b):
    idom = idoms(fn)
    while True:
        if a is b: return True
        n = idom.get(b)
        if n is None or n is b: return False
        b = n

def loops(fn):
    """list of loops (outermost first); fn._loop_of: block -> innermost loop"""
    if hasattr(fn, "_loops"): return fn._loops
    order = rpo(fn); live = set(order)
    L = {}
    for b in order:
        for t in b.succ:
            if dominates(fn, t, b):
                lp = L.get(t)
                if lp is None: lp = L[t] = Loop(t)
                lp.latches.append(b)
                st = [b]; lp.blocks.add(t)
                while st:
                    x = st.pop()
                    if x in lp.blocks: continue
                    lp.blocks.add(x)
                    st.extend(p for p in x.pred if p in live)
    ls = sorted(L.values(), key=lambda l: -len(l.blocks))
    of = {}
    for l in ls:
        for b in l.blocks:
            p = of.get(b)
        l.parent = of.get(l.header)
        if l.parent: l.parent.children.append(l)
        for b in l.blocks: of[b] = l
    fn._loops = ls; fn._loop_of = of
    return ls

def callgraph(prog):
    cg = {}
    for f in prog.funcs.values():
        s = set()
        for i in f.insts():
            if i.op == "call": s.add(i.extra)
        cg[f.name] = s
    return cg
def reach(cg, roots, stop=()):
    seen = set(); st = list(roots)
    while st:
        x = st.pop()
        if x in seen or x in stop: continue
        seen.add(x)
        st.extend(cg.get(x, ()))
    return seen
