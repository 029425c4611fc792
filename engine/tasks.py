"""Obligations and how they are run: every obligation is analysed in its own process with a time and a memory limit."""
import os, sys, time, re, resource, signal, pickle, traceback, select
import build, effects, llir, vf, terms as T, arrays as A, compare as C

OK, BAD, UND = "holds", "violated", "undecided"
VERIF = build.VERIF

class Finding:
    """one decided (or undecided) obligation"""
    def __init__(s, key, status, where, detail="", how=""):
        s.key, s.status, s.where, s.detail, s.how = key, status, where, detail, how
    def row(s): return {"obligation": s.key, "status": s.status, "construct": s.where, "detail": s.detail, "rule": s.how}

def where(prog, fn):
    f = prog.funcs.get(getattr(fn, "name", fn))
    if f is None: return str(getattr(fn, "name", fn))
    file = f.file
    if file.startswith(build.REPO + "/"): file = file[len(build.REPO) + 1:]
    line = ""
    for i in f.insts():
        if i.dbg:
            m = re.search(r':(\d+)', i.loc); line = ":" + m.group(1) if m else ""
            break
    return "%s%s (%s)" % (file, line, fn)

class World:
    """the analysed program, built from /repo's working tree"""
    def __init__(s, specs=()):
        t = time.time()
        lib = build.library_sources()
        s.units = [os.path.relpath(x, build.REPO) for x in lib]
        paths = build.compile_all(lib)
        s.badspec = {}
        for sp in specs:
            try: paths.append(build.compile_one(os.path.join(VERIF, "spec", sp + ".c")))
            except build.BuildError as ex: s.badspec[sp] = str(ex)[-300:]
        s.prog = llir.Program(paths)
        s.t = time.time() - t
    def repo_funcs(s):
        return [f for f in s.prog.funcs.values() if f.blocks and not f.name.startswith("spec_") and "/verif/" not in f.file]

def run_task(world, task, tmo, mem=4 << 30):
    """fork, run task(world) -> [Finding]"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            try: out = task.run(world, tmo)
            except MemoryError: out = [Finding(task.name, UND, task.target, "memory limit")]
            except BaseException as ex:
                out = [Finding(task.name, UND, task.target, "analysis gave up: %s %s" % (type(ex).__name__, str(ex)[:160]))]
                if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            with os.fdopen(w, "wb") as f: f.write(pickle.dumps([(x.key, x.status, x.where, x.detail, x.how) for x in out]))
        finally: os._exit(0)
    os.close(w)
    return pid, r

def run_all(world, tasks, tmo, jobs=8):
    """{task: ([Finding], seconds)}"""
    todo = sorted(tasks, key=lambda t: -t.cost); live = {}; res = {}
    import gc; gc.collect(); gc.freeze()
    while todo or live:
        while todo and len(live) < jobs:
            t = todo.pop(0)
            pid, fd = run_task(world, t, tmo)
            live[fd] = [t, pid, time.time(), b""]
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            d = os.read(fd, 1 << 16)
            if d: live[fd][3] += d; continue
            t, pid, t0, buf = live.pop(fd); os.close(fd); os.waitpid(pid, 0)
            try: out = [Finding(*x) for x in pickle.loads(buf)]
            except Exception: out = [Finding(t.name, UND, t.target, "analysis process ended early")]
            res[t] = (out, time.time() - t0)
        for fd in list(live):
            t, pid, t0, buf = live[fd]
            if time.time() - t0 > tmo + 10:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd); del live[fd]
                res[t] = ([Finding(t.name, UND, t.target, "time limit")], time.time() - t0)
    return res

class TO(BaseException): pass

class Pair:
    """the function computes what its reference definition in spec/ computes"""
    def __init__(s, fn, spec, boundary=None, ignore=(), gens=(), only=None, assume=None, models=60, cost=1, tmo=8, setup=None, events=True, lower=None, mono=(), inj=()):
        s.lower, s.mono, s.inj = lower or {}, mono, inj
        s.fn, s.spec, s.boundary, s.ignore, s.gens, s.only, s.assume = fn, spec, boundary or {}, ignore, gens, only, assume
        s.models, s.cost, s.tmo, s.setup, s.events = models, cost, tmo, setup, events
        s.name = "equal:" + fn; s.target = fn
    def run(s, world, tmo):
        p = world.prog
        configure(s)
        n = s.fn; sn = "spec_" + n
        if s.spec in world.badspec: return [Finding(s.name, UND, n, "reference definition does not compile against these headers")]
        if n not in p.funcs or not p.funcs[n].blocks: return [Finding(s.name, UND, n, "no such function any more")]
        f, g = p.funcs[n], p.funcs[sn]
        if f.ptypes != g.ptypes or f.rty != g.rty: return [Finding(s.name, UND, where(p, n), "signature differs from the definition's")]
        def h(*a): raise TO()
        signal.signal(signal.SIGALRM, h); signal.alarm(int(tmo))
        w = where(p, n)
        try:
            b = {k: v for k, v in bnd(p, s.boundary).items() if k != n}
            V = vf.VF(p, b); c = V.run(n)
            isy = tuple('a%d' % i for i, t in enumerate(f.ptypes) if t in ('i64', 'i32'))
            deep = os.environ.get("VERIF_TIER") == "thorough"
            best = None; t = 0; rd = None
            while True:
                # loop variables with equal initial values are matched in every order before a difference is believed
                V2 = vf.VF(p, b); V2.tie = t; d = V2.run(sn)
                if t == 0 and (V.allocs or V2.allocs):
                    mp = C.malmatch(c, d, V, V2); al = V.alone
                    if any(i != j for i, j in mp.items()):
                        # same blocks, obtained in another order
                        V = vf.VF(p, b); V.malmap = mp; c = V.run(n)
                    V.alone = al
                if t == 0:
                    mp = C.callmatch(V, V2)
                    if any(i[1] != j for i, j in mp.items()):
                        mm = V.malmap; al = V.alone; V = vf.VF(p, b); V.malmap = mm; V.alone = al; V.callmap = mp; c = V.run(n)
                if rd is None: rd = {k: {x for x in set(effects.effects(p, k).reads) | kept(p, k, b) if not re.search(r'\.work\d\*', x)} for k in b if k in p.funcs and p.funcs[k].blocks and (k in V.bcount or k in V2.bcount)}
                res = C.compare(c, d, C.Ctx(s.models * (4 if deep else 1), gens=s.gens, isyms=isy), ignore=s.ignore, only=s.only, assume=s.assume,
                                vc=V, vs=V2, events=s.events, tmo=s.tmo * (5 if deep else 1), reads=rd)
                nb = sum(r.status == C.DIFF for r in res)
                real = any(r.how.startswith("loops iterated") for r in res)
                if real: best = ((nb, 0), res); break      # outcomes differ whatever the loop variables are called
                if best is None or (nb, sum(r.status != C.EQUAL for r in res)) < best[0]: best = ((nb, sum(r.status != C.EQUAL for r in res)), res)
                t += 1
                if best[0][0] == 0 or t >= V2.ties or t >= 48: break
            res = best[1]
            if best[0][0] and V2.ties > 48 and not real:
                for r in res:
                    if r.status == C.DIFF: r.status = C.UNKNOWN
        except TO: return [Finding(s.name, UND, w, "time limit")]
        finally: signal.alarm(0)
        out = []
        for r in res:
            st = {C.EQUAL: OK, C.DIFF: BAD}.get(r.status, UND)
            out.append(Finding("%s: %s" % (s.name, pretty(p, f, r.path)), st, w, r.detail, r.how))
        return out

class Rule:
    """a path, effect or ownership rule: fn(world) -> [Finding]"""
    def __init__(s, name, fn, cost=1): s.name, s.fn, s.cost, s.target = name, fn, cost, name
    def run(s, world, tmo):
        def h(*a): raise TO()
        signal.signal(signal.SIGALRM, h); signal.alarm(int(tmo))
        try: return s.fn(world)
        except TO: return [Finding(s.name, UND, s.name, "time limit")]
        finally: signal.alarm(0)

def pretty(p, f, path):
    def one(m):
        i = int(m.group(1))
        return f.pnames[i] if i < len(f.pnames) and f.pnames[i] else m.group(0)
    return re.sub(r'\ba(\d+)(?=\[|\b)', one, path)

def configure(pr=None):
    A.LOWER = {'.n': 0, '.m': 0, '.p': 0, '.nsoc': 0, '.nexc': 0, 'soc*[].p': 1, '.nnz': 0, 'a0': 0, '.num_bool_vars': 0, '.num_int_vars': 0, 'a0[].iter': 0, 'a1[].iter': 0, '_idx*[]': 0}
    A.MONO = ('.jc*[]',); A.INJ = ('Pinv*[]', 'KKT*.P*[]', 'PK*[]', 'kkt_idx*[]', 'Didx*[]', 'AtoK*[]', 'GtoK*[]')
    if pr is not None: A.LOWER.update(pr.lower); A.MONO += tuple(pr.mono); A.INJ += tuple(pr.inj)

def kept(p, k, b, cache={}):
    """paths the function writes, of which it may leave some cells as they were: what they held before still matters after"""
    w = {x: 1 for x in effects.effects(p, k).writes if re.match(r'a\d+\[\]', x)}
    key = (id(p), k, tuple(sorted(b)))
    if key not in cache:
        out = set()
        try:
            with T.deadline(10):
                r, m = vf.VF(p, {x: y for x, y in b.items() if x != k}).run(k)
            for q in w:
                a = m.d.get(q)
                if a is not None and partial(a, q): out.add(q)
        except (T.Budget, vf.Unsupported, RecursionError): pass
        cache[key] = out
    return cache[key]
def partial(a, q):
    st = [a]
    while st:
        x = st.pop()
        if x.k == "ite": st += [x.a[1], x.a[2]]; continue
        effs, base = A.chain(x)
        if base.k == "ite": st.append(base); continue
        if base.k == "init" and base.a[0] == q:
            for e in effs:
                kind, lvs, Ns, g, idx, val = A.reopen(e)
                if g is T.TRUE and (lvs or all(T.is_const(i) for i in idx)): break
            else: return True
    return False

def bnd(p, spec):
    """boundary description: 'pure' | ('havoc', outs) | 'auto' -> callables"""
    out = {}
    for k, v in spec.items():
        if callable(v): out[k] = v
        elif v == "pure": out[k] = vf.pure(k)
        elif v == "eff":
            e = effects.effects(p, k)
            out[k] = vf.havoc(k, sorted(x for x in e.writes if re.match(r'a\d+\[\]', x)))
        elif v == "auto": out[k] = vf.auto_havoc(p, k, {x: y for x, y in out.items() if x != k})
        else: out[k] = vf.havoc(k, v)
    return out
