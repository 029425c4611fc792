"""Path, effect and ownership rules over the LLVM IR of the library."""
import re
import build, cfgx, effects, llir, vf, terms as T, evalt
from tasks import Rule, Finding, OK, BAD, UND, where, bnd, configure
from terms import mk, TRUE, FALSE

ENTRY = ["ECOS_setup", "ECOS_solve", "ECOS_cleanup", "ECOS_updateData", "ecos_updateDataEntry_h", "ecos_updateDataEntry_c",
         "ECOS_BB_setup", "ECOS_BB_solve", "ECOS_BB_cleanup", "updateDataEntry_h", "updateDataEntry_c", "get_default_ECOS_BB_settings", "ECOS_ver"]
SOLVE = ["ECOS_solve", "ecos_updateDataEntry_h", "ecos_updateDataEntry_c", "updateDataEntry_h", "updateDataEntry_c"]
HEAP = {"malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "valloc", "strdup", "mmap", "brk", "sbrk", "_Znwm", "_ZdlPv"}
PRINT = {"printf", "fprintf", "vprintf", "vfprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "write", "perror", "dprintf", "__printf_chk", "__fprintf_chk", "fflush"}
ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "__assert_fail", "raise", "kill", "longjmp", "siglongjmp", "atexit", "pthread_exit", "err", "errx", "__stack_chk_fail_local"}
FILES = {"fopen", "fopen64", "freopen", "open", "open64", "openat", "creat", "fdopen", "tmpfile", "popen", "system", "execve", "execv", "execl", "fork", "unlink", "remove", "rename", "mkdir", "chdir", "socket"}
STATE = {"srand", "srandom", "setlocale", "setenv", "putenv", "unsetenv", "signal", "fesetround", "feenableexcept", "setvbuf", "setbuf", "sigprocmask", "alarm", "setitimer", "strtok", "umask"}
HARMLESS = {"rand", "clock_gettime", "gettimeofday", "memcpy", "memset", "memmove", "memcmp", "strlen", "strcmp", "isinf", "isnan", "__isinf", "__isnan", "__finite", "__errno_location"}
MATHF = set(vf.MATH) | set(vf.MATH2) | {"floor", "ceil", "round", "trunc", "fmod", "cbrt", "expm1", "log1p", "log10", "log2", "hypot", "ldexp", "frexp", "modf", "rint", "nearbyint", "lround", "llround", "tanh", "sinh", "cosh", "sin", "cos", "tan", "atan", "atan2", "copysign"}

def line(i):
    l = i.loc
    return l[len(build.REPO) + 1:] if l.startswith(build.REPO + "/") else l
def callees(prog, f):
    """(instruction, name, function or None) of every call, function pointers loaded from constant-initialised globals resolved"""
    for i in f.insts():
        if i.op != "call" or i.extra.startswith("llvm."): continue
        n = i.extra
        if n.startswith("%"): n = indirect(prog, f, n) or n
        yield i, n, prog.resolve(f, n) if not n.startswith("%") else None
def defs(f):
    if not hasattr(f, "_defs"): f._defs = {i.res: i for i in f.insts() if i.res}
    return f._defs
def indirect(prog, f, v):
    d = defs(f).get(v)
    if d is not None and d.op == "load" and d.args[0][1].startswith("@"):
        g = d.args[0][1][1:].strip('"')
        for m in prog.mods:
            x = m.globals.get(g)
            if x and "external" not in x.split(" ")[:3]:
                r = re.search(r'ptr @([\w.]+)', x)
                if r: return r.group(1)
    return None
def graph(prog):
    if not hasattr(prog, "_cg"):
        prog._cg = {}
        for f in prog.funcs.values():
            if f.blocks: prog._cg[f.name] = [(i, n, g) for i, n, g in callees(prog, f)]
    return prog._cg
def reachable(prog, roots):
    """function -> (caller, call instruction) it was first reached by"""
    seen = {r: None for r in roots if r in prog.funcs and prog.funcs[r].blocks}; st = list(seen)
    while st:
        x = st.pop()
        for i, n, g in graph(prog).get(x, ()):
            if g is not None and g.blocks and g.name not in seen: seen[g.name] = (x, i); st.append(g.name)
    return seen
def chain(seen, f):
    out = [f]
    while seen.get(f): f = seen[f][0]; out.append(f)
    return " <- ".join(out)

# ---------------------------------------------------------------- C31: solving allocates nothing
def no_heap(w):
    p = w.prog; out = []
    for root in SOLVE:
        if root not in p.funcs: out.append(Finding("heap:" + root, UND, root, "no such function")); continue
        seen = reachable(p, [root])
        for f in sorted(seen):
            bad = [(i, n) for i, n, g in graph(p)[f] if n in HEAP]
            unk = [(i, n) for i, n, g in graph(p)[f] if n.startswith("%")]
            k = "heap:%s:%s" % (root, f)
            if bad: out.append(Finding(k, BAD, "%s (%s)" % (line(bad[0][0]), f), "%s reached from %s: %s" % (bad[0][1], root, chain(seen, f)), "call-graph reachability"))
            elif unk: out.append(Finding(k, UND, where(p, f), "call through a pointer"))
            else: out.append(Finding(k, OK, where(p, f), "", "call-graph reachability"))
    return out

# ---------------------------------------------------------------- C33, C34: sizes keep their width
def widths(w):
    """dimensions, counts and positions are idxint; none is cut to a narrower type on its way, except to be printed"""
    p = w.prog; out = []
    seen = reachable(p, [r for r in ENTRY if r in p.funcs])
    for n in sorted(seen):
        f = p.funcs[n]
        if "/amd/" in f.file: continue
        setup = re.search(r"/(preproc|spla|equil)\.c$", f.file); bad = None; cnt = 0
        for i in f.insts():
            if i.op != "trunc" or i.args[0][0] != "i64": continue
            cnt += 1
            if i.ty not in ("i8", "i16") and not (setup and i.ty == "i32"): continue
            us = [j for j in f.insts() if j is not i and any(a[1] == i.res for a in j.args)]
            if us and all(j.op == "call" and j.extra in PRINT for j in us): continue
            bad = bad or i
        k = "width:%s" % n
        if bad: out.append(Finding(k, BAD, "%s (%s)" % (line(bad), n), "a 64-bit size or index is cut to %s bits" % bad.ty[1:], "narrowing conversions"))
        else: out.append(Finding(k, OK, where(p, f), "", "narrowing conversions"))
    return out

# ---------------------------------------------------------------- C32: user arrays
def freed_paths(p, name, memo=None, busy=()):
    """access paths of pointers released by a function (parameters only), with the releasing instruction"""
    memo = p.__dict__.setdefault("_freed", {})
    if name in memo: return memo[name]
    if name in busy: return {}
    f = p.funcs[name]; out = {}
    P, val = effects._cache.setdefault(id(p), effects.Effects(p)).pts(f)
    for i, n, g in graph(p)[name]:
        if n in ("free", "realloc"):
            ps = val(i.args[0][1])
            # a pointer that is either the caller's or the function's own, released under a flag kept for that purpose
            if len(ps) > 1 and any(g_.startswith(".") for g_ in guards(f, i.blk)): ps = {q for q in ps if not re.match(r'a\d+\[\]$', q)}
            for q in ps: out.setdefault(q, i)
        elif g is not None and g.blocks:
            for q in freed_paths(p, g.name, memo, busy + (name,)):
                m = re.match(r'a(\d+)\[\]', q)
                if not m or int(m.group(1)) >= len(i.args): continue
                for b in val(i.args[int(m.group(1))][1]): out.setdefault(b + q[m.end():], i)
    memo[name] = out
    return out
USER = r'(\.ecos_prob\*\[\])?(\.(A|G)\*\[\]\.(jc|ir)\*\[\]|\.(bool|int)_vars_idx\*\[\])$'
BORROWED = r'(\.(A|G)\*\[\]\.(jc|ir|pr)\*\[\]|\.(c|b|h)\*\[\]|\.(bool|int)_vars_idx\*\[\])$'
def user_arrays(w):
    p = w.prog; out = []
    E = lambda n: effects.effects(p, n)
    for n in ENTRY:
        if n not in p.funcs or not p.funcs[n].blocks: continue
        e = E(n)
        hits = [(q, i) for q, i in e.writes.items() if re.search(USER, q)]
        if n == "ECOS_solve": hits += [(q, i) for q, i in e.writes.items() if re.search(r'\.(A|G)\*\[\]\.pr\*\[\]$|a0\[\]\.(b|h)\*\[\]$', q)]
        f = p.funcs[n]
        idx = {"ECOS_setup": (5, 9, 12), "ECOS_BB_setup": (5, 8, 9, 12, 17, 19)}.get(n, ())
        # the header constructor stores the number of entries behind the last column, where it already is
        hits += [(q, i) for q, i in e.writes.items() for k in idx if q == "a%d[]" % k]
        if n == "ECOS_BB_setup":   # the inequality data is copied: values and right-hand side of the user stay as they are
            hits += [(q, i) for q, i in e.writes.items() if q in ("a7[]", "a14[]")]
        if hits:
            for q, i in hits: out.append(Finding("writes:%s:%s" % (n, q), BAD, "%s (%s)" % (line(i), i.fn.name), "%s may write %s, which belongs to the caller" % (n, name_path(f, q)), "access-path effects"))
        else: out.append(Finding("writes:" + n, OK, where(p, n), "%d written paths" % len(e.writes), "access-path effects"))
        fr = freed_paths(p, n)
        bad = [(q, i) for q, i in fr.items() if re.search(BORROWED, q) or (re.match(r'a\d+\[\]$', q) and "setup" in n)]
        own = [(q, i) for q, i in fr.items() if re.search(r'mal:[^.]*\.(c|h|b)\*\[\]$', q)]
        for q, i in bad: out.append(Finding("frees:%s:%s" % (n, q), BAD, "%s (%s)" % (line(i), i.fn.name), "%s releases %s, which belongs to the caller" % (n, name_path(f, q)), "access-path effects"))
        if not bad: out.append(Finding("frees:" + n, OK, where(p, n), "%d released paths" % len(fr), "access-path effects"))
    # constructors must not touch index arrays beyond the entry count
    for n in ("ecoscreateSparseMatrix",):
        if n in p.funcs:
            e = E(n); hits = [q for q in e.writes if q in ("a4[]", "a5[]")]
            out.append(Finding("writes:" + n, BAD if hits else OK, where(p, n), "writes the arrays it is given" if hits else "", "access-path effects"))
    return out
def name_path(f, q):
    m = re.match(r'a(\d+)', q)
    if m and int(m.group(1)) < len(f.params): q = f.params[int(m.group(1))].lstrip("%") + q[m.end():]
    return q

# ---------------------------------------------------------------- C40: quiet
def poly(f, v, want=True, depth=0):
    """fields whose being non-zero is implied by i1/int value v being (non)zero; returns a set of field names"""
    d = defs(f).get(v)
    if d is None or depth > 12: return set()
    if d.op == "load": return {last_field(f, d.args[0][1])} if want else set()
    if d.op in ("zext", "sext", "trunc", "freeze"): return poly(f, d.args[0][1], want, depth + 1)
    if d.op == "icmp":
        a, b = d.args[0][1], d.args[1][1]
        if b in ("0", "null"):
            if d.extra == "ne": return poly(f, a, want, depth + 1)
            if d.extra == "eq": return poly(f, a, not want, depth + 1)
            if d.extra in ("sgt", "ugt"): return poly(f, a, True, depth + 1) if want else set()
            if d.extra == "sle": return poly(f, a, True, depth + 1) if not want else set()
        elif re.match(r'-?\d+$', b):
            k = int(b)
            if d.extra == "eq" and k != 0 and want: return poly(f, a, True, depth + 1)
            if d.extra == "sge" and k > 0 and want: return poly(f, a, True, depth + 1)
            if d.extra == "sgt" and k >= 0 and want: return poly(f, a, True, depth + 1)
            if d.extra == "slt" and k > 0 and not want: return poly(f, a, True, depth + 1)
        return set()
    if d.op == "and": return poly(f, d.args[0][1], True, depth + 1) | poly(f, d.args[1][1], True, depth + 1) if want else poly(f, d.args[0][1], False, depth + 1) & poly(f, d.args[1][1], False, depth + 1)
    if d.op == "or": return poly(f, d.args[0][1], True, depth + 1) & poly(f, d.args[1][1], True, depth + 1) if want else poly(f, d.args[0][1], False, depth + 1) | poly(f, d.args[1][1], False, depth + 1)
    if d.op == "xor" and d.args[1][1] in ("true", "1"): return poly(f, d.args[0][1], not want, depth + 1)
    if d.op == "select":
        c, a, b = (x[1] for x in d.args)
        if want and b in ("false", "0"): return poly(f, c, True, depth + 1) | poly(f, a, True, depth + 1)
        return set()
    if d.op == "phi":
        # short-circuit conditions: the value is false on the other edges, or those edges are already guarded
        got = None
        for x, b in d.extra:
            if want and x in ("false", "0"): continue
            if not want and x in ("true", "1"): continue
            s_ = poly(f, x, want, depth + 1) | guards(f, f.blocks[b])
            if x in ("true", "1", "false", "0"): s_ = s_ | edge_guard(f, f.blocks[b], d.blk)
            got = s_ if got is None else got & s_
        return got or set()
    if d.op == "call":
        return set()
    return set()
def last_field(f, v):
    d = defs(f).get(v)
    if d is not None and d.op == "getelementptr" and d.ty.startswith("%struct"):
        n = [x for t, x in d.args[2:]]
        if n and re.match(r'\d+$', n[-1]): return field_of(f.mod, d.ty, n)
    return v
def field_of(mod, ty, idx):
    fl = mod.struct_fields().get(ty)
    return "." + fl[int(idx[0])] if fl and int(idx[0]) < len(fl) else "?"
def edge_guard(f, b, t):
    if b.term.op != "br" or not b.term.args or b.succ[0] is b.succ[1]: return set()
    return poly(f, b.term.args[0][1], t is b.succ[0])
def guards(f, blk):
    """field names known to be non-zero in a block: from the branch edges that dominate it"""
    m = f.__dict__.setdefault("_guards", {})
    if blk in m: return m[blk]
    m[blk] = set()
    idom = cfgx.idoms(f); out = set(); b = blk
    while b in idom and idom[b] is not b:
        d = idom[b]
        if len(b.pred) == 1 and b.pred[0] is d: out |= edge_guard(f, d, b)
        b = d
    m[blk] = out
    return out
def quiet(w):
    p = w.prog; out = []
    roots = [r for r in ENTRY if r in p.funcs]
    seen = reachable(p, roots)
    cg = graph(p)
    # greatest fixpoint: a function is quiet-safe if every call of it is made under the verbosity setting
    callers = {}
    for f in seen:
        for i, n, g in cg[f]:
            if g is not None and g.blocks: callers.setdefault(g.name, []).append((f, i))
    safe = {f for f in seen if f in callers and f not in ENTRY}
    def ok(f, i): return ".verbose" in guards(p.funcs[f], i.blk) or f in safe
    ch = True
    while ch:
        ch = False
        for g in sorted(safe):
            if not all(ok(f, i) for f, i in callers[g]): safe.discard(g); ch = True
    n = 0
    for f in sorted(seen):
        for i, name, g in cg[f]:
            if name in PRINT or (name == "amd_printf"):
                n += 1
                k = "print:%s" % f
                if ok(f, i): out.append(Finding(k, OK, "%s (%s)" % (line(i), f), "", "guard dominance"))
                else: out.append(Finding(k, BAD, "%s (%s)" % (line(i), f), "%s without a test of the verbosity setting (%s)" % (name, chain(seen, f)), "guard dominance"))
    out.append(Finding("print:sites", OK if n else UND, "library", "%d print calls reachable from the interface" % n, ""))
    return out

# ---------------------------------------------------------------- C41: process-wide effects
def side_effects(w):
    p = w.prog; out = []; roots = [r for r in ENTRY if r in p.funcs]
    seen = reachable(p, roots); cg = graph(p)
    for f in sorted(seen):
        fn = p.funcs[f]; sig = fn.file.endswith("ctrlc.c"); bad = []; unk = []
        for i, n, g in cg[f]:
            if g is not None and g.blocks: continue
            if n in ENDS: bad.append((i, "ends the process: " + n))
            elif n in FILES: bad.append((i, "operating-system resources: " + n))
            elif n in STATE and not sig: bad.append((i, "process-wide state: " + n))
            elif n in ("sigaction", "sigemptyset", "sigaddset", "signal"):
                if not sig: bad.append((i, "signal dispositions outside the interrupt module: " + n))
            elif n in HEAP or n in PRINT or n in HARMLESS or n in MATHF: pass
            else: unk.append((i, n))
        for i in fn.insts():
            if i.op == "store" and root_global(fn, i.args[1][1]) and not sig: bad.append((i, "writes the global %s" % root_global(fn, i.args[1][1])))
            if i.op == "unreachable": bad.append((i, "control does not return"))
            if i.op == "call" and i.extra.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")) and root_global(fn, i.args[0][1]) and not sig:
                bad.append((i, "writes the global %s" % root_global(fn, i.args[0][1])))
        for i, t in bad: out.append(Finding("effect:%s:%s" % (f, t), BAD, "%s (%s)" % (line(i), f), t + " (" + chain(seen, f) + ")", "effect scan"))
        if not bad: out.append(Finding("effect:" + f, UND if unk else OK, where(p, f), "calls %s" % unk[0][1] if unk else "", "effect scan"))
    for m in p.mods:
        for g, x in m.globals.items():
            if "external" in x.split(" ")[:2] or "/verif/" in m.path: continue
            if " constant " in " " + x: continue
            written = any(root_global(f, i.args[1][1]) == g for f in m.funcs.values() for i in f.insts() if i.op == "store")
            src = next((f.file for f in m.funcs.values()), m.path)
            if written and not src.endswith("ctrlc.c"): out.append(Finding("global:" + g, BAD, src, "mutable global state", "effect scan"))
            else: out.append(Finding("global:" + g, OK, src, "never written" if not written else "interrupt flag", "effect scan"))
    return out
def root_global(f, v, depth=0):
    if v.startswith("@"): return v[1:].strip('"')
    m = re.match(r'getelementptr .*?ptr @([\w.]+)', v)
    if m: return m.group(1)
    d = defs(f).get(v)
    if d is None or depth > 20: return None
    if d.op in ("getelementptr", "bitcast", "freeze"): return root_global(f, d.args[0][1], depth + 1)
    if d.op == "phi":
        for x, b in d.extra:
            r = root_global(f, x, depth + 5)
            if r: return r
    return None

# ---------------------------------------------------------------- C42: interrupt handling
def interrupt(w):
    p = w.prog; out = []
    def put(k, ok, fn, t): out.append(Finding("interrupt:" + k, OK if ok else BAD, where(p, fn) if isinstance(fn, str) else fn, "" if ok else t, "handler typestate"))
    # the handler: whatever address is stored into a sigaction record (or passed to signal) 
    hs = {}; setup = None
    for f in w.repo_funcs():
        for i in f.insts():
            if i.op == "store" and i.args[0][0] == "ptr" and i.args[0][1].startswith("@"):
                g = p.resolve(f, i.args[0][1][1:].strip('"'))
                if g is not None and g.blocks: hs[g.name] = f
            if i.op == "call" and i.extra in ("signal", "bsd_signal"):
                a = i.args[1][1]
                if a.startswith("@"): hs[a[1:].strip('"')] = f
    if not hs: return [Finding("interrupt:handler", UND, "src/ctrlc.c", "no handler found")]
    flags = set()
    for h in sorted(hs):
        f = p.funcs.get(h)
        if f is None or not f.blocks: out.append(Finding("interrupt:handler", UND, h, "")); continue
        calls = [i for i, n, g in graph(p)[h]]
        put("handler calls nothing", not calls, "%s (%s)" % (line(calls[0]) if calls else where(p, h), h), "the handler calls %s" % (calls[0].extra if calls else ""))
        st = [i for i in f.insts() if i.op == "store"]
        other = [i for i in st if not root_global(f, i.args[1][1])]
        put("handler writes only the flag", not other, h, "the handler writes other memory")
        for i in st:
            g = root_global(f, i.args[1][1])
            if g is None: continue
            flags.add((f.mod, g))
            put("flag access is volatile", i.extra == "volatile", "%s (%s)" % (line(i), h), "the flag is written by a plain store")
            put("flag is sig_atomic_t", i.args[0][0] == "i32", "%s (%s)" % (line(i), h), "the flag is %s" % i.args[0][0])
        lps = cfgx.loops(f); put("handler does not loop", not lps, h, "loop in the handler")
        put("handler sets the flag", any(nonzero(f, i.args[0][1]) for i in st if root_global(f, i.args[1][1])), h, "no store of a non-zero value to the flag")
    for m, g in flags:
        for f in m.funcs.values():
            for i in f.insts():
                if i.op in ("load", "store") and root_global(f, i.args[-1][1]) == g and f.name not in hs:
                    put("flag access is volatile:" + f.name, i.extra == "volatile", "%s (%s)" % (line(i), f.name), "the flag is read or written by a plain access")
    # installation: flag cleared, old disposition kept; removal: that same disposition put back
    saved = set()
    names = sorted({f.name for f in hs.values()})
    for n in names:
        f = p.funcs[n]
        sa = [i for i, c, g in graph(p)[n] if c == "sigaction"]
        if not sa: out.append(Finding("interrupt:install", UND, where(p, n), "not by sigaction")); continue
        for i in sa:
            put("installs for SIGINT", i.args[0][1] == "2", line(i), "signal %s" % i.args[0][1])
            g = root_global(f, i.args[2][1])
            put("keeps the previous disposition", g is not None, line(i), "the previous disposition is not kept in static storage")
            if g: saved.add(g)
            clr = [j for j in f.insts() if j.op == "store" and root_global(f, j.args[1][1]) in {x for _, x in flags} and j.args[0][1] == "0"]
            put("clears the flag first", any(before(f, j, i) for j in clr), line(i), "the flag is not cleared before the handler is installed")
    rem = [(f, i) for f in w.repo_funcs() for i, c, g in graph(p)[f.name] if c == "sigaction" and f.name not in names]
    put("removal exists", bool(rem), "src/ctrlc.c", "no removal")
    for f, i in rem:
        put("removes for SIGINT", i.args[0][1] == "2", line(i), "signal %s" % i.args[0][1])
        put("restores the saved disposition", root_global(f, i.args[1][1]) in saved, "%s (%s)" % (line(i), f.name), "installs something other than the saved disposition")
        put("saved disposition not overwritten", root_global(f, i.args[2][1]) not in saved if len(i.args) > 2 else True, "%s (%s)" % (line(i), f.name), "the saved disposition is overwritten")
    # polling function returns the flag
    pol = [f for f in w.repo_funcs() for i in f.insts() if i.op == "load" and f.name not in hs and root_global(f, i.args[0][1]) in {x for _, x in flags}]
    put("the flag can be polled", bool(pol), "src/ctrlc.c", "nothing reads the flag")
    pn = {f.name for f in pol}
    # typestate over the solve: install -> poll* -> remove on every path
    if "ECOS_solve" in p.funcs:
        ins = set(names); rm = {f.name for f, i in rem}
        for k, t, l in typestate(p, "ECOS_solve", ins, rm, pn):
            out.append(Finding("interrupt:order " + k, BAD if t else OK, l, t, "typestate"))
        # a poll in the loop of the iterations
        f = p.funcs["ECOS_solve"]
        reachp = {n for n in graph(p) if reachable(p, [n]).keys() & pn}
        lp = [l for l in cfgx.loops(f) if any(i.op == "call" and i.extra == "kkt_factor" for b in l.blocks for i in b.insts)]
        if lp:
            main = min(lp, key=lambda l: len(l.blocks))
            polls = [i for b in main.blocks for i in b.insts if i.op == "call" and i.extra in reachp]
            lat = main.latches
            put("every iteration polls", any(all(cfgx.dominates(f, i.blk, b) for b in lat) for i in polls), "%s (ECOS_solve)" % line(main.header.insts[0]), "an iteration can finish without polling the interrupt flag")
            used = [i for i in polls if influences(f, i)]
            put("the poll is examined", bool(used), where(p, "ECOS_solve"), "the polled value is ignored")
    return out
def nonzero(f, v):
    if re.match(r'-?\d+$', v): return v != "0"
    return True
def before(f, a, b):
    if a.blk is b.blk: return a.blk.insts.index(a) < b.blk.insts.index(b)
    return cfgx.dominates(f, a.blk, b.blk)
def influences(f, i):
    """the result reaches a branch, a store, a return or a call"""
    seen = {i.res}; ch = True
    while ch:
        ch = False
        for j in f.insts():
            if j.op == "phi": ops = [x for x, b in j.extra]
            else: ops = [x for t, x in j.args]
            if not any(o in seen for o in ops): continue
            if j.op in ("br", "switch", "ret", "call"): return True
            if j.op == "store" and j.args[0][1] in seen: return True
            if j.res and j.res not in seen: seen.add(j.res); ch = True
    return False
def typestate(p, fn, ins, rm, pol):
    """(name, complaint or '', where) for install/remove/poll along every path"""
    memo = {}
    msgs = {}
    def touches(name): return bool(reachable(p, [name]).keys() & (ins | rm | pol)) or name in ins | rm | pol
    def run(name, st0, top=False):
        key = (name, st0)
        if key in memo: return memo[key]
        memo[key] = {st0}
        f = p.funcs[name]; inn = {f.entry: {st0}}; work = [f.entry]; outs = set()
        while work:
            b = work.pop(); sts = set(inn[b])
            for i in b.insts:
                if i.op == "call" and not i.extra.startswith(("llvm.", "%")):
                    n = i.extra
                    if n in ins:
                        if "on" in sts: msgs["installed once"] = ("installed a second time", "%s (%s)" % (line(i), name))
                        sts = {"on"}
                    elif n in rm:
                        if "off" in sts: msgs["removed once"] = ("removed when it is not installed", "%s (%s)" % (line(i), name))
                        sts = {"off"}
                    elif n in pol:
                        if "off" in sts: msgs["polled while installed"] = ("polled when no handler is installed", "%s (%s)" % (line(i), name))
                    else:
                        g = p.resolve(f, n)
                        if g is not None and g.blocks and touches(g.name): sts = set().union(*[run(g.name, s) for s in sts])
                if i.op == "ret":
                    outs |= sts
                    if top and "on" in sts: msgs["removed at every return"] = ("a return leaves the interrupt handler installed", "%s (%s)" % (line(i), name))
            for t in b.succ:
                if not sts <= inn.get(t, set()): inn[t] = inn.get(t, set()) | sts; work.append(t)
        memo[key] = outs
        return outs
    run(fn, "off", True)
    f = p.funcs[fn]
    if not touches(fn): msgs["removed at every return"] = ("", where(p, fn))
    for k in ("installed once", "removed once", "polled while installed", "removed at every return"):
        yield k, msgs.get(k, ("", ""))[0], msgs.get(k, ("", where(p, fn)))[1]

# ---------------------------------------------------------------- C43: bounded loops
def loops_bounded(w):
    p = w.prog; out = []
    seen = reachable(p, [r for r in ENTRY if r in p.funcs])
    for n in sorted(seen):
        f = p.funcs[n]
        if "/amd/" in f.file: continue
        for k, lp in enumerate(sorted(cfgx.loops(f), key=lambda l: f.order.index(l.header))):
            st, how = bounded(p, f, lp)
            l = next((line(i) for i in lp.header.insts if i.dbg), f.file)
            out.append(Finding("loop:%s:%d" % (n, k), st, "%s (%s)" % (l, n), "" if st == OK else how, how if st == OK else "loop bounds"))
    return out
def inside(f, lp, v):
    d = defs(f).get(v)
    return d is not None and d.blk in lp.blocks
def const_of(v): return int(v) if re.match(r'-?\d+$', v) else None
def steps(f, lp, ph):
    """steps of a header phi per iteration if they are all constants of one sign"""
    out = set()
    def walk(v, acc, depth=0):
        if v == ph.res: out.add(acc); return True
        d = defs(f).get(v)
        if d is None or d.blk not in lp.blocks or depth > 40: return False
        if d.op in ("add", "sub"):
            c = const_of(d.args[1][1])
            if c is not None: return walk(d.args[0][1], acc + (c if d.op == "add" else -c), depth + 1)
            c = const_of(d.args[0][1])
            if c is not None and d.op == "add": return walk(d.args[1][1], acc + c, depth + 1)
            return False
        if d.op == "phi": 
            # a phi of an inner loop that only moves in the same direction
            if d is not ph and cfgx_loop(f, d.blk) is not None and d.blk is cfgx_loop(f, d.blk).header:
                il = cfgx_loop(f, d.blk)
                s_ = steps(f, il, d) if il is not lp else None
                if s_ is None: return False
                entry = [x for x, b in d.extra if f.blocks[b] not in il.blocks]
                sg = {x > 0 for x in s_ if x}
                if len(sg) > 1: return False
                for x in s_ | {0}:
                    for e in entry:
                        if not walk(e, acc + x, depth + 1): return False
                return True
            return all(walk(x, acc, depth + 1) for x, b in d.extra)
        if d.op == "select": return walk(d.args[1][1], acc, depth + 1) and walk(d.args[2][1], acc, depth + 1)
        if d.op in ("sext", "zext", "trunc", "freeze"): return walk(d.args[0][1], acc, depth + 1)
        if d.op == "getelementptr" and len(d.args) == 2:
            c = const_of(d.args[1][1])
            return c is not None and walk(d.args[0][1], acc + c, depth + 1)
        return False
    for v, b in ph.extra:
        if f.blocks[b] in lp.blocks and not walk(v, 0): return None
    return out
def cfgx_loop(f, b):
    cfgx.loops(f); return f._loop_of.get(b)
def advancing(f, lp, v, depth=0):
    """v is a header phi that moves by constants of one sign every iteration, or such a value plus constants"""
    d = defs(f).get(v)
    if d is None or depth > 20: return 0
    if d.op == "phi" and d.blk is lp.header:
        s = steps(f, lp, d)
        if s and all(x > 0 for x in s): return 1
        if s and all(x < 0 for x in s): return -1
        return 0
    if d.blk not in lp.blocks: return 0
    if d.op in ("add", "sub"):
        if const_of(d.args[1][1]) is not None: return advancing(f, lp, d.args[0][1], depth + 1)
        for a, b in ((0, 1), (1, 0)):
            x = advancing(f, lp, d.args[a][1], depth + 1)
            if x and invariant(f, lp, d.args[b][1]): return x if d.op == "add" or a == 0 else -x
        return 0
    if d.op in ("sext", "zext", "trunc", "freeze"): return advancing(f, lp, d.args[0][1], depth + 1)
    if d.op == "getelementptr" and len(d.args) == 2 and const_of(d.args[1][1]) is not None: return advancing(f, lp, d.args[0][1], depth + 1)
    if d.op == "mul" and const_of(d.args[1][1]): return advancing(f, lp, d.args[0][1], depth + 1) * (1 if const_of(d.args[1][1]) > 0 else -1)
    if d.op == "load":
        # a counter kept in memory: one store per iteration of its value plus a constant, dominating every latch
        st = [i for b in lp.blocks for i in b.insts if i.op == "store" and same_cell(f, i.args[1][1], d.args[0][1])]
        sg = set()
        for i in st:
            x = defs(f).get(i.args[0][1])
            if x is None or x.op not in ("add", "sub"): return 0
            c = const_of(x.args[1][1]); y = defs(f).get(x.args[0][1])
            if c is None or y is None or y.op != "load" or not same_cell(f, y.args[0][1], d.args[0][1]): return 0
            sg.add((c if x.op == "add" else -c) > 0)
        if len(sg) != 1: return 0
        if not any(all(cfgx.dominates(f, i.blk, l) for l in lp.latches) for i in st): return 0
        return 1 if sg == {True} else -1
    return 0
def cellkey(f, v, depth=0):
    d = defs(f).get(v)
    if d is None or depth > 12: return v
    if d.op == "getelementptr": return (cellkey(f, d.args[0][1], depth + 1), d.ty) + tuple(cellkey(f, x, depth + 1) for t, x in d.args[1:])
    if d.op == "load": return ("*", cellkey(f, d.args[0][1], depth + 1))
    if d.op in ("sext", "zext"): return cellkey(f, d.args[0][1], depth + 1)
    return v
def same_cell(f, a, b): return cellkey(f, a) == cellkey(f, b)
def invariant(f, lp, v, depth=0):
    d = defs(f).get(v)
    if d is None or d.blk not in lp.blocks: return True
    if depth > 12: return False
    if d.op in ("add", "sub", "mul", "sext", "zext", "trunc", "icmp", "getelementptr", "select"): return all(invariant(f, lp, x, depth + 1) for t, x in d.args)
    if d.op == "load":
        if not invariant(f, lp, d.args[0][1], depth + 1): return False
        k = cellkey(f, d.args[0][1])
        return not any(i.op == "store" and cellkey(f, i.args[1][1]) == k for b in lp.blocks for i in b.insts)
    return False
def cmps(f, v, depth=0):
    d = defs(f).get(v)
    if d is None or depth > 10: return []
    if d.op == "icmp": 
        if d.extra in ("ne", "eq") and d.args[1][1] == "0":
            x = defs(f).get(d.args[0][1])
            if x is not None and x.op in ("zext", "sext", "and", "or"): return cmps(f, d.args[0][1], depth + 1) or [d]
        return [d]
    if d.op in ("and", "or", "xor", "select", "zext", "sext", "trunc", "freeze"): return [c for t, x in d.args for c in cmps(f, x, depth + 1)]
    if d.op == "phi": return [c for x, b in d.extra for c in cmps(f, x, depth + 1)]
    return []
def bounded(p, f, lp):
    ex = [(b, t) for b in lp.blocks for t in b.succ if t not in lp.blocks]
    if not ex: return BAD, "the loop has no exit"
    for b, t in ex:
        if b.term.op != "br" or not b.term.args: continue
        if not all(cfgx.dominates(f, b, l) for l in lp.latches):
            # short-circuit: the exit test may sit in a block reached only when the other half holds
            pass
        for c in cmps(f, b.term.args[0][1]):
            a1, a2 = c.args[0][1], c.args[1][1]
            for x, y in ((a1, a2), (a2, a1)):
                s = advancing(f, lp, x)
                if not s: continue
                if invariant(f, lp, y): return (OK, "counts %s to a limit fixed before the loop" % ("up" if s > 0 else "down"))
                if advancing(f, lp, y) * s < 0: return OK, "two counters approach each other"
                m = monotone(p, f, lp, y)
                if m: return OK, m
    # the exit test is a helper that compares a counter kept in memory, which the loop moves
    for b, t in ex:
        c = defs(f).get(b.term.args[0][1]) if b.term.args else None
        while c is not None and c.op == "icmp" and c.args[1][1] == "0": c = defs(f).get(c.args[0][1])
        if c is None or c.op != "call": continue
        g = p.resolve(f, c.extra) if not c.extra.startswith("%") else None
        if g is None or not g.blocks: continue
        rd = set()
        for i in g.insts():
            if i.op == "icmp" and i.extra in ("slt", "sle", "sgt", "sge", "ult", "ule"):
                for _, x in i.args:
                    for y in (x,) + tuple(z for _, z in defs(g)[x].args) if x in defs(g) else ():
                        d = defs(g).get(y)
                        if d is not None and d.op == "load": rd.add(last_field(g, d.args[0][1]))
        for bb in lp.blocks:
            for i in bb.insts:
                if i.op != "store" or last_field(f, i.args[1][1]) not in rd: continue
                x = defs(f).get(i.args[0][1])
                if x is not None and x.op == "add" and const_of(x.args[1][1]) and all(cfgx.dominates(f, bb, l) for l in lp.latches):
                    y = defs(f).get(x.args[0][1])
                    if y is not None and y.op == "load" and same_cell(f, y.args[0][1], i.args[1][1]): return OK, "a counter in memory advances to the limit tested by %s" % g.name
    # visited marks: the loop goes on while a mark differs and sets that mark
    for b, t in ex:
        for c in cmps(f, b.term.args[0][1]) if b.term.args else ():
            for x, y in ((c.args[0][1], c.args[1][1]), (c.args[1][1], c.args[0][1])):
                d = defs(f).get(x)
                if d is not None and d.op == "load" and d.blk in lp.blocks and (invariant(f, lp, y)):
                    for bb in lp.blocks:
                        for i in bb.insts:
                            if i.op == "store" and i.args[0][1] == y and same_cell(f, i.args[1][1], d.args[0][1]) and all(cfgx.dominates(f, bb, l) for l in lp.latches):
                                return OK, "every iteration marks a new element"
    # a loop that ends when data says so and no counter moves at all
    anyc = False
    for b, t in ex:
        if b.term.args and cmps(f, b.term.args[0][1]): anyc = True
        if b.term.op == "switch": anyc = True
    cnt = [ph for ph in lp.header.phis if ph.ty.startswith("i") and steps(f, lp, ph)]
    if not any(uses_counter(f, lp, b) for b, t in ex): return BAD, "no exit of the loop depends on a counter or a mark"
    return UND, "loop bound not recognised"
def uses_counter(f, lp, b):
    if not b.term.args: return False
    return any(advancing(f, lp, x) for c in cmps(f, b.term.args[0][1]) for t, x in c.args) or calls_helper(f, lp, b)
def calls_helper(f, lp, b):
    seen = set(); st = [b.term.args[0][1]]
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v); d = defs(f).get(v)
        if d is None: continue
        if d.op == "call": return True
        st += [x for x, _ in d.extra] if d.op == "phi" else [x for t, x in d.args]
    return False
def monotone(p, f, lp, y): return ""

# ---------------------------------------------------------------- C44: results that signal failure
STATUS = {"kkt_factor": "factorisation", "updateScalings": "scaling update", "init": "initialisation", "amd_l_order": "ordering", "amd_order": "ordering",
          "ECOS_setup": "setup", "evalExpPrimalFeas": "membership", "evalExpDualFeas": "membership", "checkExitConditions": "exit test", "ldl_l_numeric2": "factorisation", "check_ctrlc": "interrupt"}
def results_used(w):
    p = w.prog; out = []
    seen = reachable(p, [r for r in ENTRY if r in p.funcs])
    for f in sorted(seen):
        for i, n, g in graph(p)[f]:
            if n not in STATUS: continue
            k = "result:%s in %s" % (n, f)
            ok = i.res is not None and influences(p.funcs[f], i)
            out.append(Finding(k, OK if ok else BAD, "%s (%s)" % (line(i), f), "" if ok else "the result of the %s (%s) is not examined" % (STATUS[n], n), "use of results"))
    return out

# ---------------------------------------------------------------- C30: nothing used after release
def released_use(w):
    p = w.prog; out = []
    E = effects._cache.setdefault(id(p), effects.Effects(p))
    for f in w.repo_funcs():
        if "/amd/" in f.file: continue
        own = [i for i, n, g in graph(p)[f.name] if n == "free" or (g is not None and g.blocks and freed_paths(p, g.name))]
        if not own: continue
        P, val = E.pts(f); bad = {}
        inn = {f.entry: frozenset()}; work = [f.entry]
        def fr(i):
            if i.extra == "free": return {q: (i, True) for q in val(i.args[0][1])} if len(val(i.args[0][1])) == 1 else {}
            g = p.resolve(f, i.extra); o = {}
            if g is None or not g.blocks: return o
            for q in freed_paths(p, g.name):
                m = re.match(r'a(\d+)\[\]', q)
                if not m or int(m.group(1)) >= len(i.args): continue
                bs = val(i.args[int(m.group(1))][1])
                if len(bs) == 1: o[next(iter(bs)) + q[m.end():]] = (i, False)
            return o
        def used(F, q):
            for x in F:
                if q == x or q.startswith(x + ".") or q.startswith(x + "*"): return x
            return None
        while work:
            b = work.pop(); F = set(inn[b])
            for i in b.insts:
                if i.op == "load":
                    for q in val(i.args[0][1]) if len(val(i.args[0][1])) == 1 else ():
                        x = used(F, q)
                        if x: bad[("used", x)] = i
                elif i.op == "store":
                    for q in val(i.args[1][1]) if len(val(i.args[1][1])) == 1 else ():
                        x = used(F, q)
                        if x: bad[("used", x)] = i
                        F -= {x for x in F if x == q + "*[]" or x.startswith(q + "*[].") or x.startswith(q + "*[]*")}
                elif i.op == "call" and not i.extra.startswith("llvm."):
                    g = p.resolve(f, i.extra) if not i.extra.startswith("%") else None
                    fd = fr(i)
                    for q in fd:
                        x = used(F, q)
                        if x and not re.search(r'\*\[\]\..*\*\[\]$', x) or x and "soc" not in x: bad[("released twice" if x == q else "used", x)] = i
                    if g is not None and g.blocks and i.extra not in ("free",):
                        e = E.of(g)
                        for q in list(e.reads) + list(e.writes):
                            m = re.match(r'a(\d+)\[\]', q)
                            if not m or int(m.group(1)) >= len(i.args): continue
                            bs = val(i.args[int(m.group(1))][1])
                            if len(bs) == 1:
                                x = used(F, next(iter(bs)) + q[m.end():])
                                if x: bad[("used", x)] = i
                    F |= {q for q in fd}
            # records in arrays of cones are told apart by their index, not by their path
            F = frozenset(x for x in F if not re.search(r'(soc|expc)\*\[\]\.', x))
            for t in b.succ:
                if t not in inn or not F <= inn[t]: inn[t] = frozenset(inn.get(t, frozenset()) | F); work.append(t)
        for (what, x), i in bad.items():
            out.append(Finding("released:%s:%s" % (f.name, x), BAD, "%s (%s)" % (line(i), f.name), "%s is %s after it was released" % (name_path(f, x), what), "release typestate"))
        if not bad: out.append(Finding("released:" + f.name, OK, where(p, f.name), "%d releasing calls" % len(own), "release typestate"))
    return out

# ---------------------------------------------------------------- C50/C51/C54: what a node's result code may lead to
CODES = {0: "optimal", 10: "optimal (reduced)", 1: "primal infeasible", 11: "primal infeasible (reduced)", 2: "dual infeasible", 12: "dual infeasible (reduced)",
         -1: "iteration limit", -2: "numerical problems", -3: "outside cone", -4: "interrupted", -7: "fatal"}
def node_codes(w, which):
    import registry
    p = w.prog; configure(); out = []
    L = where(p, "get_bounds")
    if "get_bounds" not in p.funcs: return [Finding("node result", UND, "ecos_bb/ecos_bb.c", "no get_bounds")]
    b = {k: v for k, v in bnd(p, {**registry.BBP, **registry.BBE}).items() if k != "get_bounds"}
    solve = b["ECOS_solve"]
    def run(c):
        """summary of the node evaluation with the result code of its relaxation fixed"""
        n = [0]
        def first(v, args, mem, inst):
            r = solve(v, args, mem, inst); n[0] += 1
            return T.const(c) if n[0] == 1 else r
        V = vf.VF(p, {**b, "ECOS_solve": first}); r, m = V.run("get_bounds")
        return V, {q: m.d[q] for q in m.d if re.search(r'nodes\*\[\]\.(status|L|U)$', q)}
    ref = run(1)[1]
    if not ref: return [Finding("node result", UND, L, "the node records are not written")]
    for c, t in CODES.items():
        V, st = run(c)
        same = st.keys() == ref.keys() and all(st[q] is ref[q] for q in st)
        may = any(e.cond is not FALSE for e in V.events if e.fn == "store_solution")
        k = "node result %d (%s)" % (c, t); h = "case analysis over result codes"
        if which == "prune":
            if c in (1, 11): out.append(Finding(k + ": discarded as infeasible", OK if same else UND, L, "", h))
            else: out.append(Finding(k + ": not discarded as infeasible", BAD if same else OK, L, "a relaxation ending with this code is discarded as infeasible, which it does not prove" if same else "", h))
        elif which == "unbounded":
            if c in (2, 12): out.append(Finding(k + ": reported as unbounded", BAD if same else OK, L, "an unbounded relaxation is handled like an infeasible one, so the search reports infeasible" if same else "", h))
        else:
            if c in (0, 10): out.append(Finding(k + ": may become incumbent", OK if may else UND, L, "" if may else "no call of store_solution seen", h))
            else: out.append(Finding(k + ": never becomes incumbent", BAD if may else OK, L, "the iterate of a relaxation ending with this code can become the incumbent" if may else "", h))
    return out

def trial_codes(w):
    """what a trial branching may do to the node, by the result code of its relaxations"""
    import registry
    p = w.prog; configure(); out = []
    for fn in ("strong_branch_bool_var", "strong_branch_int_var"):
        if fn not in p.funcs: out.append(Finding("trial " + fn, UND, "ecos_bb/ecos_bb.c", "no " + fn)); continue
        b = {k: v for k, v in bnd(p, {**registry.BBP, **registry.BBE}).items() if k not in (fn, "calc_tmp_branching_problem", "check_infeasible_bool_var", "check_infeasible_int_var", "is_infeasible")}
        solve = b["ECOS_solve"]
        for c, t in CODES.items():
            def fixed(v, args, mem, inst): solve(v, args, mem, inst); return T.const(c)
            try: V = vf.VF(p, {**b, "ECOS_solve": fixed}); r, m = V.run(fn)
            except Exception as e: out.append(Finding("trial result %d: %s" % (c, fn), UND, where(p, fn), str(e)[:80])); continue
            st = [q for q in m.d if re.search(r"\.(bool|int)_node_ids\*\[\]$", q) and m.d[q] is not None and not (m.d[q].k == "arr" and m.d[q].a and m.d[q].a[0] == q)]
            k = "trial result %d (%s): %s" % (c, t, fn); h = "case analysis over result codes"
            if c in (0, 10, 1, 11): out.append(Finding(k + ": may tighten the node", OK if st else UND, where(p, fn), "" if st else "no tightening seen", h))
            else: out.append(Finding(k + ": leaves the node alone", BAD if st else OK, where(p, fn), "a trial ending with this code tightens %s, though it showed nothing" % ", ".join(st) if st else "", h))
    return out

def node_bounds(w):
    """the lower bound of a node is the value of a converged relaxation"""
    import registry
    p = w.prog; configure(); out = []
    L = where(p, "get_bounds")
    if "get_bounds" not in p.funcs: return [Finding("node bound", UND, "ecos_bb/ecos_bb.c", "no get_bounds")]
    b = {k: v for k, v in bnd(p, {**registry.BBP, **registry.BBE}).items() if k != "get_bounds"}
    solve = b["ECOS_solve"]
    def run(c):
        n = [0]
        def first(v, args, mem, inst):
            r = solve(v, args, mem, inst); n[0] += 1
            return T.const(c) if n[0] == 1 else r
        V = vf.VF(p, {**b, "ECOS_solve": first}); r, m = V.run("get_bounds")
        return next((m.d[q] for q in m.d if re.search(r'nodes\*\[\]\.L$', q)), None)
    ref = run(0)
    if ref is None: return [Finding("node bound", UND, L, "the node's bound is not written")]
    for c in (-1, -2):
        x = run(c); same = x is ref
        out.append(Finding("node result %d (%s): gives no bound" % (c, CODES[c]), BAD if same else OK, L, "the cost of an iterate that did not converge becomes the node's lower bound, by which it may be discarded" if same else "", "case analysis over result codes"))
    return out

RULES = {}
def rule(name, fn, cost=1): RULES[name] = Rule(name, fn, cost); return RULES[name]
rule("no heap use while solving", no_heap); rule("sizes keep their width", widths); rule("user arrays are borrowed", user_arrays); rule("prints are guarded by the verbosity setting", quiet)
rule("no process-wide effects", side_effects); rule("interrupt handling", interrupt); rule("loops are bounded", loops_bounded)
rule("results that signal failure are examined", results_used); rule("nothing is used after release", released_use)
rule("result codes that discard a node", lambda w: node_codes(w, "prune")); rule("result codes that give an incumbent", lambda w: node_codes(w, "incumbent")); rule("result codes of trial branchings", trial_codes); rule("result codes that give a bound", node_bounds); rule("unbounded relaxations", lambda w: node_codes(w, "unbounded"))
