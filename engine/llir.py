"""Small parser for textual LLVM 18 IR (the subset clang -O0 + sroa,mem2reg,loop-simplify produces for C)."""
import re, struct
from fractions import Fraction

class Inst:
    __slots__ = ("res", "op", "ty", "args", "extra", "dbg", "blk", "fn", "text")
    def __init__(s, res, op, ty, args, extra, dbg, blk, fn, text):
        s.res, s.op, s.ty, s.args, s.extra, s.dbg, s.blk, s.fn, s.text = res, op, ty, args, extra, dbg, blk, fn, text
    def __repr__(s): return s.text.strip()
    @property
    def loc(s):
        return s.fn.mod.loc(s.dbg) if s.dbg else "%s:?" % s.fn.file

class Block:
    def __init__(s, name, fn):
        s.name, s.fn, s.insts, s.succ, s.pred, s.phis = name, fn, [], [], [], []
    @property
    def term(s): return s.insts[-1]
    def __repr__(s): return "<%s:%s>" % (s.fn.name, s.name)

class Func:
    def __init__(s, name, mod):
        s.name, s.mod, s.params, s.blocks, s.order, s.rty, s.internal = name, mod, [], {}, [], None, False
        s.dbg = None; s.ptypes = []; s.varargs = False
        s.pnames = []
    @property
    def entry(s): return s.order[0]
    @property
    def file(s):
        return s.mod.file_of_sub(s.dbg) if s.dbg else s.mod.path
    def insts(s):
        for b in s.order:
            for i in b.insts: yield i
    def __repr__(s): return "<fn %s>" % s.name

IDENT = r'[-a-zA-Z$._0-9]+'

def split_top(s):
    """split by commas at nesting level 0"""
    out, lvl, cur, q = [], 0, [], False
    for ch in s:
        if q:
            cur.append(ch)
            if ch == '"': q = False
            continue
        if ch == '"': q = True
        if ch in "([{<": lvl += 1
        elif ch in ")]}>": lvl -= 1
        if ch == "," and lvl == 0:
            out.append("".join(cur).strip()); cur = []
        else:
            cur.append(ch)
    t = "".join(cur).strip()
    if t: out.append(t)
    return out

ATTRS = {"noundef", "noalias", "nocapture", "writeonly", "readonly", "readnone", "signext", "zeroext", "nonnull", "returned",
         "immarg", "inbounds", "nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn", "tail",
         "notail", "musttail", "dso_local", "internal", "local_unnamed_addr", "fastcc", "ccc", "disjoint"}

def take_type(s):
    """parse a type at the start of s; returns (type string, rest)"""
    s = s.strip()
    m = re.match(r'\s*', s)
    if s.startswith("%"):
        m = re.match(r'%(?:"[^"]*"|' + IDENT + ')', s); t = m.group(0); r = s[m.end():]
    elif s[0] in "[{<":
        lvl = 0
        for k, ch in enumerate(s):
            if ch in "[{<": lvl += 1
            elif ch in "]}>":
                lvl -= 1
                if lvl == 0: break
        t, r = s[:k + 1], s[k + 1:]
    else:
        m = re.match(r'[a-zA-Z0-9_]+', s); t = m.group(0); r = s[m.end():]
    r2 = r.lstrip()
    while r2.startswith("*") or r2.startswith("("):
        if r2.startswith("*"): t += "*"; r2 = r2[1:].lstrip()
        else:  # function type
            lvl = 0
            for k, ch in enumerate(r2):
                if ch == "(": lvl += 1
                elif ch == ")":
                    lvl -= 1
                    if lvl == 0: break
            t += " " + r2[:k + 1]; r2 = r2[k + 1:].lstrip()
    return t, r2

def skip_attrs(s):
    s = s.strip()
    while True:
        m = re.match(r'([a-z_]+)(\([^)]*\))?(?=\s|$)', s)
        if m and m.group(1) in ATTRS: s = s[m.end():].strip(); continue
        m = re.match(r'align \d+\s*', s)
        if m: s = s[m.end():].strip(); continue
        m = re.match(r'(dereferenceable|dereferenceable_or_null|captures|range|sret|byval)\([^)]*\)\s*', s)
        if m: s = s[m.end():].strip(); continue
        return s

def typed_operand(s):
    s = skip_attrs(s)
    t, r = take_type(s)
    return t, skip_attrs(r)

def parse_fp(tok):
    if tok.startswith("0x"):
        bits = int(tok[2:], 16)
        return struct.unpack(">d", bits.to_bytes(8, "big"))[0]
    return float(tok)

class Module:
    def __init__(s, path):
        s.path = path
        s.funcs, s.globals, s.structs, s.decls, s.meta = {}, {}, {}, {}, {}
        s.parse(open(path).read())
        s._field_names = None
    # -- parsing ---------------------------------------------------------------------------------
    def parse(s, txt):
        fn = None; blk = None; pend = None
        for line in txt.split("\n"):
            if fn is None:
                if line.startswith("define"):
                    fn = s.parse_define(line); blk = None
                elif line.startswith("declare"):
                    m = re.search(r'@("[^"]*"|' + IDENT + r')\(', line)
                    s.decls[m.group(1).strip('"')] = line
                elif line.startswith("@"):
                    m = re.match(r'@("[^"]*"|' + IDENT + r')\s*=\s*(.*)', line)
                    s.globals[m.group(1).strip('"')] = m.group(2)
                elif line.startswith("%"):
                    m = re.match(r'(%(?:"[^"]*"|' + IDENT + r'))\s*=\s*type\s+(.*)', line)
                    if m: s.structs[m.group(1)] = m.group(2)
                elif line.startswith("!"):
                    m = re.match(r'!(\d+) = (.*)', line)
                    if m: s.meta[m.group(1)] = m.group(2)
                continue
            if line.startswith("}"):
                for b in fn.order:
                    for t in b.succ: fn.blocks[t].pred.append(b)
                for b in fn.order: b.succ = [fn.blocks[t] for t in b.succ]
                fn = None; continue
            if pend is not None:
                pend += " " + line.strip()
                if "]" in line:
                    s.parse_inst(pend, blk, fn); pend = None
                continue
            st = line.strip()
            if not st or st.startswith(";"): continue
            m = re.match(r'^("[^"]*"|' + IDENT + r'):', line)
            if m:
                blk = Block(m.group(1).strip('"'), fn); fn.blocks[blk.name] = blk; fn.order.append(blk); continue
            if blk is None:
                blk = Block("entry", fn); fn.blocks["entry"] = blk; fn.order.append(blk)
            if st.startswith("switch") and "]" not in st:
                pend = st; continue
            s.parse_inst(st, blk, fn)
    def parse_define(s, line):
        m = re.search(r'@("[^"]*"|' + IDENT + r')\(', line)
        name = m.group(1).strip('"')
        f = Func(name, s); s.funcs[name] = f
        head = line[:m.start()]
        f.internal = " internal " in head
        f.rty = head.split()[-1]
        rest = line[m.end():]
        lvl = 1
        for k, ch in enumerate(rest):
            if ch == "(": lvl += 1
            elif ch == ")":
                lvl -= 1
                if lvl == 0: break
        for a in split_top(rest[:k]):
            if a == "...": f.varargs = True; continue
            t, nm = typed_operand(a)
            f.ptypes.append(t); f.params.append(nm.strip())
        m = re.search(r'!dbg !(\d+)', rest[k:])
        if m: f.dbg = m.group(1)
        return f
    def parse_inst(s, st, blk, fn):
        text = st
        dbg = None
        m = re.search(r', !dbg !(\d+)', st)
        if m: dbg = m.group(1)
        st = re.sub(r'(, )?![a-zA-Z_.]+ !\d+', '', st)
        st = re.sub(r'\s*#\d+\s*$', '', st)
        if "@llvm.dbg." in st:
            if "llvm.dbg.value" in text or "llvm.dbg.declare" in text:
                m = re.match(r'.*metadata \S+ (%\S+?), metadata !(\d+)', text)
                if m and blk is fn.order[0] if fn.order else False:
                    pass
            return
        res = None
        m = re.match(r'(%(?:"[^"]*"|' + IDENT + r'))\s*=\s*(.*)', st)
        if m: res, st = m.group(1), m.group(2)
        st = re.sub(r'^(tail|notail|musttail)\s+', '', st)
        op = st.split(None, 1)[0]
        rest = st[len(op):].strip()
        ty = None; args = []; extra = None
        if op == "br":
            if rest.startswith("label"):
                t = rest.split("%", 1)[1].strip().strip('"'); blk.succ = [t]; extra = None
            else:
                p = split_top(rest); c = p[0].split(None, 1)[1]
                args = [("i1", c)]; blk.succ = [x.split("%", 1)[1].strip().strip('"') for x in p[1:]]
        elif op == "switch":
            m = re.match(r'(\S+) ([^,]+), label %([^\s\[]+)\s*\[(.*)\]', rest)
            args = [(m.group(1), m.group(2))]
            cases = re.findall(r'\S+ (-?\d+), label %(\S+)', m.group(4))
            extra = [int(c) for c, _ in cases]
            blk.succ = [m.group(3).strip('"')] + [t.strip('"') for _, t in cases]
        elif op == "ret":
            if rest != "void": args = [typed_operand(rest)]
        elif op == "unreachable": pass
        elif op == "phi":
            ty, r = take_type(skip_attrs(rest))
            extra = []
            for part in split_top(r):
                m = re.match(r'\[\s*(.*?)\s*,\s*%("[^"]*"|[^\s\]]+)\s*\]', part)
                extra.append((m.group(1), m.group(2).strip('"')))
        elif op == "load":
            p = split_top(rest); ty = p[0]; args = [typed_operand(p[1])]
            if ty.startswith("volatile"): ty = ty.split()[-1]; extra = "volatile"
        elif op == "store":
            p = split_top(rest.replace("volatile ", "")); args = [typed_operand(p[0]), typed_operand(p[1])]
            if "volatile" in rest: extra = "volatile"
        elif op == "getelementptr":
            p = split_top(skip_attrs(rest)); ty = p[0]; args = [typed_operand(x) for x in p[1:]]
        elif op == "alloca":
            p = split_top(rest); ty = p[0]
            if len(p) > 1 and not p[1].startswith("align"): args = [typed_operand(p[1])]
        elif op in ("icmp", "fcmp"):
            r = skip_attrs(rest)
            extra, r = r.split(None, 1)
            p = split_top(r); t, a = typed_operand(p[0]); ty = t; args = [(t, a), (t, p[1].strip())]
        elif op == "call":
            r = skip_attrs(rest)
            ty, r = take_type(r)
            m = re.match(r'([^\s(]+)\(', r)
            callee = m.group(1)
            depth, k = 0, m.end() - 1
            for k in range(m.end() - 1, len(r)):
                if r[k] == "(": depth += 1
                elif r[k] == ")":
                    depth -= 1
                    if depth == 0: break
            extra = callee[1:].strip('"') if callee.startswith("@") else callee
            args = [typed_operand(x) for x in split_top(r[m.end():k])]
            if callee.startswith("%"): extra = callee
            ty = ty.split(" ")[0]
        elif op == "select":
            p = split_top(skip_attrs(rest)); args = [typed_operand(x) for x in p]; ty = args[1][0]
        elif op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
            m = re.match(r'(.*) to (\S+)$', skip_attrs(rest)); args = [typed_operand(m.group(1))]; ty = m.group(2)
        elif op == "fneg" or op == "freeze":
            args = [typed_operand(rest)]; ty = args[0][0]
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "fadd", "fsub", "fmul", "fdiv", "frem", "and", "or", "xor", "shl", "ashr", "lshr"):
            p = split_top(skip_attrs(rest)); t, a = typed_operand(p[0]); ty = t; args = [(t, a), (t, p[1].strip())]
        elif op in ("extractvalue", "insertvalue"):
            p = split_top(rest); args = [typed_operand(p[0])]; extra = p[1:]
        else:
            raise ValueError("unsupported instruction: " + text)
        i = Inst(res, op, ty, args, extra, dbg, blk, fn, text)
        blk.insts.append(i)
        if op == "phi": blk.phis.append(i)
    # -- debug info --------------------------------------------------------------------------------
    def mget(s, body, key):
        m = re.search(r'\b' + key + r': (?:"([^"]*)"|(!?[-\w|]+))', body)
        if not m: return None
        return m.group(1) if m.group(1) is not None else m.group(2)
    def file_name(s, ref):
        if not ref: return "?"
        b = s.meta.get(ref.lstrip("!"), "")
        f = s.mget(b, "filename") or "?"
        return f
    def file_of_sub(s, sub):
        return s.file_name(s.mget(s.meta.get(sub, ""), "file"))
    def loc(s, d):
        b = s.meta.get(d, "")
        line = s.mget(b, "line"); sc = s.mget(b, "scope")
        f = "?"
        seen = 0
        while sc and seen < 50:
            sb = s.meta.get(sc.lstrip("!"), "")
            ff = s.mget(sb, "file")
            if ff: f = s.file_name(ff); break
            sc = s.mget(sb, "scope"); seen += 1
        return "%s:%s" % (f, line)
    def struct_fields(s):
        """%struct.name -> list of field names in order (from debug info)"""
        if s._field_names is not None: return s._field_names
        out = {}
        typedefs = {}
        for k, b in s.meta.items():
            if "DW_TAG_typedef" in b:
                typedefs.setdefault((s.mget(b, "baseType") or "").lstrip("!"), s.mget(b, "name"))
        for k, b in s.meta.items():
            if "DICompositeType(tag: DW_TAG_structure_type" in b:
                names = [n for n in (s.mget(b, "name"), typedefs.get(k)) if n]
                el = s.mget(b, "elements")
                if not el: continue
                m = re.findall(r'!(\d+)', s.meta.get(el.lstrip("!"), ""))
                fl = [s.mget(s.meta[x], "name") for x in m]
                tl = [s.mget(s.meta[x], "baseType") for x in m]
                for name in names:
                    out["%struct." + name] = fl
                    s.field_types = getattr(s, "field_types", {})
                    s.field_types["%struct." + name] = dict(zip(fl, tl))
        s._field_names = out
        return out

class Program:
    """all modules linked by name (statics keep their own name; a clash of statics is resolved per module first)"""
    def __init__(s, paths):
        s.mods = [Module(p) for p in paths]
        s.funcs = {}
        s.fields = {}
        s.structs = {}
        s.globals = {}
        for m in s.mods:
            for n, f in m.funcs.items():
                s.funcs.setdefault(n, f)
            for n, g in m.globals.items():
                s.globals.setdefault(n, (m, g))
            s.structs.update(m.structs)
            for k, v in m.struct_fields().items(): s.fields.setdefault(k, v)
        s.devirtualise()
    def devirtualise(s):
        """calls through a global function pointer that nothing in the library ever assigns go to its initial value"""
        init = {}
        for n, (m, g) in s.globals.items(): pass
        for m in s.mods:
            for n, g in m.globals.items():
                k = re.match(r'(?:dso_local )?global ptr @([\w.$]+)', g.split("=", 1)[-1].strip()) if isinstance(g, str) else None
                if k: init[n] = k.group(1)
        if not init: return
        for m in s.mods:
            for f in m.funcs.values():
                for i in f.insts():
                    if i.op == "store":
                        for t, v in i.args[1:]: init.pop(v.lstrip("@").strip('"'), None) if v.startswith("@") else None
        s.fptr = init
        for m in s.mods:
            for f in m.funcs.values():
                ld = {}
                for i in f.insts():
                    if i.op == "load" and i.ty == "ptr" and i.args[0][1].startswith("@"):
                        g = i.args[0][1][1:].strip('"')
                        if g in init: ld[i.res] = init[g]
                if not ld: continue
                for i in f.insts():
                    if i.op == "call" and isinstance(i.extra, str) and i.extra.startswith("%") and i.extra[1:].strip('"') in ld: i.extra = ld[i.extra[1:].strip('"')]
                    elif i.op == "call" and i.extra in ld: i.extra = ld[i.extra]
    def resolve(s, fn, name):
        f = fn.mod.funcs.get(name)
        return f or s.funcs.get(name)
    def fieldname(s, sty, idx):
        fl = s.fields.get(sty)
        if fl and idx < len(fl): return fl[idx]
        return "#%d" % idx
