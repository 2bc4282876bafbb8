"""Parser for the textual LLVM IR that clang emits for the C sources of /repo.

Only parsing happens here: the IR is never executed or compiled further."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "els", "name", "packed", "_sz", "_al")
    def __init__(self, k, **kw):
        self.k = k
        self.w = self.n = self.el = self.els = self.name = None
        self.packed = False
        self._sz = self._al = None
        for a, b in kw.items():
            setattr(self, a, b)
    def __repr__(self):
        return {"int": "i%s" % self.w, "ptr": "ptr", "void": "void"}.get(self.k, "%s(%s)" % (self.k, self.name or self.n))

PTR = Ty("ptr"); VOID = Ty("void")
_ints = {}
def INT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty("int", w=w)
    return t

class ParseError(Exception):
    pass

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<name>[%@!][-a-zA-Z$._0-9]+|[%@]"[^"]*")|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|(?P<word>[a-zA-Z_][\w.]*)|(?P<dots>\.\.\.)|(?P<p>[()\[\]{}<>,=*:!#|]))''')

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise ParseError("cannot tokenize: " + s[i:i+80])
        i = m.end()
        out.append(m.group(m.lastgroup))
    return out

class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.dbg = {}      # !N -> line
        self.source = None

class Global:
    __slots__ = ("name", "ty", "init", "const", "internal", "external", "module")

class Func:
    __slots__ = ("name", "params", "ret", "blocks", "order", "module", "internal", "entry", "info", "vararg")
    def __repr__(self):
        return "<Func %s>" % self.name

class Block:
    __slots__ = ("name", "phis", "ins", "succs", "preds", "func")

class Ins:
    __slots__ = ("op", "res", "ty", "a", "line", "uid", "extra")
    def __repr__(self):
        return "%s=%s %r" % (self.res, self.op, self.a)

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        if self.next() != x:
            raise ParseError("expected %s in %s" % (x, " ".join(self.t)))
    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif re.fullmatch(r"i\d+", x):
            t = INT(int(x[1:]))
        elif x in ("double", "float"):
            t = Ty("fp", w=64 if x == "double" else 32, name=x)
        elif x == "[":
            n = int(self.next()); self.expect("x"); el = self.type(); self.expect("]")
            t = Ty("arr", n=n, el=el)
        elif x == "{":
            els = []
            if not self.accept("}"):
                while True:
                    els.append(self.type())
                    if self.accept("}"): break
                    self.expect(",")
            t = Ty("struct", els=els)
        elif x == "<":
            if self.peek() == "{":
                self.next(); els = []
                while True:
                    els.append(self.type())
                    if self.accept("}"): break
                    self.expect(",")
                self.expect(">")
                t = Ty("struct", els=els, packed=True)
            else:
                n = int(self.next()); self.expect("x"); el = self.type(); self.expect(">")
                t = Ty("vec", n=n, el=el)
        elif x[0] == "%":
            t = self.mod.types.get(x[1:])
            if t is None:
                t = self.mod.types[x[1:]] = Ty("opaque", name=x[1:])
        elif x == "metadata" or x == "label":
            t = Ty(x)
        else:
            raise ParseError("type? " + x + " in " + " ".join(self.t))
        return t

ATTRS = {"noundef", "nonnull", "zeroext", "signext", "nocapture", "readonly", "writeonly", "immarg", "noalias",
         "inreg", "returned", "readnone", "byval", "align", "dereferenceable", "dereferenceable_or_null", "nofree", "range", "sret"}

def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTRS:
            p.next()
            if x == "align":
                if p.peek() and re.fullmatch(r"\d+", p.peek()):
                    p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    y = p.next()
                    if y == "(": d += 1
                    elif y == ")":
                        d -= 1
                        if d == 0: break
        else:
            return

def const_or_val(p, ty):
    x = p.next()
    if x[0] == "%":
        return ("v", x[1:].strip('"'))
    if x[0] == "@":
        return ("g", x[1:].strip('"'))
    if re.fullmatch(r"-?\d+", x):
        w = ty.w if ty.k == "int" else 64
        return ("c", int(x) % (1 << w), w)
    if x == "true": return ("c", 1, 1)
    if x == "false": return ("c", 0, 1)
    if x == "null": return ("null",)
    if x in ("undef", "poison"): return ("undef", ty)
    if x == "zeroinitializer": return ("zero", ty)
    if x[0] == "c" and x[1:2] == '"':
        return ("bytes", decode_cstr(x[2:-1]))
    if x == "[" or x == "{":
        end = "]" if x == "[" else "}"
        els = []
        if not p.accept(end):
            while True:
                t = p.type(); els.append((t, const_or_val(p, t)))
                if p.accept(end): break
                p.expect(",")
        return ("agg", els)
    if x == "<":
        p.expect("{"); els = []
        while True:
            t = p.type(); els.append((t, const_or_val(p, t)))
            if p.accept("}"): break
            p.expect(",")
        p.expect(">")
        return ("agg", els)
    if x == "getelementptr":
        p.accept("inbounds"); p.expect("(")
        t = p.type(); p.expect(",")
        ops = []
        while True:
            p.accept("inrange")
            ot = p.type(); ops.append((ot, const_or_val(p, ot)))
            if p.accept(")"): break
            p.expect(",")
        return ("gep", t, ops)
    if x in ("ptrtoint", "inttoptr", "bitcast"):
        p.expect("("); t = p.type(); v = const_or_val(p, t)
        p.expect("to"); p.type(); p.expect(")")
        return ("cast", x, v)
    raise ParseError("operand? %s in %s" % (x, " ".join(p.t)))

def decode_cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i:i+2] == "\\\\":
            out.append(0x5c); i += 2
        elif s[i] == "\\":
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode("latin-1", "replace"); i += 1
    return bytes(out)

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FLAGS = {"nsw", "nuw", "exact", "disjoint", "nneg", "fast", "inbounds"}
FP = {"fadd", "fsub", "fmul", "fdiv"}

def parse_ins(line, mod, fn, uid):
    dbg = None
    m = re.search(r", !dbg !(\d+)", line)
    if m:
        dbg = int(m.group(1))
    # strip metadata attachments
    cut = re.search(r", ![a-zA-Z_.]+ !\d+", line)
    if cut:
        line = line[:cut.start()]
    p = P(tokenize(line), mod)
    I = Ins(); I.res = None; I.ty = None; I.extra = None; I.line = dbg; I.uid = uid
    if p.t[0][0] == "%" and len(p.t) > 1 and p.t[1] == "=":
        I.res = p.next()[1:].strip('"'); p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    I.op = op
    if op in BIN or op in FP:
        fl = set()
        while p.peek() in FLAGS or (p.peek() or "") in ("reassoc", "nnan", "ninf", "nsz", "arcp", "contract", "afn"):
            fl.add(p.next())
        I.extra = fl
        I.ty = p.type(); a = const_or_val(p, I.ty); p.expect(","); b = const_or_val(p, I.ty)
        I.a = (a, b)
    elif op in ("icmp", "fcmp"):
        I.extra = p.next(); t = p.type(); a = const_or_val(p, t); p.expect(","); b = const_or_val(p, t)
        I.ty = t; I.a = (a, b)
    elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "fptosi", "sitofp", "uitofp", "fptoui", "fpext", "fptrunc"):
        while p.peek() in FLAGS: p.next()
        t = p.type(); v = const_or_val(p, t)
        if op == "freeze":
            I.ty = t
        else:
            p.expect("to"); I.ty = p.type()
        I.extra = t; I.a = (v,)
    elif op == "load":
        p.accept("volatile")
        I.ty = p.type(); p.expect(","); t = p.type(); I.a = (const_or_val(p, t),)
    elif op == "store":
        p.accept("volatile")
        t = p.type(); v = const_or_val(p, t); p.expect(","); t2 = p.type(); q = const_or_val(p, t2)
        I.ty = t; I.a = (v, q)
    elif op == "getelementptr":
        while p.peek() in FLAGS or p.peek() in ("nuw", "nusw"): p.next()
        I.ty = p.type(); p.expect(",")
        ops = []
        while True:
            t = p.type(); ops.append((t, const_or_val(p, t)))
            if not p.accept(","): break
        I.a = ops
    elif op == "alloca":
        I.ty = p.type()
        cnt = ("c", 1, 64)
        while p.accept(","):
            if p.accept("align"):
                p.next()
            else:
                t = p.type(); cnt = const_or_val(p, t)
        I.a = (cnt,)
    elif op == "br":
        if p.peek() == "label":
            p.next(); I.a = (); I.extra = (p.next()[1:].strip('"'),)
        else:
            t = p.type(); c = const_or_val(p, t); p.expect(","); p.expect("label"); x = p.next()[1:].strip('"')
            p.expect(","); p.expect("label"); y = p.next()[1:].strip('"')
            I.a = (c,); I.extra = (x, y)
    elif op == "switch":
        t = p.type(); v = const_or_val(p, t); p.expect(","); p.expect("label"); d = p.next()[1:].strip('"')
        p.expect("["); cases = []
        while not p.accept("]"):
            t = p.type(); c = const_or_val(p, t); p.expect(","); p.expect("label"); cases.append((c[1], p.next()[1:].strip('"')))
        I.a = (v,); I.extra = (d, cases); I.ty = t
    elif op == "ret":
        t = p.type()
        I.ty = t; I.a = () if t.k == "void" else (const_or_val(p, t),)
    elif op == "unreachable":
        I.a = ()
    elif op == "phi":
        I.ty = p.type(); inc = []
        while True:
            p.expect("["); v = const_or_val(p, I.ty); p.expect(","); b = p.next()[1:].strip('"'); p.expect("]")
            inc.append((v, b))
            if not p.accept(","): break
        I.a = inc
    elif op == "select":
        t = p.type(); c = const_or_val(p, t); p.expect(","); I.ty = p.type(); a = const_or_val(p, I.ty)
        p.expect(","); t = p.type(); b = const_or_val(p, t)
        I.a = (c, a, b)
    elif op == "call":
        while p.peek() in ("fastcc", "ccc", "coldcc") or p.peek() in ATTRS:
            if p.peek() in ATTRS: skip_attrs(p)
            else: p.next()
        I.ty = p.type()
        if p.peek() == "(":
            d = 0
            while True:
                y = p.next()
                if y == "(": d += 1
                elif y == ")":
                    d -= 1
                    if d == 0: break
        callee = const_or_val(p, PTR)
        p.expect("("); args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                skip_attrs(p)
                if t.k == "metadata":
                    d = 0
                    while p.peek() not in (",", ")") or d:
                        y = p.next()
                        if y == "(": d += 1
                        elif y == ")": d -= 1
                    args.append((t, ("md",)))
                else:
                    args.append((t, const_or_val(p, t)))
                if p.accept(")"): break
                p.expect(",")
        I.a = args; I.extra = callee
    elif op in ("extractvalue", "insertvalue"):
        t = p.type(); v = const_or_val(p, t)
        I.ty = t; I.a = (v,); rest = []
        if op == "insertvalue":
            p.expect(","); t2 = p.type(); v2 = const_or_val(p, t2); I.a = (v, v2)
        while p.accept(","):
            rest.append(int(p.next()))
        I.extra = rest
    else:
        raise ParseError("instruction? " + line)
    return I

def parse(text, name):
    mod = Module(name)
    m = re.search(r'source_filename = "([^"]*)"', text)
    mod.source = m.group(1) if m else name
    lines = text.split("\n")
    # types first (two passes: bodies may be forward references)
    pend = []
    for ln in lines:
        if ln.startswith("%") and " = type " in ln:
            nm, body = ln.split(" = type ", 1)
            nm = nm[1:].strip('"')
            mod.types[nm] = Ty("opaque", name=nm)
            pend.append((nm, body))
    for nm, body in pend:
        if body.strip() == "opaque":
            continue
        t = P(tokenize(body), mod).type()
        o = mod.types[nm]
        o.k = t.k; o.els = t.els; o.n = t.n; o.el = t.el; o.packed = t.packed
    for ln in lines:
        m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", ln)
        if m:
            mod.dbg[int(m.group(1))] = int(m.group(2))
    i = 0; uid = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("@"):
            g = Global()
            nm, rest = ln.split(" = ", 1)
            g.name = nm[1:].strip('"'); g.module = mod
            words = rest
            g.internal = bool(re.match(r"(internal|private) ", words))
            g.external = "external" in words.split("global")[0].split("constant")[0]
            mm = re.search(r"\b(global|constant)\b", words)
            g.const = mm.group(1) == "constant"
            body = words[mm.end():]
            cut = re.search(r", (align \d+|section|comdat|!dbg).*$", body)
            if cut: body = body[:cut.start()]
            p = P(tokenize(body), mod)
            g.ty = p.type()
            g.init = const_or_val(p, g.ty) if p.peek() is not None else None
            mod.globals[g.name] = g
        elif ln.startswith("declare"):
            m = re.search(r"@([\w.$]+)\(", ln)
            if m: mod.decls.add(m.group(1))
        elif ln.startswith("define"):
            hdr = ln
            f = Func(); f.module = mod; f.info = None
            m = re.match(r"define\s+(.*?)@([\w.$]+|\"[^\"]+\")\((.*)\)\s*[^()]*\{\s*$", hdr)
            if not m: raise ParseError("define? " + hdr)
            pre, f.name, ps = m.group(1), m.group(2).strip('"'), m.group(3)
            f.internal = "internal" in pre
            pretoks = [t for t in pre.split() if t not in ("dso_local", "internal", "hidden", "private", "linkonce_odr", "weak")]
            pp = P(tokenize(" ".join(pretoks)), mod); skip_attrs(pp); f.ret = pp.type()
            p = P(tokenize(ps), mod); f.params = []; f.vararg = False
            k = 0
            while p.peek() is not None:
                if p.accept("..."):
                    f.vararg = True; continue
                t = p.type(); skip_attrs(p)
                nm = p.next()[1:].strip('"'); f.params.append((t, nm))
                p.accept(",")
            f.blocks = {}; f.order = []
            # the entry block's implicit name is the next unnamed number
            nums = [int(n) for _, n in f.params if n.isdigit()]
            cur = Block(); cur.name = str(max(nums) + 1 if nums else 0)
            cur.phis = []; cur.ins = []; cur.func = f
            f.blocks[cur.name] = cur; f.order.append(cur.name); f.entry = cur.name
            i += 1; first = True
            while lines[i] != "}":
                l = lines[i]
                m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', l)
                if m:
                    nm = m.group(1).strip('"')
                    if first and not cur.ins:
                        del f.blocks[cur.name]; f.order.pop(); f.entry = nm
                    cur = Block(); cur.name = nm; cur.phis = []; cur.ins = []; cur.func = f
                    f.blocks[nm] = cur; f.order.append(nm)
                elif l.strip() and not l.strip().startswith(";") and not l.strip().startswith("#dbg"):
                    s = l.strip()
                    if s.startswith("switch"):
                        while "]" not in s:
                            i += 1; s += " " + lines[i].strip()
                    if "@llvm.dbg." not in s:
                        I = parse_ins(s, mod, f, uid); uid += 1
                        (cur.phis if I.op == "phi" else cur.ins).append(I)
                first = False
                i += 1
            for b in f.blocks.values():
                b.preds = []
            for b in f.blocks.values():
                T = b.ins[-1]
                if T.op == "br": b.succs = list(dict.fromkeys(T.extra))
                elif T.op == "switch": b.succs = list(dict.fromkeys([T.extra[0]] + [c[1] for c in T.extra[1]]))
                else: b.succs = []
                for s in b.succs:
                    f.blocks[s].preds.append(b.name)
            mod.funcs[f.name] = f
        i += 1
    return mod

# ---------------------------------------------------------------- layout
def size_align(t):
    if t._sz is not None:
        return t._sz, t._al
    if t.k == "int":
        s = (t.w + 7) // 8
        a = 1
        while a < s: a *= 2
        s = a; a = min(a, 16)
    elif t.k == "ptr":
        s = a = 8
    elif t.k == "fp":
        s = a = t.w // 8
    elif t.k in ("arr", "vec"):
        es, ea = size_align(t.el); s = es * t.n; a = ea
    elif t.k == "struct":
        off = 0; a = 1
        for e in t.els:
            es, ea = size_align(e)
            if t.packed: ea = 1
            off = (off + ea - 1) // ea * ea + es
            a = max(a, ea)
        s = (off + a - 1) // a * a
    else:
        raise ParseError("size of %r" % t)
    t._sz, t._al = s, a
    return s, a

def field_off(t, idx):
    off = 0
    for i, e in enumerate(t.els):
        es, ea = size_align(e)
        if t.packed: ea = 1
        off = (off + ea - 1) // ea * ea
        if i == idx:
            return off
        off += es
    raise ParseError("field")

# ---------------------------------------------------------------- CFG order and liveness
class FInfo:
    pass

def analyse(f):
    if f.info is not None:
        return f.info
    # dfs for back edges
    color = {}; back = set(); post = []
    stack = [(f.entry, iter(f.blocks[f.entry].succs))]; color[f.entry] = 1
    while stack:
        n, it = stack[-1]
        adv = False
        for s in it:
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1; stack.append((s, iter(f.blocks[s].succs))); adv = True; break
            elif c == 1:
                back.add((n, s))
        if not adv:
            color[n] = 2; post.append(n); stack.pop()
    reach = set(post)
    loops = {}
    for (u, h) in back:
        body = loops.setdefault(h, {h})
        st = [u]
        while st:
            x = st.pop()
            if x in body: continue
            body.add(x)
            for q in f.blocks[x].preds:
                if q in reach: st.append(q)
    rpo = {b: i for i, b in enumerate(reversed(post))}
    # hierarchical order: loop blocks contiguous
    hdrs = sorted(loops, key=lambda h: rpo[h])
    def order(blocks, headers_in, top):
        # blocks: set; emit in topological order with inner loops collapsed
        inner = [h for h in headers_in if h in blocks and h != top]
        outer = []
        for h in inner:
            if not any(h != g and h in loops[g] for g in inner):
                outer.append(h)
        rep = {}
        for h in outer:
            for b in loops[h]:
                if b in blocks: rep[b] = h
        # collapsed graph toposort
        nodes = []
        seen = set()
        for b in sorted(blocks, key=lambda x: rpo[x]):
            r = rep.get(b, b)
            if r not in seen:
                seen.add(r); nodes.append(r)
        succ = {n: set() for n in nodes}; indeg = {n: 0 for n in nodes}
        for b in blocks:
            for s in f.blocks[b].succs:
                if s not in blocks or s == top: continue
                a, c = rep.get(b, b), rep.get(s, s)
                if a != c and c not in succ[a]:
                    succ[a].add(c); indeg[c] += 1
        out = []; avail = [n for n in nodes if indeg[n] == 0]
        while avail:
            avail.sort(key=lambda x: rpo[x])
            n = avail.pop(0)
            if n in outer and n != top:
                out += order({b for b in loops[n] if b in blocks}, headers_in, n)
            else:
                out.append(n)
            for c in succ[n]:
                indeg[c] -= 1
                if indeg[c] == 0: avail.append(c)
        if len(out) != len(blocks):
            raise ParseError("irreducible control flow in %s" % f.name)
        return out
    lst = order(set(reach), hdrs, None)
    info = FInfo()
    info.pos = {b: i for i, b in enumerate(lst)}
    info.headers = set(hdrs); info.backedge = back; info.loopblocks = loops
    info.loop_of = {}
    for h in sorted(hdrs, key=lambda h: -len(loops[h])):
        for b in loops[h]:
            info.loop_of[b] = h      # innermost (smallest last)
    # liveness
    use = {}; deff = {}; phiuse = {}
    for b in f.blocks.values():
        u = set(); d = set()
        for I in b.phis:
            d.add(I.res)
            for v, pb in I.a:
                if v[0] == "v": phiuse.setdefault((pb, b.name), set()).add(v[1])
        for I in b.ins:
            for v in operands(I):
                if v not in d: u.add(v)
            if I.res: d.add(I.res)
        use[b.name] = u; deff[b.name] = d
    live = {b: set() for b in f.blocks}
    changed = True
    while changed:
        changed = False
        for b in reversed(lst):
            out = set()
            for s in f.blocks[b].succs:
                out |= live[s] | phiuse.get((b, s), set())
            n = use[b] | (out - deff[b])
            if n != live[b]:
                live[b] = n; changed = True
    # live-in excludes phis of the block; on entry env keeps live-in plus phi results
    info.livein = {}
    for b in f.blocks.values():
        # variables needed at the start of the block, after phis: uses in block + live out (not defined here)
        out = set()
        for s in b.succs:
            out |= live[s] | phiuse.get((b.name, s), set())
        defs_noncphi = set(I.res for I in b.ins if I.res)
        u = set(use[b.name])
        need = (u | (out - defs_noncphi))
        for I in b.phis:
            need.add(I.res) if I.res in need or True else None
        info.livein[b.name] = frozenset(need)
    f.info = info
    return info

def operands(I):
    def walk(o):
        if o[0] == "v": yield o[1]
    if I.op == "call":
        for t, o in I.a: yield from walk(o)
        yield from walk(I.extra)
    elif I.op == "getelementptr":
        for t, o in I.a: yield from walk(o)
    elif I.op == "phi":
        return
    else:
        for o in I.a: yield from walk(o)
