"""Path enumeration over Go functions (syntax tree from go/parser) with linear facts about lengths, the content of
byte buffers as terms, and a record of every call that leaves the analysed code."""
import json, os, subprocess, tempfile, shutil
from .values import *
from .state import State

HERE = os.path.dirname(os.path.abspath(__file__))
MAXLEN = 1 << 47            # no Go slice is longer (address space)

class GoErr(Exception): pass
class Unmod(Exception): pass

def dump(files):
    """syntax trees of the files, by a small program built from sa/godump"""
    d = tempfile.mkdtemp(prefix="godump.")
    try:
        for f in ("main.go", "go.mod"): shutil.copy(os.path.join(HERE, "godump", f), d)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0", GOWORK="off")
        env.setdefault("HOME", d)
        if not os.access(env["HOME"], os.W_OK): env["HOME"] = d
        env["GOCACHE"] = os.path.join(d, "cache") if not os.path.isdir("/root/.cache/go-build") else "/root/.cache/go-build"
        for i in (0, 1):
            r = subprocess.run(["go", "build", "-o", "godump", "."], cwd=d, env=env, capture_output=True, text=True)
            if r.returncode == 0: break
            env["GOCACHE"] = os.path.join(d, "cache")
        if r.returncode: raise GoErr("cannot build the Go parser front end: " + r.stderr[:300])
        r = subprocess.run([os.path.join(d, "godump")] + list(files), capture_output=True, text=True)
        if r.returncode: raise GoErr("cannot parse: " + r.stderr[:300])
        return json.loads(r.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def lsym(s): return (0, {s: 1})
def fresh(name, lo=-(1 << 63), hi=(1 << 63) - 1, org=None): return Sym(name, lo, hi, org=org)
def INTV(l): return ("int", l)
def K(c): return ("int", lconst(c))
TRUE = ("bool", True); FALSE = ("bool", False); NIL = ("nil",)
INTS = {"int": (-(1 << 63), (1 << 63) - 1), "int64": (-(1 << 63), (1 << 63) - 1), "int32": (-(1 << 31), (1 << 31) - 1), "uint": (0, (1 << 64) - 1),
        "uint64": (0, (1 << 64) - 1), "uint32": (0, (1 << 32) - 1), "uint8": (0, 255), "byte": (0, 255), "uchar": (0, 255), "uintptr": (0, (1 << 64) - 1),
        "ulonglong": (0, (1 << 64) - 1), "size_t": (0, (1 << 64) - 1), "ulong": (0, (1 << 64) - 1), "longlong": (-(1 << 63), (1 << 63) - 1),
        "long": (-(1 << 63), (1 << 63) - 1), "short": (-(1 << 15), (1 << 15) - 1), "ushort": (0, 65535), "uint16": (0, 65535), "int16": (-(1 << 15), (1 << 15) - 1),
        "char": (-128, 127), "schar": (-128, 127), "uint8_t": (0, 255), "int8": (-128, 127), "rune": (-(1 << 31), (1 << 31) - 1)}
INTS_C = dict(INTS, int=(-(1 << 31), (1 << 31) - 1), uint=(0, (1 << 32) - 1))

class GSt:
    def __init__(self):
        self.n = State(); self.cells = {}; self.heap = {}; self.sc = [{}]; self.eqs = []; self.calls = []; self.flags = {}; self.defers = []
    def fork(self):
        s = GSt.__new__(GSt)
        s.n = self.n.fork(); s.cells = dict(self.cells); s.heap = dict(self.heap); s.sc = [dict(x) for x in self.sc]
        s.eqs = list(self.eqs); s.calls = list(self.calls); s.flags = dict(self.flags); s.defers = list(self.defers)
        return s
    def eq(self, a, b): return self.n.prove_eq(a, b)
    def ge(self, a): return self.n.prove(a)

class Ob:
    """size: linear; cont: content term; by: known byte values (index->int) or None; rest: value of the other bytes or None"""
    __slots__ = ("size", "cont", "by", "rest", "elem")
    def __init__(self, size, cont, by=None, rest=None, elem="byte"):
        self.size = size; self.cont = cont; self.by = by if by is not None else {}; self.rest = rest; self.elem = elem
    def copy(self, **k):
        o = Ob(self.size, self.cont, dict(self.by), self.rest, self.elem)
        for a, v in k.items(): setattr(o, a, v)
        return o

class Go:
    def __init__(self, files, report):
        self.files = files; self.rep = report     # report(kind, where, msg)
        self.funcs = {}; self.glob = {}; self.imports = set(); self.inits = []; self.methods = {}
        self.nid = 0; self.depth = 0; self.cur = "?"; self.ext = {}; self.seen = 0; self.types = {}; self.stmts = 0
        self.assigned = set()
        for f in files:
            for im in f.get("Imports", []): pass
            for d in f["Decls"]:
                if d["_"] == "GenDecl" and d["Tok"] == "import":
                    for s in d["Specs"]:
                        p = json.loads(s["Path"]["Value"]); nm = s.get("Name", {}).get("Name") or p.split("/")[-1]
                        self.imports.add(nm); self.ext["import:" + nm] = p
                elif d["_"] == "FuncDecl":
                    nm = d["Name"]["Name"]
                    if d.get("Recv", {}).get("List"):
                        t = d["Recv"]["List"][0]["Type"]
                        while t["_"] in ("StarExpr", "ParenExpr", "IndexExpr"): t = t["X"]
                        self.methods[(t.get("Name"), nm)] = d
                    elif nm == "init": self.inits.append(d)
                    else: self.funcs[nm] = d
                elif d["_"] == "GenDecl" and d["Tok"] in ("const", "var"):
                    last = None
                    for i, s in enumerate(d["Specs"]):
                        vals = s.get("Values") or []
                        if d["Tok"] == "const" and not vals: vals = last or []
                        else: last = vals
                        for j, nmn in enumerate(s["Names"]):
                            self.glob[nmn["Name"]] = (d["Tok"], s.get("Type"), vals[j] if j < len(vals) else None, i)
                elif d["_"] == "GenDecl" and d["Tok"] == "type":
                    for s in d["Specs"]: self.types[s["Name"]["Name"]] = s["Type"]
    # -------------------------------------------------------------- helpers
    def id(self):
        self.nid += 1; return self.nid
    def where(self, n): return "%s (line %s)" % (self.cur, n.get("line", "?") if isinstance(n, dict) else n)
    def alloc(self, st, size, cont, **k):
        i = self.id(); st.heap[i] = Ob(size, cont, **k); return i
    def cell(self, st, v):
        i = self.id(); st.cells[i] = v; return i
    def declare(self, st, name, v):
        if name == "_": return
        st.sc[-1][name] = self.cell(st, v)
    def look(self, st, name):
        for s in reversed(st.sc):
            if name in s: return s[name]
        return None
    def const(self, v):
        return v[1][0] if v[0] == "int" and not v[1][1] else None
    def newslice(self, st, ln, cont, **k):
        o = self.alloc(st, ln, cont, **k)
        return ("slice", o, lconst(0), ln, ln)
    def content(self, st, v):
        """(term, off, len) of a byte sequence value"""
        if v[0] == "slice":
            if v[1] is None: return (("empty",), lconst(0), lconst(0))
            return (st.heap[v[1]].cont, v[2], v[3])
        if v[0] == "arr": return (st.heap[v[1]].cont, lconst(0), st.heap[v[1]].size)
        if v[0] == "str": return v[1]
        if v[0] == "nil": return (("empty",), lconst(0), lconst(0))
        raise Unmod("content of %s" % (v[0],))
    def same(self, st, a, b):
        """both contents proved equal on this path"""
        if st.eq(a[2], lconst(0)) and st.eq(b[2], lconst(0)): return True
        if not st.eq(a[2], b[2]): return False
        if a[0] == b[0] and st.eq(a[1], b[1]): return True
        for x, y in st.eqs:
            for p, q in ((x, y), (y, x)):
                if p[0] == a[0] and q[0] == b[0] and st.eq(p[1], a[1]) and st.eq(q[1], b[1]) and st.eq(p[2], a[2]): return True
        return False
    def is_err(self, v): return v[0] == "err"
    # -------------------------------------------------------------- types
    def tname(self, t, pkgC=False):
        """('int',lo,hi) | ('slice',elem) | ('arr',lenexpr,elem) | ('ptr',t) | ('str',) | ('bool',) | ('err',) | ('other',text)"""
        k = t["_"]
        if k == "ParenExpr": return self.tname(t["X"])
        if k == "Ident":
            n = t["Name"]
            if n in INTS: return ("int",) + INTS[n]
            if n == "string": return ("str",)
            if n == "bool": return ("bool",)
            if n == "error": return ("err",)
            if n in self.types: return self.tname(self.types[n]) if self.types[n]["_"] in ("Ident", "ArrayType", "StarExpr", "SelectorExpr") else ("other", n)
            return ("other", n)
        if k == "SelectorExpr" and t["X"].get("Name") == "C":
            n = t["Sel"]["Name"]
            if n in INTS_C: return ("int",) + INTS_C[n]
            return ("other", "C." + n)
        if k == "SelectorExpr": return ("other", "%s.%s" % (t["X"].get("Name"), t["Sel"]["Name"]))
        if k == "ArrayType": return ("arr", t["Len"], t["Elt"]) if t.get("Len") else ("slice", t["Elt"])
        if k == "StarExpr": return ("ptr", t["X"])
        if k == "Ellipsis": return ("slice", t["Elt"])
        return ("other", k)
    def bytey(self, t):
        x = self.tname(t)
        return x[0] == "int" and x[2] - x[1] == 255
    def istype(self, n, st):
        k = n["_"]
        if k == "ParenExpr": return self.istype(n["X"], st)
        if k in ("ArrayType", "MapType", "ChanType", "FuncType", "InterfaceType", "StructType"): return True
        if k == "StarExpr": return self.istype(n["X"], st)
        if k == "Ident": return self.look(st, n["Name"]) is None and (n["Name"] in INTS or n["Name"] in ("string", "bool", "error") or n["Name"] in self.types) and n["Name"] not in self.funcs
        if k == "SelectorExpr" and n["X"].get("_") == "Ident" and self.look(st, n["X"]["Name"]) is None:
            p, s = n["X"]["Name"], n["Sel"]["Name"]
            return (p == "C" and s in INTS_C) or (p, s) in (("unsafe", "Pointer"), ("big", "Int"), ("sync", "Mutex"), ("sync", "RWMutex"), ("sync", "Once"), ("common", "Address"), ("abi", "Arguments"), ("abi", "Argument"), ("abi", "Type"), ("bytes", "Buffer"))
        return False
    def zero(self, st, t, n):
        x = self.tname(t)
        if x[0] == "int": return K(0)
        if x[0] == "bool": return FALSE
        if x[0] == "str": return ("str", (("lit", ""), lconst(0), lconst(0)))
        if x[0] in ("err", "ptr", "slice"): return ("slice", None, lconst(0), lconst(0), lconst(0)) if x[0] == "slice" else NIL
        if x[0] == "arr":
            l = self.cexpr(x[1], st)
            if l is None or not self.bytey(x[2]): return ("opq", ("arr", self.id()))
            return ("arr", self.alloc(st, lconst(l), ("zero", self.id()), rest=0))
        return ("opq", (x[1], self.id()))
    def cexpr(self, n, st):
        r = self.ex(n, st)
        if len(r) != 1: return None
        return self.const(r[0][1])
    # -------------------------------------------------------------- expressions
    def exs(self, ns, st):
        out = [(st, [])]
        for n in ns:
            nx = []
            for s, vs in out:
                for s2, v in self.ex(n, s): nx.append((s2, vs + [v]))
            out = nx
        return out
    def ex(self, n, st):
        self.seen += 1
        f = getattr(self, "x_" + n["_"], None)
        if f is None: raise Unmod("%s: expression %s not modelled" % (self.where(n), n["_"]))
        return f(n, st)
    def x_ParenExpr(self, n, st): return self.ex(n["X"], st)
    def x_BasicLit(self, n, st):
        k, v = n["Kind"], n["Value"]
        if k == "INT": return [(st, K(int(v.replace("_", ""), 0) if not (len(v) > 1 and v[0] == "0" and v[1].isdigit()) else int(v, 8)))]
        if k == "CHAR": return [(st, K(ord(v[1:-1]) if len(v) == 3 else 0))]
        if k == "STRING":
            try: s = json.loads(v) if v[0] == '"' else v[1:-1]
            except Exception: s = v
            return [(st, ("str", (("lit", s), lconst(0), lconst(len(s.encode("utf8", "replace"))))))]
        return [(st, ("opq", ("lit", v)))]
    def x_Ident(self, n, st):
        nm = n["Name"]
        c = self.look(st, nm)
        if c is not None: return [(st, st.cells[c])]
        if nm == "true": return [(st, TRUE)]
        if nm == "false": return [(st, FALSE)]
        if nm == "nil": return [(st, NIL)]
        if nm in self.glob:
            kind, t, v, i = self.glob[nm]
            key = ("glob", nm)
            if kind == "const":
                if v is None: return [(st, ("opq", key))]
                save = st.sc; s2 = st
                s2.sc = [{"iota": self.cell(st, K(i))}]
                try: r = self.ex(v, s2)
                finally: s2.sc = save
                if t is not None: r = [(s, self.convert(self.tname(t), x, s, n)) for s, x in r]
                return r
            if st.flags.get(key) is None:
                if v is not None and (v["_"] in ("CompositeLit", "BasicLit") or v["_"] == "CallExpr" and v["Fun"].get("Name") == "make") and nm not in self.written_globals():
                    save = st.sc; st.sc = [{}]
                    try: r = self.ex(v, st)
                    finally: st.sc = save
                    st.flags[key] = self.cell(st, r[0][1])
                else:
                    z = ("opq", key)
                    if v is None and t is not None and nm not in self.written_globals(): z = self.zero(st, t, n)
                    if t is not None and self.tname(t)[0] == "err":
                        # unknown error value
                        a = st.fork(); b = st
                        a.flags[key] = self.cell(a, NIL); b.flags[key] = self.cell(b, ("err", key))
                        return [(a, NIL), (b, ("err", key))]
                    st.flags[key] = self.cell(st, z)
            return [(st, st.cells[st.flags[key]])]
        if nm in self.funcs: return [(st, ("func", nm))]
        if nm in self.imports or nm == "C": return [(st, ("pkg", nm))]
        return [(st, ("builtin", nm))]
    def written_globals(self):
        if not hasattr(self, "_wg"):
            w = set()
            def walk(x):
                if isinstance(x, dict):
                    if x.get("_") == "AssignStmt" and x["Tok"] != ":=":
                        for l in x["Lhs"]:
                            while l["_"] in ("IndexExpr", "SelectorExpr", "ParenExpr", "StarExpr"): l = l["X"]
                            if l["_"] == "Ident": w.add(l["Name"])
                    if x.get("_") in ("UnaryExpr",) and x.get("Op") == "&":
                        l = x["X"]
                        while l["_"] in ("IndexExpr", "SelectorExpr", "ParenExpr"): l = l["X"]
                        if l["_"] == "Ident": w.add(l["Name"])
                    for v in x.values(): walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            for f in self.files: walk(f["Decls"])
            self._wg = w
        return self._wg
    def x_SelectorExpr(self, n, st):
        x = n["X"]
        if x["_"] == "Ident" and self.look(st, x["Name"]) is None and (x["Name"] == "C" or x["Name"] in self.imports):
            return [(st, ("ext", x["Name"], n["Sel"]["Name"]))]
        return [(s, ("sel", v, n["Sel"]["Name"], self.lockkey(x))) for s, v in self.ex(x, st)]
    def lockkey(self, x):
        if x["_"] == "Ident": return x["Name"]
        if x["_"] in ("SelectorExpr",): return self.lockkey(x["X"]) + "." + x["Sel"]["Name"]
        if x["_"] in ("ParenExpr", "StarExpr", "UnaryExpr"): return self.lockkey(x["X"])
        return "?"
    def x_FuncLit(self, n, st): return [(st, ("clo", n, [dict(s) for s in st.sc]))]
    def x_ArrayType(self, n, st): return [(st, ("type", n))]
    x_StructType = x_InterfaceType = x_MapType = x_FuncType = x_ArrayType
    def x_CompositeLit(self, n, st):
        t = n.get("Type")
        x = self.tname(t) if t is not None else ("other", "?")
        if x[0] in ("slice", "arr") and self.bytey(x[-1]):
            by = {}; i = 0
            for e in n.get("Elts", []):
                if e["_"] == "KeyValueExpr":
                    k = self.cexpr(e["Key"], st)
                    if k is None: raise Unmod(self.where(n) + ": composite literal key")
                    i = k; e = e["Value"]
                r = self.ex(e, st)
                if len(r) != 1: raise Unmod(self.where(n) + ": composite literal element")
                by[i] = self.const(r[0][1]); i += 1
            ln = max(by) + 1 if by else 0
            if x[0] == "arr" and x[1]["_"] != "Ellipsis": ln = self.cexpr(x[1], st)
            o = self.alloc(st, lconst(ln), ("bytes", self.id()), by=by, rest=0)
            return [(st, ("arr", o) if x[0] == "arr" else ("slice", o, lconst(0), lconst(ln), lconst(ln)))]
        vals = {}
        for s, vs in self.exs([e["Value"] if e["_"] == "KeyValueExpr" else e for e in n.get("Elts", []) if not (e["_"] == "CompositeLit" and "Type" not in e)], st): st = s
        if x[0] in ("slice", "arr") or x == ("other", "abi.Arguments"):
            els = []
            for e in n.get("Elts", []):
                if e["_"] == "CompositeLit": els.append(tuple(sorted((kv["Key"].get("Name", "?"), self.lockkey(kv["Value"]["Fun"]) if kv["Value"]["_"] == "CallExpr" else self.lockkey(kv["Value"])) for kv in e.get("Elts", []) if kv["_"] == "KeyValueExpr")))
                else: els.append("?")
            return [(st, ("opq", ("list", len(els), x[0], tuple(map(str, els)))))]
        return [(st, ("opq", ("lit", str(x[1] if len(x) > 1 else x), self.id())))]
    def x_IndexExpr(self, n, st):
        out = []
        for s, (b, i) in self.exs([n["X"], n["Index"]], st):
            if b[0] in ("func", "ext", "builtin"): out.append((s, b)); continue      # explicit type argument
            out.append((s, self.load(s, b, i, n)))
        return out
    def bound(self, s, b, i, n):
        """index obligation; returns (obj, absolute index)"""
        if b[0] == "nil": b = ("slice", None, lconst(0), lconst(0), lconst(0))
        if b[0] == "aptr": b = ("arr", b[1])
        if b[0] == "arr": ln, off, o = s.heap[b[1]].size, lconst(0), b[1]
        elif b[0] == "slice": ln, off, o = b[3], b[2], b[1]
        elif b[0] == "str": ln, off, o = b[1][2], b[1][1], None
        else: return None, None
        if i[0] != "int": raise Unmod(self.where(n) + ": index is not a number")
        ok = s.ge(i[1]) and s.ge(ladd(ladd(ln, i[1], -1), lconst(-1)))
        self.rep("index", ok, self.where(n), "index %s may be outside a sequence of length %s (run-time panic)" % (lstr(i[1]), lstr(ln)))
        if not ok:
            s.n.add_fact(i[1])
            if not s.n.add_fact(ladd(ladd(ln, i[1], -1), lconst(-1))): raise Dead()
        return o, ladd(off, i[1])
    def load(self, s, b, i, n):
        if b[0] == "opq":
            return ("opq", ("idx", b[1], lkey(i[1]) if i[0] == "int" and i[1][1] else (i[1][0] if i[0] == "int" else "?")))
        o, p = self.bound(s, b, i, n)
        if b[0] == "str": return INTV(lsym(fresh("ch", 0, 255, ("byte", b[1][0], lkey(p)))))
        if o is None:
            if b[0] in ("slice", "nil"): raise Dead()
            raise Unmod(self.where(n) + ": index of " + b[0])
        ob = s.heap[o]
        if ob.elem != "byte":
            c = p[0] if not p[1] else lkey(p)
            return ("opq", ("idx", ob.cont, c))
        if not p[1]:
            v = ob.by.get(p[0], ob.rest)
            if v is not None: return K(v)
        return INTV(lsym(fresh("byte", 0, 255, ("byte", ob.cont, lkey(p), p))))
    def x_SliceExpr(self, n, st):
        parts = [n["X"]] + [n[k] for k in ("Low", "High", "Max") if n.get(k)]
        out = []
        for s, vs in self.exs(parts, st):
            b = vs[0]; rest = vs[1:]
            lo = rest.pop(0)[1] if n.get("Low") else lconst(0)
            if b[0] == "aptr": b = ("arr", b[1])
            if b[0] == "arr": o = b[1]; off = lconst(0); ln = cap = s.heap[o].size
            elif b[0] == "slice": _, o, off, ln, cap = b
            elif b[0] == "nil": o = None; off = ln = cap = lconst(0)
            elif b[0] == "str":
                hi = rest.pop(0)[1] if n.get("High") else b[1][2]
                self.slicecheck(s, lo, hi, b[1][2], n)
                out.append((s, ("str", (b[1][0], ladd(b[1][1], lo), ladd(hi, lo, -1))))); continue
            elif b[0] == "opq":
                l = fresh("len", 0, MAXLEN)
                out.append((s, self.newslice(s, lsym(l), ("opqs", b[1], self.id())))); continue
            else: raise Unmod(self.where(n) + ": slice of " + b[0])
            hi = rest.pop(0)[1] if n.get("High") else ln
            self.slicecheck(s, lo, hi, cap, n)
            if n.get("Max"):
                mx = rest.pop(0)[1]; self.slicecheck(s, hi, mx, cap, n); cap2 = ladd(mx, lo, -1)
            else: cap2 = ladd(cap, lo, -1)
            out.append((s, ("slice", o, ladd(off, lo), ladd(hi, lo, -1), cap2)))
        return out
    def slicecheck(self, s, lo, hi, cap, n):
        ok = s.ge(lo) and s.ge(ladd(hi, lo, -1)) and s.ge(ladd(cap, hi, -1))
        self.rep("slice", ok, self.where(n), "slice bounds [%s:%s] may exceed the capacity %s (run-time panic)" % (lstr(lo), lstr(hi), lstr(cap)))
        if not ok:
            for f in (lo, ladd(hi, lo, -1), ladd(cap, hi, -1)):
                if not s.n.add_fact(f): raise Dead()
    def x_StarExpr(self, n, st):
        out = []
        for s, v in self.ex(n["X"], st):
            if v[0] == "vptr": out.append((s, s.cells[v[1]]))
            elif v[0] == "aptr": out.append((s, ("arr", v[1])))
            elif v[0] == "ptr": out.append((s, self.load(s, ("slice", v[1], lconst(0), s.heap[v[1]].size, s.heap[v[1]].size), INTV(v[2]), n)))
            elif v[0] == "nil":
                self.rep("index", False, self.where(n), "nil pointer may be dereferenced")
            else: out.append((s, ("opq", ("deref", v[1] if len(v) > 1 else "?"))))
        return out
    def x_UnaryExpr(self, n, st):
        op, x = n["Op"], n["X"]
        if op == "&":
            while x["_"] == "ParenExpr": x = x["X"]
            if x["_"] == "Ident":
                c = self.look(st, x["Name"])
                if c is None:
                    self.ex(x, st)
                    c = st.flags.get(("glob", x["Name"]))
                    if c is None: return [(st, ("opq", ("addr", x["Name"])))]
                v = st.cells[c]
                if v[0] == "arr": return [(st, ("aptr", v[1]))]
                return [(st, ("vptr", c))]
            if x["_"] == "IndexExpr":
                out = []
                for s, (b, i) in self.exs([x["X"], x["Index"]], st):
                    o, p = self.bound(s, b, i, x)
                    if o is None: raise Unmod(self.where(n) + ": address of an element of " + b[0])
                    out.append((s, ("ptr", o, p)))
                return out
            if x["_"] == "CompositeLit":
                out = []
                for s, v in self.ex(x, st):
                    out.append((s, ("aptr", v[1]) if v[0] == "arr" else ("vptr", self.cell(s, v))))
                return out
            return [(s, ("opq", ("addr", self.id()))) for s, v in self.ex(x, st)]
        if op == "!": return [(s, FALSE if v else TRUE) for s, v in self.branch(x, st)]
        out = []
        for s, v in self.ex(x, st):
            if v[0] == "int" and op == "-": out.append((s, INTV(lscale(v[1], -1))))
            elif v[0] == "int" and op == "+": out.append((s, v))
            elif v[0] == "int": out.append((s, INTV(lsym(fresh("un")))))
            else: out.append((s, ("opq", ("un", op, self.id()))))
        return out
    def branch(self, n, st):
        out = []
        for s, v in self.ex(n, st):
            if v[0] == "bool": out.append((s, v[1]))
            elif v[0] == "opq":
                k = ("atom", v[1])
                if k in s.flags: out.append((s, s.flags[k]))
                else:
                    for b in (True, False):
                        t = s.fork(); t.flags[k] = b; out.append((t, b))
            else: raise Unmod("%s: condition of kind %s" % (self.where(n), v[0]))
        return out
    def assume(self, s, op, l):
        """l op 0; list of states"""
        r = []
        def one(fs):
            t = s.fork()
            if all(t.n.add_fact(f) for f in fs) and not any(t.n.prove(ladd(lscale(f, -1), lconst(-1))) for f in fs): r.append(t)
        neg = lscale(l, -1)
        if op == "==":
            one([l, neg])
        elif op == "!=":
            if not (s.n.prove(ladd(l, lconst(-1))) ): one([ladd(neg, lconst(-1))])
            one([ladd(l, lconst(-1))])
        elif op == "<": one([ladd(neg, lconst(-1))])
        elif op == "<=": one([neg])
        elif op == ">": one([ladd(l, lconst(-1))])
        elif op == ">=": one([l])
        return r
    NOT = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
    def x_BinaryExpr(self, n, st):
        op = n["Op"]
        if op in ("&&", "||"):
            out = []
            for s, a in self.branch(n["X"], st):
                if (op == "&&") != a: out.append((s, TRUE if a else FALSE))
                else: out += [(t, TRUE if b else FALSE) for t, b in self.branch(n["Y"], s)]
            return out
        out = []
        for s, (a, b) in self.exs([n["X"], n["Y"]], st):
            if op in self.NOT: out += self.compare(s, op, a, b, n)
            else: out.append((s, self.arith(s, op, a, b, n)))
        return out
    def compare(self, s, op, a, b, n):
        if a[0] == "int" and b[0] == "int":
            out = []
            l = ladd(a[1], b[1], -1)
            for o, v in ((op, TRUE), (self.NOT[op], FALSE)):
                for t in self.assume(s, o, l):
                    if o == "==": self.learn(t, a, b)
                    out.append((t, v))
            return out
        if op in ("==", "!="):
            neq = op == "!="
            if "nil" in (a[0], b[0]):
                x = b if a[0] == "nil" else a
                if x[0] == "nil": r = True
                elif x[0] in ("err", "ptr", "aptr", "vptr", "func", "clo"): r = False
                elif x[0] == "slice":
                    if x[1] is None: r = True
                    else:
                        # an unknown slice may be nil only when empty
                        if s.ge(ladd(x[3], lconst(-1))) or s.heap[x[1]].cont[0] not in ("in", "opqs", "dec"): r = False
                        else:
                            t = s.fork(); k = self.assume(t, "==", x[3])
                            return [(q, FALSE if neq else TRUE) for q in k] + [(s, TRUE if neq else FALSE)]
                elif x[0] == "opq":
                    k = ("isnil", x[1])
                    if k in s.flags: r = s.flags[k]
                    else:
                        out = []
                        for v in (True, False):
                            t = s.fork(); t.flags[k] = v; out.append((t, ("bool", v != neq)))
                        return out
                else: raise Unmod(self.where(n) + ": comparison with nil of " + x[0])
                return [(s, ("bool", r != neq))]
            if a[0] == "bool" and b[0] == "bool": return [(s, ("bool", (a[1] == b[1]) != neq))]
            if a[0] in ("str", "arr") and b[0] in ("str", "arr"):
                return [(t, ("bool", v != neq)) for t, v in self.eqcontent(s, self.content(s, a), self.content(s, b))]
        k = ("atom", ("cmp", op, str(a)[:80], str(b)[:80], self.id()))
        return [(s.fork(), TRUE), (s, FALSE)]
    def eqcontent(self, s, a, b):
        if self.same(s, a, b): return [(s, True)]
        if a[0][0] == "lit" and b[0][0] == "lit" and not a[1][1] and not b[1][1]: return [(s, a[0] == b[0])]
        out = []
        for t in self.assume(s, "==", ladd(a[2], b[2], -1)):
            t.eqs.append((a, b)); out.append((t, True))
        f = s.fork(); out.append((f, False))
        return out
    def learn(self, t, a, b):
        """equality of two byte values / an accumulated difference being zero"""
        def org(v):
            if v[0] == "int" and len(v[1][1]) == 1 and v[1][0] == 0:
                (s, c), = v[1][1].items()
                if c == 1: return s.org
            return None
        x, y = org(a), org(b)
        if x and y and x[0] == "byte" and y[0] == "byte": t.flags.setdefault("byteeq", ()); t.flags["byteeq"] += ((x, y),)
        for o, z in ((x, b), (y, a)):
            if o and o[0] == "zeroif" and z[0] == "int" and self.const(z) == 0:
                for q in o[1]: self.learnz(t, q)
            if o and o[0] == "oneif" and z[0] == "int" and self.const(z) == 1:
                for q in o[1]: self.learnz(t, q)
    def learnz(self, t, q):
        if q[0] == "eqs": t.eqs.append((q[1], q[2])); t.n.add_fact(ladd(q[1][2], q[2][2], -1)); t.n.add_fact(ladd(q[2][2], q[1][2], -1))
        elif q[0] == "byteeq": t.flags.setdefault("byteeq", ()); t.flags["byteeq"] += ((q[1], q[2]),)
        elif q[0] == "lin":
            t.n.add_fact(q[1]); t.n.add_fact(lscale(q[1], -1))
    def zorg(self, v):
        """what v == 0 means (list) or None"""
        c = self.const(v) if v[0] == "int" else None
        if c == 0: return ()
        if v[0] == "int" and len(v[1][1]) == 1 and v[1][0] == 0:
            (s, k), = v[1][1].items()
            if k == 1 and s.org and s.org[0] == "zeroif": return s.org[1]
        if v[0] == "int": return (("lin", v[1]),)
        return None
    def arith(self, s, op, a, b, n):
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            cx, cy = self.const(a), self.const(b)
            if op == "+": return INTV(ladd(x, y))
            if op == "-": return INTV(ladd(x, y, -1))
            if cx is not None and cy is not None:
                try:
                    return K({"*": lambda: cx * cy, "/": lambda: int(cx / cy) if abs(cx) < 1 << 50 else cx // cy, "%": lambda: cx - cy * int(cx / cy), "<<": lambda: cx << cy, ">>": lambda: cx >> cy,
                              "|": lambda: cx | cy, "&": lambda: cx & cy, "^": lambda: cx ^ cy, "&^": lambda: cx & ~cy}[op]())
                except (KeyError, ZeroDivisionError, ValueError): pass
            if op == "*" and cy is not None: return INTV(lscale(x, cy))
            if op == "*" and cx is not None: return INTV(lscale(y, cx))
            if op == "<<" and cy is not None and 0 <= cy < 62: return INTV(lscale(x, 1 << cy))
            if op in ("/", "%", ">>") and cy is not None and cy > 0:
                d = cy if op != ">>" else 1 << cy
                if s.ge(x):
                    q = fresh("q", 0); r = fresh("r", 0, d - 1)
                    e = ladd(ladd(x, lsym(q), -d), lsym(r), -1); s.n.add_fact(e); s.n.add_fact(lscale(e, -1))
                    return INTV(lsym(r if op == "%" else q))
            org = None
            if op == "^":
                def o1(v):
                    if len(v[1]) == 1 and v[0] == 0:
                        (q, c), = v[1].items()
                        return q.org if c == 1 and q.org and q.org[0] == "byte" else None
                p, q = o1(x), o1(y)
                if p and q: org = ("zeroif", (("byteeq", p, q),))
                else: org = ("zeroif", (("lin", ladd(x, y, -1)),))
                return INTV(lsym(fresh("xor", 0 if s.ge(x) and s.ge(y) else -(1 << 63), org=org)))
            if op == "|":
                p, q = self.zorg(a), self.zorg(b)
                return INTV(lsym(fresh("or", 0 if s.ge(x) and s.ge(y) else -(1 << 63), org=("zeroif", tuple(p or ()) + tuple(q or ())))))
            if op == "&" and cy is not None and cy >= 0: return INTV(lsym(fresh("and", 0, cy)))
            return INTV(lsym(fresh("ar")))
        if op == "+" and a[0] == "str" and b[0] == "str":
            return ("str", (("cat", self.id()), lconst(0), ladd(a[1][2], b[1][2])))
        return ("opq", ("bin", op, self.id()))
    def x_TypeAssertExpr(self, n, st): return [(s, v[1][0]) for s, v in self.assertion(n, st, False)]
    def assertion(self, n, st, two):
        out = []
        t = self.tname(n["Type"]) if n.get("Type") else ("other", "type")
        for s, v in self.ex(n["X"], st):
            key = v[1] if len(v) > 1 else "?"
            ln = fresh("len", 0, MAXLEN)
            good = s.fork()
            if t[0] == "slice" and self.bytey(t[1]): gv = self.newslice(good, lsym(ln), ("dec", key)); bad = ("slice", None, lconst(0), lconst(0), lconst(0))
            elif t[0] == "str": gv = ("str", (("dec", key), lconst(0), lsym(ln))); bad = ("str", (("lit", ""), lconst(0), lconst(0)))
            else: gv = ("opq", ("as", key)); bad = ("opq", ("zero", key))
            k = ("isa", key, str(t[:1]))
            kn = s.flags.get(k)
            if kn is not False:
                good.flags[k] = True; out.append((good, ("tuple", [gv, TRUE])))
            if kn is not True and two:
                b = s.fork(); b.flags[k] = False
                out.append((b, ("tuple", [bad, FALSE])))
        return out
    # -------------------------------------------------------------- calls
    def convert(self, t, v, s, n):
        if t[0] == "int" and v[0] == "int":
            l = v[1]
            if s.ge(ladd(l, lconst(-t[1]))) and s.ge(ladd(lscale(l, -1), lconst(t[2]))): return v
            return INTV(lsym(fresh("trunc", t[1], t[2])))
        if t[0] == "int": return INTV(lsym(fresh("conv", t[1], t[2])))
        if t[0] == "str" and v[0] in ("slice", "arr", "nil", "str"): return ("str", self.content(s, v))
        if t[0] == "slice" and v[0] == "str": return self.newslice(s, v[1][2], v[1][0]) if not v[1][1][1] and v[1][1][0] == 0 else self.newslice(s, v[1][2], ("conv", self.id()))
        if t[0] == "arr" and v[0] == "slice" and v[1] is not None:
            l = self.cexpr(t[1], s)
            self.slicecheck(s, lconst(0), lconst(l), v[3], n)
            c = s.heap[v[1]].cont if not v[2][1] and v[2][0] == 0 else ("conv", self.id())
            return ("arr", self.alloc(s, lconst(l), c))
        return v
    def x_CallExpr(self, n, st):
        fn = n["Fun"]
        while fn["_"] == "ParenExpr": fn = fn["X"]
        args = n.get("Args", [])
        if self.istype(fn, st):
            if len(args) != 1: raise Unmod(self.where(n) + ": conversion")
            t = self.tname(fn)
            return [(s, self.convert(t, v, s, n)) for s, v in self.ex(args[0], st)]
        if fn["_"] == "Ident" and self.look(st, fn["Name"]) is None and fn["Name"] not in self.funcs:
            b = getattr(self, "b_" + fn["Name"], None)
            if b: return b(n, args, st)
        out = []
        for s, f in self.ex(fn, st):
            for s2, vs in self.exs(args, s):
                if len(vs) == 1 and vs[0][0] == "tuple": vs = vs[0][1]
                out += self.call(f, vs, s2, n)
        return out
    def call(self, f, vs, s, n):
        if f[0] == "func": return self.invoke(self.funcs[f[1]], f[1], vs, s, n)
        if f[0] == "clo": return self.invoke(f[1], "func literal", vs, s, n, f[2])
        if f[0] == "ext":
            r = self.external(f[1], f[2], vs, s, n)
            if r is not None: return r
            return self.unknown("%s.%s" % (f[1], f[2]), vs, s, n)
        if f[0] == "sel":
            r = self.method(f[1], f[2], f[3], vs, s, n)
            if r is not None: return r
            return self.unknown("." + f[2], vs, s, n)
        if f[0] == "builtin":
            raise Unmod("%s: call of %s not modelled" % (self.where(n), f[1]))
        return self.unknown(str(f[0]), vs, s, n)
    def unknown(self, name, vs, s, n):
        """a call out of the analysed code: buffers passed lose their content, the result is unknown"""
        for v in vs:
            if v[0] == "slice" and v[1] is not None: s.heap[v[1]] = s.heap[v[1]].copy(cont=("unk", self.id()), by={}, rest=None)
            if v[0] in ("ptr", "aptr"): s.heap[v[1]] = s.heap[v[1]].copy(cont=("unk", self.id()), by={}, rest=None)
            if v[0] == "vptr": s.cells[v[1]] = ("opq", ("unk", self.id()))
        s.calls.append(("unknown", name))
        return [(s, ("opq", (name, self.id())))]
    def invoke(self, d, name, vs, s, n, scopes=None):
        if self.depth > 12: raise Unmod(self.where(n) + ": recursion")
        if not d.get("Body"): return self.unknown(name, vs, s, n)
        save = s.sc; cur = self.cur; svd = s.defers; skip_eq = None
        out = []
        self.depth += 1
        try:
            st = s.fork(); st.sc = ([dict(x) for x in scopes] if scopes is not None else []) + [{}]; st.defers = []
            if scopes is None: self.cur = self.name(name)
            i = 0
            for p in d["Type"]["Params"].get("List", []):
                var = p["Type"]["_"] == "Ellipsis"
                for nm in (p.get("Names") or [{"Name": "_"}]):
                    if var:
                        v = ("opq", ("varargs", self.id())); i = len(vs)
                    else:
                        if i >= len(vs): raise Unmod(self.where(n) + ": argument count")
                        v = vs[i]; i += 1
                        if v[0] == "nil" and self.tname(p["Type"])[0] == "slice": v = ("slice", None, lconst(0), lconst(0), lconst(0))
                        if v[0] == "arr": v = ("arr", self.clone(st, v[1]))
                    self.declare(st, nm["Name"], v)
            res = d["Type"].get("Results", {}).get("List", []) if d["Type"].get("Results") else []
            rn = []
            for p in res:
                for nm in (p.get("Names") or []):
                    self.declare(st, nm["Name"] if nm["Name"] != "_" else "_r%d" % len(rn), self.zero(st, p["Type"], n)); rn.append(nm["Name"] if nm["Name"] != "_" else "_r%d" % len(rn))
            for t, c in self.block(d["Body"]["List"], st, scope=False):
                if c is not None and c[0] == "panic": continue
                if c is not None and c[0] != "ret": raise Unmod(self.where(n) + ": control flow")
                vals = c[1] if c else []
                if rn:
                    if c and c[1]:
                        for k, v in zip(rn, vals): t.cells[self.look(t, k)] = v
                for u in self.rundefers(t):
                    v2 = [u.cells[self.look(u, k)] for k in rn] if rn else vals
                    u.sc = [dict(x) for x in save]; u.defers = list(svd)
                    out.append((u, ("tuple", v2) if len(v2) != 1 else v2[0]))
        finally:
            self.depth -= 1; self.cur = cur
        return out
    def name(self, n): return n
    def rundefers(self, t):
        sts = [t]
        for f, vs, n in reversed(t.defers):
            nx = []
            for u in sts:
                u.defers = []
                nx += [w for w, _ in self.call(f, vs, u, n)]
            sts = nx
        return sts
    def clone(self, st, o):
        i = self.id(); st.heap[i] = st.heap[o].copy(); return i
    # built-in functions
    def b_len(self, n, args, st):
        out = []
        for s, v in self.ex(args[0], st):
            if v[0] in ("arr", "aptr"): l = s.heap[v[1]].size
            elif v[0] == "slice": l = v[3]
            elif v[0] == "str": l = v[1][2]
            elif v[0] == "nil": l = lconst(0)
            elif v[0] == "opq":
                if v[1][0] == "list": l = lconst(v[1][1])
                else:
                    k = ("len", v[1])
                    if k not in s.flags: s.flags[k] = fresh("len", 0, MAXLEN)
                    l = lsym(s.flags[k])
            else: raise Unmod(self.where(n) + ": len of " + v[0])
            out.append((s, INTV(l)))
        return out
    def b_cap(self, n, args, st):
        return [(s, INTV(v[4] if v[0] == "slice" else s.heap[v[1]].size if v[0] in ("arr", "aptr") else lconst(0))) for s, v in self.ex(args[0], st)]
    def b_make(self, n, args, st):
        t = self.tname(args[0])
        if t[0] != "slice":
            return [(s, ("opq", ("make", self.id()))) for s, v in self.exs(args[1:], st)]
        out = []
        for s, vs in self.exs(args[1:], st):
            l = vs[0][1]; c = vs[1][1] if len(vs) > 1 else l
            ok = s.ge(l) and s.ge(ladd(c, l, -1))
            self.rep("slice", ok, self.where(n), "make with a length that may be negative or above the capacity")
            if not ok:
                if not s.n.add_fact(l): continue
            if not self.bytey(t[1]):
                o = self.alloc(s, c, ("new", self.id()), elem="any")
                out.append((s, ("slice", o, lconst(0), l, c))); continue
            o = self.alloc(s, c, ("zero", self.id()), rest=0)
            out.append((s, ("slice", o, lconst(0), l, c)))
        return out
    def b_new(self, n, args, st):
        z = self.zero(st, args[0], n)
        return [(st, ("aptr", z[1]) if z[0] == "arr" else ("vptr", self.cell(st, z)))]
    def b_append(self, n, args, st):
        out = []
        for s, vs in self.exs(args, st):
            a = vs[0]
            if a[0] == "nil": a = ("slice", None, lconst(0), lconst(0), lconst(0))
            if a[0] != "slice": out.append((s, ("opq", ("append", self.id())))); continue
            if n.get("Ellipsis") and len(vs) == 2:
                b = vs[1]
                if b[0] not in ("slice", "str", "nil"): out.append((s, ("opq", ("append", self.id())))); continue
                cb = self.content(s, b)
                ln = ladd(a[3], cb[2])
                if s.eq(a[3], lconst(0)) and s.eq(cb[1], lconst(0)): cont = cb[0]
                else: cont = ("cat", self.id())
                # the array of a may be reused: its tail is overwritten
                if a[1] is not None and not s.eq(a[4], a[3]): s.heap[a[1]] = s.heap[a[1]].copy(cont=("unk", self.id()), by={}, rest=None)
                by = {}
                out.append((s, self.newslice(s, ln, cont))); continue
            if a[1] is not None and s.heap[a[1]].elem != "byte": out.append((s, ("opq", ("append", self.id())))); continue
            l = self.const(INTV(a[3]))
            by = {}
            if l is not None:
                if a[1] is not None:
                    for i in range(l):
                        p = a[2][0] + i if not a[2][1] else None
                        by[i] = s.heap[a[1]].by.get(p, s.heap[a[1]].rest) if p is not None else None
                for i, v in enumerate(vs[1:]): by[l + i] = self.const(v) if v[0] == "int" else None
            out.append((s, self.newslice(s, ladd(a[3], lconst(len(vs) - 1)), ("cat", self.id()), by=by)))
        return out
    def b_copy(self, n, args, st):
        out = []
        for s, (a, b) in self.exs(args, st):
            if a[0] != "slice" or b[0] not in ("slice", "str", "nil"): raise Unmod(self.where(n) + ": copy")
            cb = self.content(s, b)
            if s.ge(ladd(a[3], cb[2], -1)): m = cb[2]
            elif s.ge(ladd(cb[2], a[3], -1)): m = a[3]
            else:
                m = lsym(fresh("copied", 0, MAXLEN)); s.n.add_fact(ladd(a[3], m, -1)); s.n.add_fact(ladd(cb[2], m, -1))
            if a[1] is not None:
                ob = s.heap[a[1]]
                k = self.const(INTV(m)); off = self.const(INTV(a[2]))
                if s.eq(m, lconst(0)): pass
                elif s.eq(a[2], lconst(0)) and s.eq(m, ob.size) and s.eq(cb[1], lconst(0)): s.heap[a[1]] = ob.copy(cont=cb[0], by={}, rest=None)
                elif b[0] == "slice" and b[1] is not None and k is not None and off is not None and k <= 64 and self.const(INTV(b[2])) is not None:
                    sb = s.heap[b[1]]; o = ob.copy(cont=("unk", self.id())); o2 = b[2][0]
                    for i in range(k): o.by[off + i] = sb.by.get(o2 + i, sb.rest)
                    s.heap[a[1]] = o
                else: s.heap[a[1]] = ob.copy(cont=("part", self.id()), by={}, rest=None)
            out.append((s, INTV(m)))
        return out
    def b_panic(self, n, args, st):
        out = []
        for s, v in self.exs(args, st):
            self.rep("panic", False, self.where(n), "explicit panic on a path the caller can reach")
        return out
    def b_min(self, n, args, st, mx=False):
        out = []
        for s, vs in self.exs(args, st):
            acc = [(s, vs[0])]
            for v in vs[1:]:
                nx = []
                for t, a in acc:
                    for o in ("<=", ">"):
                        for u in self.assume(t, o, ladd(a[1], v[1], -1)):
                            nx.append((u, (a if o == "<=" else v) if not mx else (v if o == "<=" else a)))
                acc = nx
            out += acc
        return out
    def b_max(self, n, args, st): return self.b_min(n, args, st, True)
    def b_recover(self, n, args, st): return [(st, NIL)]
    def b_print(self, n, args, st): return [(s, ("tuple", [])) for s, v in self.exs(args, st)]
    b_println = b_print
    def b_clear(self, n, args, st):
        out = []
        for s, (v,) in self.exs(args, st):
            if v[0] == "slice" and v[1] is not None: s.heap[v[1]] = s.heap[v[1]].copy(cont=("zero", self.id()), by={}, rest=None)
            out.append((s, ("tuple", [])))
        return out
    # packages
    def external(self, pkg, fn, vs, s, n):
        h = getattr(self, "e_%s_%s" % (pkg, fn), None)
        if h: return h(vs, s, n)
        path = self.ext.get("import:" + pkg, "")
        if pkg in ("fmt", "log") and fn in ("Printf", "Println", "Print", "Fprintf", "Fprintln", "Info", "Debug", "Warn", "Error"): return [(s, ("tuple", []))]
        if (pkg, fn) in (("fmt", "Errorf"), ("errors", "New"), ("errors", "Join"), ("errors", "Wrap")): return [(s, ("err", self.id()))]
        if pkg == "fmt": return [(s, ("str", (("fmt", self.id()), lconst(0), lsym(fresh("len", 0, MAXLEN)))))]
        if path == "crypto/rand" and fn == "Read": return self.rand(vs[0], s, n)
        if path == "io" and fn == "ReadFull": return self.rand(vs[1], s, n, src=vs[0])
        if path == "bytes" and fn == "Equal": return [(t, TRUE if v else FALSE) for t, v in self.eqcontent(s, self.content(s, vs[0]), self.content(s, vs[1]))]
        if path == "bytes" and fn == "Compare":
            o = fresh("cmp", -1, 1, ("zeroif", (("eqs", self.content(s, vs[0]), self.content(s, vs[1])),))); return [(s, INTV(lsym(o)))]
        if path == "bytes" and fn == "Clone":
            c = self.content(s, vs[0]); return [(s, self.newslice(s, c[2], c[0] if s.eq(c[1], lconst(0)) else ("cl", self.id())))]
        if path == "slices" and fn == "Equal": return [(t, TRUE if v else FALSE) for t, v in self.eqcontent(s, self.content(s, vs[0]), self.content(s, vs[1]))]
        if path == "crypto/subtle" and fn == "ConstantTimeCompare":
            return [(t, K(1) if v else K(0)) for t, v in self.eqcontent(s, self.content(s, vs[0]), self.content(s, vs[1]))]
        if path == "runtime" and fn in ("KeepAlive", "GC", "LockOSThread", "UnlockOSThread"): return [(s, ("tuple", []))]
        if pkg == "unsafe" and fn in ("SliceData",):
            v = vs[0]
            return [(s, ("ptr", v[1], v[2]) if v[0] == "slice" and v[1] is not None else NIL)]
        if pkg == "unsafe" and fn == "StringData":
            o = self.alloc(s, vs[0][1][2], vs[0][1][0]); return [(s, ("ptr", o, vs[0][1][1]))]
        if pkg == "unsafe" and fn == "Slice":
            p, l = vs[0], vs[1][1]
            if p[0] == "ptr":
                ok = s.ge(l) and s.ge(ladd(ladd(s.heap[p[1]].size, p[2], -1), l, -1))
                self.rep("buffer", ok, self.where(n), "unsafe.Slice of %s bytes may be longer than the buffer (%s)" % (lstr(l), lstr(s.heap[p[1]].size)))
                return [(s, ("slice", p[1], p[2], l, l))]
            if p[0] == "nil": return [(s, ("slice", None, lconst(0), lconst(0), lconst(0)))]
        return None
    def rand(self, v, s, n, src=None):
        """crypto/rand: on success the slice holds operating system entropy"""
        if src is not None and not (src[0] == "ext" and self.ext.get("import:" + src[1]) == "crypto/rand" and src[2] == "Reader"): return None
        if v[0] != "slice": return None
        bad = s.fork(); e = self.id()
        bad.calls.append(("rand", "failed"))
        s.calls.append(("rand", "ok"))
        if v[1] is not None:
            ob = s.heap[v[1]]
            whole = s.eq(v[2], lconst(0)) and s.eq(v[3], ob.size)
            s.heap[v[1]] = ob.copy(cont=("os", e) if whole else ("part", e), by={}, rest=None)
            bad.heap[v[1]] = bad.heap[v[1]].copy(cont=("unk", e), by={}, rest=None)
        return [(s, ("tuple", [INTV(v[3]), NIL])), (bad, ("tuple", [INTV(lsym(fresh("n", 0, MAXLEN))), ("err", e)]))]
    def method(self, recv, name, key, vs, s, n):
        if name in ("Lock", "RLock", "Unlock", "RUnlock") and not vs:
            s.flags[("lock", key)] = name == "Lock"
            if name in ("Unlock", "RUnlock"): s.flags["unlocked"] = self.id()
            return [(s, ("tuple", []))]
        if name == "Do" and len(vs) == 1 and vs[0][0] in ("clo", "func"):
            k = ("once", key)
            if k in s.flags: return [(s, ("tuple", []))]
            s.flags[k] = True
            return [(t, ("tuple", [])) for t, _ in self.call(vs[0], [], s, n)]
        if name == "Error": return [(s, ("str", (("fmt", self.id()), lconst(0), lsym(fresh("len", 0, MAXLEN)))))]
        return None
    # -------------------------------------------------------------- statements
    def block(self, ns, st, scope=True):
        if scope: st.sc.append({})
        live = [(st, None)]; done = []
        for n in ns:
            nx = []
            for s, _ in live:
                try: rs = self.stmt(n, s)
                except Dead: rs = []
                for r in rs: (nx if r[1] is None else done).append(r)
            live = nx
            if not live: break
            if len(live) + len(done) > 3000: raise Unmod(self.where(n) + ": too many paths")
        out = live + done
        if scope:
            for s, c in out: s.sc.pop()
        return out
    def stmt(self, n, st):
        self.stmts += 1
        f = getattr(self, "s_" + n["_"], None)
        if f is None: raise Unmod("%s: statement %s not modelled" % (self.where(n), n["_"]))
        return f(n, st)
    def s_BlockStmt(self, n, st): return self.block(n.get("List", []), st)
    def s_EmptyStmt(self, n, st): return [(st, None)]
    def s_LabeledStmt(self, n, st): return self.stmt(n["Stmt"], st)
    def s_ExprStmt(self, n, st): return [(s, None) for s, v in self.ex(n["X"], st)]
    def s_DeclStmt(self, n, st):
        d = n["Decl"]
        if d["Tok"] == "type": return [(st, None)]
        sts = [st]
        for i, sp in enumerate(d["Specs"]):
            nx = []
            for s in sts:
                if not sp.get("Values"):
                    for nm in sp["Names"]: self.declare(s, nm["Name"], self.zero(s, sp["Type"], n) if sp.get("Type") else K(i))
                    nx.append(s); continue
                for t, vs in self.exs(sp["Values"], s):
                    if len(vs) == 1 and vs[0][0] == "tuple": vs = vs[0][1]
                    elif len(vs) == 1 and vs[0][0] == "opq" and len(sp["Names"]) > 1: vs = self.untuple(t, vs[0], len(sp["Names"]))
                    for nm, v in zip(sp["Names"], vs):
                        if sp.get("Type"): v = self.convert(self.tname(sp["Type"]), v, t, n) if v[0] != "nil" else self.zero(t, sp["Type"], n)
                        self.declare(t, nm["Name"], self.val(t, v))
                    nx.append(t)
            sts = nx
        return [(s, None) for s in sts]
    def val(self, s, v): return ("arr", self.clone(s, v[1])) if v[0] == "arr" else v
    def untuple(self, s, v, k): return [("opq", ("res", v[1], i)) for i in range(k)]
    def s_AssignStmt(self, n, st):
        L, R, tok = n["Lhs"], n["Rhs"], n["Tok"]
        if len(R) == 1 and len(L) == 2 and R[0]["_"] == "TypeAssertExpr": rs = [(s, v[1]) for s, v in self.assertion(R[0], st, True)]
        else:
            rs = []
            for s, vs in self.exs(R, st):
                if len(vs) == 1 and vs[0][0] == "tuple" and len(L) != 1: vs = vs[0][1]
                elif len(vs) == 1 and len(L) > 1: vs = self.untuple(s, vs[0], len(L))
                rs.append((s, vs))
        out = []
        for s, vs in rs:
            if tok not in (":=", "="):
                for t, old in self.ex(L[0], s):
                    self.store(t, L[0], self.arith(t, tok[:-1], old, vs[0], n), n); out.append((t, None))
                continue
            for l, v in zip(L, vs):
                v = self.val(s, v)
                if tok == ":=" and l["_"] == "Ident":
                    if l["Name"] in s.sc[-1]: s.cells[s.sc[-1][l["Name"]]] = v
                    else: self.declare(s, l["Name"], v)
                else: self.store(s, l, v, n)
            out.append((s, None))
        return out
    def s_IncDecStmt(self, n, st):
        out = []
        for s, v in self.ex(n["X"], st):
            self.store(s, n["X"], INTV(ladd(v[1], lconst(1 if n["Tok"] == "++" else -1))) if v[0] == "int" else ("opq", ("inc", self.id())), n); out.append((s, None))
        return out
    def store(self, s, l, v, n):
        while l["_"] == "ParenExpr": l = l["X"]
        if l["_"] == "Ident":
            if l["Name"] == "_": return
            c = self.look(s, l["Name"])
            if c is None:
                k = ("glob", l["Name"])
                if s.flags.get(k) is None: s.flags[k] = self.cell(s, v)
                c = s.flags[k]
            s.cells[c] = v; return
        if l["_"] == "IndexExpr":
            r = self.exs([l["X"], l["Index"]], s)
            if len(r) != 1 or r[0][0] is not s: raise Unmod(self.where(n) + ": store")
            b, i = r[0][1]
            if b[0] == "opq": return
            o, p = self.bound(s, b, i, l)
            if o is None: raise Dead() if b[0] in ("slice", "nil") else Unmod(self.where(n) + ": store to " + b[0])
            ob = s.heap[o].copy(cont=("bytes", self.id()))
            if not p[1]: ob.by[p[0]] = self.const(v) if v[0] == "int" else None
            else: ob.by = {}; ob.rest = None
            s.heap[o] = ob; return
        if l["_"] == "StarExpr":
            r = self.ex(l["X"], s)
            if len(r) == 1 and r[0][1][0] == "vptr": s.cells[r[0][1][1]] = v; return
            if len(r) == 1 and r[0][1][0] == "opq": return
            if len(r) == 1 and r[0][1][0] == "ptr":
                o = r[0][1][1]; s.heap[o] = s.heap[o].copy(cont=("bytes", self.id()), by={}, rest=None); return
            raise Unmod(self.where(n) + ": store through a pointer")
        if l["_"] == "SelectorExpr": return
        raise Unmod(self.where(n) + ": store to " + l["_"])
    def s_ReturnStmt(self, n, st):
        out = []
        for s, vs in self.exs(n.get("Results", []), st):
            if len(vs) == 1 and vs[0][0] == "tuple": vs = vs[0][1]
            out.append((s, ("ret", vs)))
        return out
    def s_DeferStmt(self, n, st):
        c = n["Call"]; out = []
        for s, f in self.ex(c["Fun"], st):
            for s2, vs in self.exs(c.get("Args", []), s):
                s2.defers = s2.defers + [(f, vs, c)]; out.append((s2, None))
        return out
    def s_GoStmt(self, n, st): raise Unmod(self.where(n) + ": goroutine")
    def s_BranchStmt(self, n, st): return [(st, (n["Tok"], n.get("Label", {}).get("Name") if n.get("Label") else None))]
    def s_IfStmt(self, n, st):
        st.sc.append({})
        out = []
        for s, _ in (self.stmt(n["Init"], st) if n.get("Init") else [(st, None)]):
            for t, b in self.branch(n["Cond"], s):
                try:
                    if b: out += self.block(n["Body"].get("List", []), t)
                    elif n.get("Else"): out += self.stmt(n["Else"], t)
                    else: out.append((t, None))
                except Dead: pass
        for s, c in out: s.sc.pop()
        return out
    def s_SwitchStmt(self, n, st):
        st.sc.append({}); out = []
        pre = self.stmt(n["Init"], st) if n.get("Init") else [(st, None)]
        for s, _ in pre:
            todo = [(s, None)]
            if n.get("Tag"): todo = [(t, v) for t, v in self.ex(n["Tag"], s)]
            default = None
            for cl in n["Body"]["List"]:
                if not cl.get("List"): default = cl
            for cl in n["Body"]["List"]:
                if not cl.get("List"): continue
                for e in cl["List"]:
                    nx = []
                    for t, v in todo:
                        if v is None: r = self.branch(e, t)
                        else: r = [(u, x[1]) for u2, y in self.ex(e, t) for u, x in self.compare(u2, "==", v, y, e)]
                        for u, b in r:
                            if b: out += self.block(cl.get("Body", []), u)
                            else: nx.append((u, v))
                    todo = nx
            for t, v in todo:
                out += self.block(default.get("Body", []), t) if default else [(t, None)]
        res = []
        for s, c in out:
            s.sc.pop()
            if c and c[0] == "fallthrough": raise Unmod(self.where(n) + ": fallthrough")
            res.append((s, None if c and c[0] == "break" and c[1] is None else c))
        return res
    # loops: the body is analysed once for an arbitrary iteration
    def assigned_in(self, n):
        names = set(); objs = []
        def walk(x):
            if isinstance(x, dict):
                if x.get("_") in ("AssignStmt",):
                    for l in x["Lhs"]:
                        if x["Tok"] == ":=" and l["_"] == "Ident": continue
                        while l["_"] in ("ParenExpr",): l = l["X"]
                        if l["_"] == "Ident": names.add(l["Name"])
                        else:
                            while l["_"] in ("IndexExpr", "SelectorExpr", "ParenExpr", "StarExpr"): l = l["X"]
                            if l["_"] == "Ident": objs.append(l["Name"])
                if x.get("_") == "IncDecStmt" and x["X"]["_"] == "Ident": names.add(x["X"]["Name"])
                if x.get("_") == "UnaryExpr" and x.get("Op") == "&":
                    l = x["X"]
                    while l["_"] in ("IndexExpr", "SelectorExpr", "ParenExpr", "StarExpr"): l = l["X"]
                    if l["_"] == "Ident": objs.append(l["Name"])
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(n); return names, objs
    def loop(self, n, st, ivar, idx, bound, body, extra=None):
        """idx: symbol of the iteration, 0 <= idx < bound; ivar: names to bind in the body"""
        names, objs = self.assigned_in(body)
        names -= set(k for k in ivar)
        head = st.fork()
        acc = {}
        for nm in names:
            c = self.look(head, nm)
            if c is None:
                if nm in self.glob: raise Unmod(self.where(n) + ": package variable assigned in a loop")
                continue
            v = head.cells[c]
            if v[0] == "int": acc[nm] = (c, v); head.cells[c] = INTV(lsym(fresh(nm, org=("acc", nm))))
            elif v[0] == "bool": acc[nm] = (c, v); head.cells[c] = ("opq", ("loopvar", nm, self.id()))
            else: head.cells[c] = ("opq", ("loopvar", nm, self.id()))
        for nm in objs:
            c = self.look(head, nm)
            if c is None: continue
            v = head.cells[c]
            if v[0] in ("slice", "arr") and v[1] is not None: head.heap[v[1]] = head.heap[v[1]].copy(cont=("loop", self.id()), by={}, rest=None)
        ncalls = len(head.calls)
        it = head.fork(); it.sc.append({})
        it.n.add_fact(lsym(idx))
        if bound is not None and not it.n.add_fact(ladd(ladd(bound, lsym(idx), -1), lconst(-1))): return [(st, None)]
        for nm, v in ivar.items(): self.declare(it, nm, v(it) if callable(v) else v)
        it.flags["byteeq"] = ()
        outs = self.block(body.get("List", []), it)
        res = []; cont = []; brk = []
        for s, c in outs:
            s.sc.pop()
            if c is None or c[0] == "continue": cont.append(s)
            elif c[0] == "break": brk.append(s)
            else: res.append((s, c))
        exits = []
        # after the last iteration
        fin = head.fork()
        common = None
        for s in cont:
            if len(s.calls) != ncalls: fin.calls.append(("unknown", "calls inside a loop")); fin.flags["loopcalls"] = True
            k = {(x[1], lkey(x[3]), y[1], lkey(y[3])): (x, y) for x, y in s.flags.get("byteeq", ()) if len(x) > 3 and len(y) > 3}
            common = k if common is None else {q: v for q, v in common.items() if q in k}
        extra_eq = []
        def both(x, y):
            # x=('byte',cont,key,pos)
            if len(x) < 4 or len(y) < 4: return None
            px, py = x[3], y[3]
            if px[1].get(idx) != 1 or py[1].get(idx) != 1: return None
            ox, oy = ladd(px, lsym(idx), -1), ladd(py, lsym(idx), -1)
            return ((x[1], ox, bound), (y[1], oy, bound))
        for x, y in (common or {}).values():
            if bound is None: break
            e = both(x, y)
            if e: fin.eqs.append(e)
        for nm, (c, v0) in acc.items():
            # accumulated difference: every iteration ors in a difference
            hv = head.cells[c]
            quals = None
            if v0[0] == "int" and bound is not None and cont:
                ok = True; parts = []
                for s in cont:
                    o = self.zorg(s.cells[c])
                    if not o: ok = False; break
                    keep = any(q[0] == "lin" and leq(q[1], hv[1]) for q in o)
                    if not keep: ok = False; break
                    parts.append([q for q in o if not (q[0] == "lin" and leq(q[1], hv[1]))])
                if ok and not brk:
                    al = list(self.zorg(v0) or ())
                    for q in parts[0]:
                        if all(q in p for p in parts) and q[0] == "byteeq":
                            e = both(q[1], q[2])
                            if e: al.append(("eqs", e[0], e[1]))
                    quals = tuple(al)
            lo = 0 if quals is not None else -(1 << 63)
            if v0[0] == "int": fin.cells[c] = INTV(lsym(fresh(nm, lo, org=("zeroif", quals) if quals is not None else None)))
        exits.append((fin, None))
        for s in brk: exits.append((s, None))
        return exits + res
    def anyloop(self, n, st):
        """a loop of any form: variables assigned in it are unknown, one arbitrary iteration is analysed"""
        cond, post = n.get("Cond"), n.get("Post")
        names, objs = self.assigned_in({"b": n["Body"], "p": post, "c": cond})
        head = st.fork()
        for nm in names:
            c = self.look(head, nm)
            if c is None:
                if nm in self.glob: raise Unmod(self.where(n) + ": package variable assigned in a loop")
                continue
            v = head.cells[c]
            up = post and post["_"] == "IncDecStmt" and post["Tok"] == "++" and post["X"].get("Name") == nm and nm not in self.assigned_in(n["Body"])[0]
            if v[0] == "int": head.cells[c] = INTV(lsym(fresh(nm, 0 if up and head.ge(v[1]) else -(1 << 63))))
            elif v[0] == "slice" and v[1] is not None and head.heap[v[1]].elem == "byte": head.cells[c] = self.newslice(head, lsym(fresh("len", 0, MAXLEN)), ("loop", self.id()))
            else: head.cells[c] = ("opq", ("loopvar", nm, self.id()))
        for nm in objs:
            c = self.look(head, nm)
            if c is None: continue
            v = head.cells[c]
            if v[0] in ("slice", "arr") and v[1] is not None: head.heap[v[1]] = head.heap[v[1]].copy(cont=("loop", self.id()), by={}, rest=None)
        n0 = len(head.calls); out = []; more = False
        for s, b in (self.branch(cond, head) if cond else [(head, True)]):
            if not b: out.append((s, None)); continue
            for t, c in self.block(n["Body"].get("List", []), s):
                if c is None or c[0] == "continue":
                    if len(t.calls) != n0: more = True
                    if post: self.stmt(post, t)
                elif c[0] == "break" and c[1] is None: out.append((t, None))
                else: out.append((t, c))
        if more:
            for s, c in out:
                if c is None: s.calls.append(("unknown", "calls inside a loop"))
        return out
    def s_RangeStmt(self, n, st):
        out = []
        for s, v in self.ex(n["X"], st):
            idx = fresh("i", 0, MAXLEN)
            if v[0] == "int": bound = v[1]
            elif v[0] == "slice": bound = v[3]
            elif v[0] in ("arr", "aptr"): bound = s.heap[v[1]].size
            elif v[0] == "str": bound = v[1][2]
            elif v[0] == "nil": out.append((s, None)); continue
            elif v[0] == "opq": bound = None
            else: raise Unmod(self.where(n) + ": range over " + v[0])
            iv = {}
            if n.get("Key") and n["Key"].get("Name") not in (None, "_"): iv[n["Key"]["Name"]] = INTV(lsym(idx)) if v[0] != "opq" else ("opq", ("key", self.id()))
            if n.get("Value") and n["Value"].get("Name") not in (None, "_"):
                iv[n["Value"]["Name"]] = (lambda t, v=v: self.load(t, v, INTV(lsym(idx)), n)) if v[0] != "opq" else ("opq", ("elem", v[1]))
            out += self.loop(n, s, iv, idx, bound, n["Body"])
        return out
    def s_ForStmt(self, n, st):
        st.sc.append({})
        pre = self.stmt(n["Init"], st) if n.get("Init") else [(st, None)]
        out = []
        for s, _ in pre:
            cond, post, init = n.get("Cond"), n.get("Post"), n.get("Init")
            if not (cond and post and cond["_"] == "BinaryExpr" and cond["Op"] in ("<", "!=") and cond["X"]["_"] == "Ident" and post["_"] == "IncDecStmt" and post["Tok"] == "++"
                    and post["X"].get("Name") == cond["X"]["Name"]):
                out += self.anyloop(n, s); continue
            nm = cond["X"]["Name"]
            r = self.ex(cond["Y"], s)
            if len(r) != 1 or r[0][1][0] != "int": raise Unmod(self.where(n) + ": loop bound")
            s, b = r[0]
            start = s.cells[self.look(s, nm)]
            if start[0] != "int": raise Unmod(self.where(n) + ": loop start")
            names, _ = self.assigned_in(n["Body"])
            if nm in names: raise Unmod(self.where(n) + ": loop counter assigned in the body")
            idx = fresh(nm, 0, MAXLEN)
            rel = ladd(lsym(idx), start[1])
            for t, c in self.loop(n, s, {nm: INTV(rel)}, idx, ladd(b[1], start[1], -1), n["Body"]):
                if c is None:
                    cc = self.look(t, nm)
                    if cc is not None: t.cells[cc] = INTV(lsym(fresh(nm)))
                out.append((t, c))
        for s, c in out: s.sc.pop()
        return out

class Dead(Exception): pass
