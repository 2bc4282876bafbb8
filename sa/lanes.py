"""Followers for code whose control flow does not depend on data and whose data are 64-bit lanes: C through the IR, Python through the
syntax tree.  Words are integers or algebraic normal forms (sa/anf.py)."""
import ast
from . import anf, llvmir

class Stuck(Exception): pass

# ------------------------------------------------------------------ C
class W:
    "a word that is not a constant"
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
def word(f, w):
    f = anf.cut()(f)
    if not f: return 0
    if len(f) == 1 and anf.ONE in f: return f[anf.ONE]
    return W(f)
def form(v):
    if isinstance(v, W): return v.f
    if isinstance(v, int): return anf.const(v)
    raise Stuck("a pointer used as a number")

class C:
    def __init__(self, m): self.m = m; self.mem = {}; self.n = 0; self.steps = 0; self.line = None; self.g = {}
    def obj(self, size): self.n += 1; self.mem[self.n] = ({}, size); return ("p", self.n, 0)
    def store(self, p, size, v):
        if not (isinstance(p, tuple) and p[0] == "p"): raise Stuck("store through %r" % (p,))
        cells, tot = self.mem[p[1]]; o = p[2]
        if o < 0 or o + size > tot: raise Stuck("store outside an object of %d bytes" % tot)
        if isinstance(cells, bytes): raise Stuck("store to a constant")
        if not (o in cells and cells[o][0] == size):
            for q in [q for q, (z, x) in cells.items() if q < o + size and o < q + z]:
                z, x = cells.pop(q)
                if isinstance(x, tuple): continue
                for b in range(z): cells[q + b] = (1, word(anf.and_(anf.shr(form(x), 8 * b), anf.const(255)), 8))
            for b in range(size): cells.pop(o + b, None)
        cells[o] = (size, v)
    def load(self, p, size):
        if not (isinstance(p, tuple) and p[0] == "p"): raise Stuck("load through %r" % (p,))
        cells, tot = self.mem[p[1]]; o = p[2]
        if o < 0 or o + size > tot: raise Stuck("load outside an object of %d bytes" % tot)
        if isinstance(cells, bytes): return int.from_bytes(cells[o:o + size], "little")
        if o in cells and cells[o][0] == size: return cells[o][1]
        f = {}
        for b in range(size):
            for q, (z, x) in cells.items():
                if q <= o + b < q + z:
                    f = anf.xor(f, anf.shl(anf.and_(anf.shr(form(x), 8 * (o + b - q)), anf.const(255)), 8 * b)); break
            else: raise Stuck("load of bytes never written")
        return word(f, 8 * size)
    def glob(self, n):
        if n in self.g: return self.g[n]
        x = self.m.globals.get(n)
        if x is None or x.init is None: raise Stuck("global %s" % n)
        sz = llvmir.size_align(x.ty)[0]; b = bytearray(sz)
        def put(t, v, o):
            z = llvmir.size_align(t)[0]
            if v[0] == "c": b[o:o + z] = (v[1] % (1 << 8 * z)).to_bytes(z, "little")
            elif v[0] == "bytes": b[o:o + len(v[1])] = v[1]
            elif v[0] == "agg":
                if t.k == "struct":
                    for i, (et, ev) in enumerate(v[1]): put(et, ev, o + llvmir.field_off(t, i))
                else:
                    for i, (et, ev) in enumerate(v[1]): put(et, ev, o + i * llvmir.size_align(et)[0])
            elif v[0] not in ("zero", "null", "undef"): raise Stuck("initialiser of %s" % n)
        put(x.ty, x.init, 0)
        p = self.obj(sz)
        if x.const: self.mem[p[1]] = (bytes(b), sz)
        else:
            for i, c in enumerate(b): self.mem[p[1]][0][i] = (1, c)
        self.g[n] = p; return p
    def val(self, o, env):
        k = o[0]
        if k == "c": return o[1]
        if k == "v": return env[o[1]]
        if k == "g": return self.glob(o[1]) if o[1] in self.m.globals else ("f", o[1])
        if k in ("null", "zero"): return 0
        if k == "undef": return 0
        if k == "gep": return self.gep(o[1], [(t, self.val(v, env)) for t, v in o[2]])
        if k == "cast": return self.val(o[2], env)
        raise Stuck("operand %s" % k)
    def gep(self, ty, ops):
        p = ops[0][1]; o = p[2]; t = ty; first = True
        for it, i in ops[1:]:
            if not isinstance(i, int): raise Stuck("index that depends on data")
            if it.w and i >> (it.w - 1): i -= 1 << it.w
            if first: o += i * llvmir.size_align(t)[0]; first = False
            elif t.k == "struct": o += llvmir.field_off(t, i); t = t.els[i]
            else: t = t.el; o += i * llvmir.size_align(t)[0]
        return ("p", p[1], o)
    def call(self, f, args, depth=0):
        if depth > 30: raise Stuck("recursion")
        env = {}
        for q, a in zip(f.params, args): env[q[1] if isinstance(q, tuple) else q] = a
        b = f.blocks[f.entry] if not hasattr(f.entry, "ins") else f.entry; prev = None
        while True:
            new = {}
            for I in b.phis:
                for v, src in I.a:
                    if src == prev: new[I.res] = self.val(v, env); break
                else: raise Stuck("phi")
            env.update(new)
            for I in b.ins:
                self.steps += 1; self.line = self.m.dbg.get(I.line, self.line)
                if self.steps > 3000000: raise Stuck("too many steps")
                op = I.op
                if op == "br":
                    if len(I.extra) == 1: nx = I.extra[0]
                    else:
                        c = self.val(I.a[0], env)
                        if not isinstance(c, int): raise Stuck("branch that depends on data")
                        nx = I.extra[0] if c else I.extra[1]
                    prev = b.name; b = f.blocks[nx]; break
                if op == "switch":
                    c = self.val(I.a[0], env)
                    if not isinstance(c, int): raise Stuck("branch that depends on data")
                    nx = dict(I.extra[1]).get(c, I.extra[0]); prev = b.name; b = f.blocks[nx]; break
                if op == "ret": return self.val(I.a[0], env) if I.a else None
                v = self.ins(I, env, depth)
                if I.res is not None: env[I.res] = v
            else: raise Stuck("end of block")
    def ins(self, I, env, depth):
        op = I.op
        if op == "alloca": return self.obj(llvmir.size_align(I.ty)[0] * self.val(I.a[0], env))
        if op == "load": return self.load(self.val(I.a[0], env), llvmir.size_align(I.ty)[0])
        if op == "store": self.store(self.val(I.a[1], env), llvmir.size_align(I.ty)[0], self.val(I.a[0], env)); return
        if op == "getelementptr": return self.gep(I.ty, [(t, self.val(v, env)) for t, v in I.a])
        if op in ("freeze", "bitcast", "ptrtoint", "inttoptr"): return self.val(I.a[0], env)
        if op == "zext": return self.val(I.a[0], env)
        if op == "sext":
            v = self.val(I.a[0], env); w = I.extra.w
            if isinstance(v, W):
                if any(k >> (w - 1) & 1 for k in v.f.values()): raise Stuck("sign of a lane")
                return v
            return v if not v >> (w - 1) else v + (1 << I.ty.w) - (1 << w)
        if op == "trunc":
            v = self.val(I.a[0], env); k = (1 << I.ty.w) - 1
            return v & k if isinstance(v, int) else word(anf.and_(form(v), anf.const(k)), I.ty.w)
        if op == "select":
            c = self.val(I.a[0], env)
            if not isinstance(c, int): raise Stuck("choice that depends on data")
            return self.val(I.a[1] if c else I.a[2], env)
        if op == "icmp":
            a, b = (self.val(x, env) for x in I.a)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]: a, b = a[2], b[2]
            if not (isinstance(a, int) and isinstance(b, int)): raise Stuck("comparison of data")
            c = I.extra; w = I.ty.w or 64
            if c[0] == "s": a, b = (x - (1 << w) if x >> (w - 1) else x for x in (a, b)); c = c[1:]
            elif c[0] == "u": c = c[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c])
        if op in llvmir.BIN: return self.bin(op, *[self.val(x, env) for x in I.a], I.ty.w)
        if op == "call":
            if I.extra[0] != "g": raise Stuck("indirect call")
            n = I.extra[1]
            if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")): return
            a = [self.val(x, env) if x[0] != "md" else None for t, x in I.a]
            if n.startswith(("llvm.fshl", "llvm.fshr")):
                w = I.ty.w; s = a[2]
                if not isinstance(s, int): raise Stuck("shift that depends on data")
                s %= w
                if "fshr" in n: s = (w - s) % w; a[0], a[1] = (a[0], a[1]) if s else (a[1], a[0])
                if s == 0: return a[0]
                return self.bin("or", self.bin("shl", a[0], s, w), self.bin("lshr", a[1], w - s, w), w)
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
                d, s, k = a[:3]
                if not isinstance(k, int): raise Stuck("copy of unknown length")
                i = 0; vals = []
                while i < k:
                    c = self.mem[s[1]][0]; z = c[s[2] + i][0] if not isinstance(c, bytes) and s[2] + i in c else 1
                    if i + z > k: z = 1
                    vals.append((i, z, self.load(("p", s[1], s[2] + i), z))); i += z
                for i, z, v in vals: self.store(("p", d[1], d[2] + i), z, v)
                return d
            if n.startswith("llvm.memset") or n == "memset":
                d, v, k = a[:3]
                if not isinstance(k, int) or not isinstance(v, int): raise Stuck("fill of unknown length")
                i = 0
                while i < k:
                    z = 8 if k - i >= 8 and (d[2] + i) % 8 == 0 else 1
                    self.store(("p", d[1], d[2] + i), z, int.from_bytes(bytes([v & 255]) * z, "little")); i += z
                return d
            g = self.m.funcs.get(n)
            if g is None: raise Stuck("call of %s" % n)
            return self.call(g, a, depth + 1)
        raise Stuck("instruction %s" % op)
    def bin(self, op, a, b, w):
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "add": return a + b & M
            if op == "sub": return a - b & M
            if op == "mul": return a * b & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= w: raise Stuck("shift by the width or more")
                if op == "ashr" and a >> (w - 1): return (a - (1 << w) >> b) & M
                return a << b & M if op == "shl" else a >> b
            if b == 0: raise Stuck("division by zero")
            if op == "udiv": return a // b
            if op == "urem": return a % b
            x, y = (v - (1 << w) if v >> (w - 1) else v for v in (a, b)); q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q & M if op == "sdiv" else x - q * y & M
        if isinstance(a, tuple) or isinstance(b, tuple): raise Stuck("arithmetic on addresses")
        if op in ("xor", "and", "or"): return word({"xor": anf.xor, "and": anf.and_, "or": anf.or_}[op](form(a), form(b)), w)
        if op in ("shl", "lshr") and isinstance(b, int):
            if b >= w: raise Stuck("shift by the width or more")
            return word(anf.shl(form(a), b, w) if op == "shl" else anf.shr(form(a), b), w)
        if op == "add" and anf.disjoint(form(a), form(b)): return word(anf.xor(form(a), form(b)), w)
        if op == "sub" and a == M: return word(anf.xor(form(b), anf.const(M)), w)
        raise Stuck("%s of lanes" % op)

# ------------------------------------------------------------------ Python
class U:
    "numpy uint64"
    __slots__ = ("f",)
    def __init__(self, f): self.f = anf.cut()(f)
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Obj: pass
class Cls: pass

class Py:
    def __init__(self, src):
        self.tree = ast.parse(src); self.g = {}; self.steps = 0; self.line = 0
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef): self.g[n.name] = ("fun", n)
            elif isinstance(n, ast.ClassDef):
                c = Cls(); c.name = n.name; c.m = {x.name: x for x in n.body if isinstance(x, ast.FunctionDef)}; self.g[n.name] = c
                c.c = [x for x in n.body if isinstance(x, ast.Assign)]
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "numpy": self.g[a.asname or "numpy"] = ("np",)
        for n in self.tree.body:
            if isinstance(n, ast.Assign):
                try: self.stmt(n, self.g)
                except Stuck: pass
    def new(self, cls):
        o = Obj(); o.cls = self.g[cls]; o.d = {}
        if "__init__" in o.cls.m: self.run(o.cls.m["__init__"], [o])
        return o
    def run(self, fn, args, kw={}):
        ps = [a.arg for a in fn.args.args]; env = dict(zip(ps, args)); env.update(kw)
        for p, d in zip(ps[len(ps) - len(fn.args.defaults):], fn.args.defaults):
            if p not in env: env[p] = self.ev(d, self.g)
        try: self.body(fn.body, env)
        except Ret as r: return r.v
    def body(self, ss, env):
        for s in ss: self.stmt(s, env)
    def u(self, v):
        if isinstance(v, U): return v
        if isinstance(v, bool) or not isinstance(v, int) or not 0 <= v < 1 << 64: raise Stuck("a value that is not a 64-bit word")
        return U(anf.const(v))
    def conc(self, v):
        if isinstance(v, U):
            if not v.f: return 0
            if len(v.f) == 1 and anf.ONE in v.f: return v.f[anf.ONE]
            raise Stuck("control that depends on data")
        return v
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(v)
            if len(v) != len(t.elts): raise Stuck("unpacking")
            for x, y in zip(t.elts, v): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute): self.ev(t.value, env).d[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                r = range(len(o[0] if isinstance(o, tuple) else o))[slice(*[None if x is None else self.conc(self.ev(x, env)) for x in (t.slice.lower, t.slice.upper, t.slice.step)])]
                l = o[1] if isinstance(o, tuple) else o
                vs = [v] * len(r) if isinstance(v, (U, int)) else (v[1] if isinstance(v, tuple) else list(v))
                if len(vs) != len(r): raise Stuck("slice assignment")
                for i, x in zip(r, vs): l[i] = self.u(x) if isinstance(o, tuple) else x
                return
            i = self.conc(self.ev(t.slice, env))
            if isinstance(o, tuple) and o[0] == "arr": o[1][i] = self.u(v)
            elif isinstance(o, (list, dict)): o[i] = v
            else: raise Stuck("item assignment")
        else: raise Stuck("assignment target")
    def stmt(self, s, env):
        self.steps += 1; self.line = s.lineno
        if self.steps > 300000: raise Stuck("too many steps")
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets: self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            l = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s); old = self.ev(l, env); v = self.bin(s.op, old, self.ev(s.value, env))
            if isinstance(old, tuple) and old[0] == "arr": old[1][:] = v[1]
            else: self.assign(s.target, v, env)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env); it = list(it[1]) if isinstance(it, tuple) and it[0] == "arr" else it
            try:
                for x in it:
                    self.assign(s.target, x, env)
                    try: self.body(s.body, env)
                    except Cont: pass
                self.body(s.orelse, env)
            except Brk: pass
        elif isinstance(s, ast.While):
            try:
                while self.conc(self.ev(s.test, env)):
                    try: self.body(s.body, env)
                    except Cont: pass
            except Brk: pass
        elif isinstance(s, ast.If): self.body(s.body if self.conc(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.Return): raise Ret(None if s.value is None else self.ev(s.value, env))
        elif isinstance(s, ast.Expr): self.ev(s.value, env)
        elif isinstance(s, ast.Pass): pass
        elif isinstance(s, ast.Break): raise Brk()
        elif isinstance(s, ast.Continue): raise Cont()
        elif isinstance(s, ast.FunctionDef): env[s.name] = ("fun", s)
        elif isinstance(s, ast.Assert): pass
        else: raise Stuck("statement %s" % type(s).__name__)
    OPS = {ast.BitXor: "xor", ast.BitAnd: "and", ast.BitOr: "or", ast.LShift: "shl", ast.RShift: "lshr", ast.Add: "add", ast.Sub: "sub", ast.Mod: "mod", ast.Mult: "mul", ast.FloorDiv: "div", ast.Pow: "pow"}
    def bin(self, op, a, b):
        o = self.OPS.get(type(op))
        if o is None: raise Stuck("operator")
        if isinstance(a, tuple) and a[0] == "arr" or isinstance(b, tuple) and b[0] == "arr":
            n = len(a[1]) if isinstance(a, tuple) else len(b[1])
            x = a[1] if isinstance(a, tuple) else [a] * n; y = b[1] if isinstance(b, tuple) else [b] * n
            if len(x) != len(y): raise Stuck("arrays of different length")
            return ("arr", [self.bin(op, self.u(p), self.u(q)) for p, q in zip(x, y)])
        if isinstance(a, list) or isinstance(b, list):
            if o == "add" and isinstance(a, list) and isinstance(b, list): return a + b
            if o == "mul": return a * self.conc(b) if isinstance(a, list) else b * self.conc(a)
            raise Stuck("lists")
        if not isinstance(a, U) and not isinstance(b, U):
            if not isinstance(a, int) or not isinstance(b, int): raise Stuck("operands")
            return {"xor": lambda: a ^ b, "and": lambda: a & b, "or": lambda: a | b, "shl": lambda: a << b, "lshr": lambda: a >> b, "add": lambda: a + b, "sub": lambda: a - b, "mod": lambda: a % b, "mul": lambda: a * b, "div": lambda: a // b, "pow": lambda: a ** b}[o]()
        x, y = self.u(a), self.u(b)
        if o in ("xor", "and", "or"): return U({"xor": anf.xor, "and": anf.and_, "or": anf.or_}[o](x.f, y.f))
        if o in ("shl", "lshr"):
            k = self.conc(y)
            if k >= 64: return U({})
            return U(anf.shl(x.f, k, 64) if o == "shl" else anf.shr(x.f, k))
        try: p, q = self.conc(x), self.conc(y); return U(anf.const(C(None).bin({"add": "add", "sub": "sub", "mod": "urem", "mul": "mul", "div": "udiv"}[o], p, q, 64)))
        except (Stuck, KeyError): pass
        if o == "add" and anf.disjoint(x.f, y.f): return U(anf.xor(x.f, y.f))
        if o == "sub" and x.f == anf.const(anf.M64): return U(anf.neg(y.f))
        raise Stuck("%s of lanes" % o)
    def ev(self, e, env):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name):
            if e.id in env: return env[e.id]
            if e.id in self.g: return self.g[e.id]
            if e.id in ("range", "len", "int", "list", "min", "max", "zip", "enumerate", "reversed", "tuple", "sum"): return ("builtin", e.id)
            raise Stuck("name %s" % e.id)
        if isinstance(e, ast.BinOp): return self.bin(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Invert):
                if isinstance(v, tuple) and v[0] == "arr": return ("arr", [U(anf.neg(self.u(x).f)) for x in v[1]])
                return U(anf.neg(v.f)) if isinstance(v, U) else ~v
            v = self.conc(v)
            return -v if isinstance(e.op, ast.USub) else (not v) if isinstance(e.op, ast.Not) else v
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.conc(self.ev(e.left, env)), self.conc(self.ev(e.comparators[0], env))
            f = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}.get(type(e.ops[0]))
            if f is None: raise Stuck("comparison")
            return f()
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.conc(self.ev(x, env))
                if bool(v) != isinstance(e.op, ast.And): return v
            return v
        if isinstance(e, ast.IfExp): return self.ev(e.body if self.conc(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, (ast.List, ast.Tuple)): return [self.ev(x, env) for x in e.elts]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            out = []; env = dict(env)
            def go(i):
                if i == len(e.generators): out.append(self.ev(e.elt, env)); return
                it = self.ev(e.generators[i].iter, env)
                for x in (it[1] if isinstance(it, tuple) and it[0] == "arr" else it):
                    self.assign(e.generators[i].target, x, env)
                    if all(self.conc(self.ev(c, env)) for c in e.generators[i].ifs): go(i + 1)
            go(0); return out
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, env); l = o[1] if isinstance(o, tuple) and o[0] == "arr" else o
            if isinstance(e.slice, ast.Slice):
                s = slice(*[None if x is None else self.conc(self.ev(x, env)) for x in (e.slice.lower, e.slice.upper, e.slice.step)])
                if isinstance(o, tuple): raise Stuck("view of an array")
                return l[s]
            i = self.conc(self.ev(e.slice, env))
            if isinstance(l, (list, dict)): 
                try: return l[i]
                except (IndexError, KeyError): raise Stuck("index %s out of range" % i)
            raise Stuck("index of %s" % type(o).__name__)
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if o == ("np",): return ("npf", e.attr)
            if isinstance(o, Obj):
                if e.attr in o.d: return o.d[e.attr]
                if e.attr in o.cls.m: return ("meth", o.cls.m[e.attr], o)
                for x in o.cls.c:
                    if any(isinstance(t, ast.Name) and t.id == e.attr for t in x.targets): return self.ev(x.value, self.g)
            if isinstance(o, tuple) and o[0] == "arr" and e.attr in ("copy", "tolist"): return ("am", e.attr, o)
            if isinstance(o, list) and e.attr in ("append", "copy"): return ("lm", e.attr, o)
            raise Stuck("attribute %s" % e.attr)
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env); a = [self.ev(x, env) for x in e.args]; kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
            if not isinstance(f, tuple): 
                if isinstance(f, Cls): return self.new(f.name)
                raise Stuck("call")
            if f[0] == "fun": return self.run(f[1], a, kw)
            if f[0] == "meth":
                st = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f[1].decorator_list)
                return self.run(f[1], a if st else [f[2]] + a, kw)
            if f[0] == "lm": return a and f[2].append(a[0]) if f[1] == "append" else list(f[2])
            if f[0] == "am": return ("arr", list(f[2][1]))
            if f[0] == "npf":
                n = f[1]; dt = kw.get("dtype", a[1] if len(a) > 1 else None)
                if n == "uint64": return self.u(a[0])
                if dt != ("npf", "uint64") and n in ("zeros", "empty", "array", "ones"): raise Stuck("array of another type")
                if n == "zeros": return ("arr", [U({}) for _ in range(self.conc(a[0]))])
                if n == "array": return ("arr", [self.u(x) for x in (a[0][1] if isinstance(a[0], tuple) else a[0])])
                if n in ("bitwise_xor", "bitwise_and", "bitwise_or", "left_shift", "right_shift") and len(a) == 2 and not kw:
                    return self.bin({"bitwise_xor": ast.BitXor, "bitwise_and": ast.BitAnd, "bitwise_or": ast.BitOr, "left_shift": ast.LShift, "right_shift": ast.RShift}[n](), a[0], a[1])
                if n in ("bitwise_not", "invert"): return U(anf.neg(self.u(a[0]).f))
                raise Stuck("np.%s" % n)
            if f[0] == "builtin":
                n = f[1]; a = [x[1] if isinstance(x, tuple) and x[0] == "arr" else x for x in a]
                if n == "int": return self.conc(a[0])
                if n == "sum": raise Stuck("sum")
                try: return {"range": range, "len": len, "list": list, "min": min, "max": max, "zip": lambda *z: [list(t) for t in zip(*z)], "enumerate": lambda z: [[i, x] for i, x in enumerate(z)], "reversed": lambda z: list(reversed(z)), "tuple": list}[n](*[self.conc(x) if isinstance(x, U) else x for x in a])
                except TypeError as x: raise Stuck(str(x))
            raise Stuck("call")
        raise Stuck("expression %s" % type(e).__name__)
