"""Byte-wise evaluation of the Python sponge objects: lengths are concrete, contents are xor sums of opaque bytes.

A byte is (constant, set of opaque bytes).  numpy arrays are views (buffer, offset, length, element size), so slices and .view() alias as they do in numpy.
The permutation is a stand-in that notes the state it gets and leaves 200 fresh opaque bytes."""
import ast, os
from sa.lanes import Stuck, Ret, Brk, Cont, Obj, Cls

Z = (0, frozenset())
def bx(a, b): return (a[0] ^ b[0], a[1] ^ b[1])
def lit(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], frozenset): return v
    if isinstance(v, bool) or not isinstance(v, int): raise Stuck("a value that is not a byte")
    if not 0 <= v < 256: raise Stuck("the constant %d does not fit a byte" % v)
    return (v, frozenset())
class By:
    "bytes (or str when empty)"
    def __init__(self, l, mut=False): self.l = l; self.mut = mut
class NA:
    def __init__(self, buf, off, n, es): self.buf, self.off, self.n, self.es = buf, off, n, es
    def get(self): return self.buf[self.off:self.off + self.n * self.es]
    def put(self, l):
        if len(l) != self.n * self.es: raise Exc("ValueError")
        self.buf[self.off:self.off + self.n * self.es] = l
class Exc(Exception): pass
ES = {"uint8": 1, "uint64": 8, "uint32": 4, "uint16": 2}

class Py:
    def __init__(self, root, hook):
        self.root = root; self.hook = hook; self.mods = {}; self.steps = 0; self.line = 0; self.fns = set()
    def module(self, name):
        if name in self.mods: return self.mods[name]
        g = self.mods[name] = {"__name__": name}; tree = ast.parse(open(os.path.join(self.root, name + ".py")).read())
        for n in tree.body:
            if isinstance(n, ast.FunctionDef): g[n.name] = ("fun", n, g)
            elif isinstance(n, ast.ClassDef):
                c = Cls(); c.name = n.name; c.g = g; c.m = {x.name: x for x in n.body if isinstance(x, ast.FunctionDef)}; c.a = {}; g[n.name] = c
                for x in n.body:
                    if isinstance(x, ast.Assign):
                        try:
                            for t in x.targets: c.a[t.id] = self.ev(x.value, g)
                        except Stuck: pass
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "numpy": g[a.asname or "numpy"] = ("np",)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if n.module == "numpy": g[a.asname or a.name] = ("npf", a.name)
                    elif os.path.exists(os.path.join(self.root, "%s.py" % n.module)): g[a.asname or a.name] = self.module(n.module).get(a.name)
            elif isinstance(n, ast.Assign):
                try: self.stmt(n, g)
                except Stuck: pass
        return g
    # ------------------------------------------------ calls
    def run(self, fn, g, args, kw):
        self.fns.add("%s.%s" % (g["__name__"], fn.name))
        if fn.args.vararg or fn.args.kwarg: raise Stuck("variable arguments")
        ps = [a.arg for a in fn.args.args] + [a.arg for a in fn.args.kwonlyargs]
        if len(args) > len(fn.args.args) or set(kw) - set(ps): raise Exc("TypeError")
        env = dict(zip(ps, args)); env.update(kw); pa = fn.args.args
        for p, d in list(zip([a.arg for a in pa[len(pa) - len(fn.args.defaults):]], fn.args.defaults)) + [(a.arg, d) for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults) if d]:
            if p not in env: env[p] = self.ev(d, g)
        if any(p not in env for p in ps): raise Exc("TypeError")
        f = Frame(env, g)
        try: self.body(fn.body, f)
        except Ret as r: return r.v
    def new(self, c, args=(), kw={}):
        o = Obj(); o.cls = c; o.d = {}
        if "__init__" in c.m: self.run(c.m["__init__"], c.g, [o] + list(args), kw)
        return o
    def meth(self, o, n, *args, **kw):
        if o.cls.name == "Keccak" and n == "F1600": return self.hook(self, o)
        fn = o.cls.m.get(n)
        if fn is None: raise Stuck("%s has no method %s" % (o.cls.name, n))
        return self.run(fn, o.cls.g, [o] + list(args), kw)
    def call(self, f, a, kw):
        if isinstance(f, Cls): return self.new(f, a, kw)
        if not isinstance(f, tuple): raise Stuck("call")
        if f[0] == "fun": return self.run(f[1], f[2], a, kw)
        if f[0] == "meth":
            o, n = f[1], f[2]
            if isinstance(o, Cls): fn = o.m[n]; return self.run(fn, o.g, a if isdec(fn, "staticmethod") else ([o] + a if isdec(fn, "classmethod") else a), kw)
            fn = o.cls.m[n]
            if isdec(fn, "staticmethod"): return self.run(fn, o.cls.g, a, kw)
            if isdec(fn, "classmethod"): return self.run(fn, o.cls.g, [o.cls] + a, kw)
            return self.meth(o, n, *a, **kw)
        if f[0] == "npf":
            n = f[1]; dt = kw.get("dtype", a[1] if len(a) > 1 and n in ("zeros", "frombuffer", "array", "empty", "ones", "asarray") else None)
            if n in ES: return lit(a[0]) if isinstance(a[0], (int, tuple)) and n == "uint8" else a[0]
            if n in ("zeros", "frombuffer", "array", "asarray"):
                es = ES.get(dt[1]) if isinstance(dt, tuple) and dt[0] == "npf" else (1 if n != "frombuffer" and isinstance(dt, By) else None)
                if es is None: raise Stuck("array of an unknown type")
                if n == "zeros":
                    k = a[0][0] if isinstance(a[0], list) and len(a[0]) == 1 else a[0]
                    return NA([Z] * (k * es), 0, k, es)
                x = a[0]
                if isinstance(x, By):
                    if n != "frombuffer" or len(x.l) % es: raise Stuck("array from bytes")
                    if not x.l and not isinstance(x.l, list): raise Stuck("empty")
                    c = kw.get("count", a[2] if len(a) > 2 else -1); o = kw.get("offset", a[3] if len(a) > 3 else 0)
                    if len(x.l) - o <= 0: raise Exc("ValueError")
                    k = (len(x.l) - o) // es if c == -1 else c
                    if k < 0 or o + k * es > len(x.l): raise Exc("ValueError")
                    return NA(list(x.l[o:o + k * es]), 0, k, es)
                if isinstance(x, NA): return NA(x.get(), 0, x.n, x.es)
                if isinstance(x, list) and es == 1: return NA([lit(v) for v in x], 0, len(x), 1)
                if isinstance(x, list) and all(isinstance(v, int) and not isinstance(v, bool) for v in x): return NA([lit(v >> 8 * i & 255) for v in x for i in range(es)], 0, len(x), es)
            if n in ("bitwise_xor",) and len(a) == 2:
                v = self.xor(a[0], a[1]); o = kw.get("out")
                if o is not None: o.put(v.get()); return o
                return v
            raise Stuck("np.%s" % n)
        if f[0] == "am":
            o, n = f[1], f[2]
            if n == "view":
                dt = a[0] if a else kw.get("dtype"); es = ES.get(dt[1]) if isinstance(dt, tuple) else None
                if es is None or o.n * o.es % es: raise Stuck("view")
                return NA(o.buf, o.off, o.n * o.es // es, es)
            if n == "tobytes": return By(o.get())
            if n == "copy": return NA(o.get(), 0, o.n, o.es)
            if n == "fill": o.put([lit(a[0])] + [Z] * 0 if o.n * o.es == 1 else [lit(a[0]) if i % o.es == 0 else Z for i in range(o.n * o.es)]); return None
            if n == "tolist" and o.es == 1: return o.get()
        if f[0] == "bm":
            o, n = f[1], f[2]
            if n == "join": return By([z for x in a[0] for z in x.l])
            if n == "extend" and o.mut: o.l += self.bytes_(a[0]); return None
            if n == "append" and o.mut: o.l.append(lit(a[0])); return None
        if f[0] == "lm":
            o, n = f[1], f[2]
            if n == "append": o.append(a[0]); return None
            if n == "extend": o.extend(self.iter(a[0])); return None
        if f[0] == "builtin":
            n = f[1]
            if n == "len":
                x = a[0]
                if isinstance(x, By): return len(x.l)
                if isinstance(x, NA): return x.n
                if isinstance(x, (list, range, dict)): return len(x)
            if n == "range": return range(*[self.int(x) for x in a])
            if n in ("min", "max") and all(isinstance(x, int) for x in a) and len(a) > 1: return (min if n == "min" else max)(a)
            if n in ("bytes", "bytearray"):
                if not a: return By([], n == "bytearray")
                if isinstance(a[0], int): return By([Z] * a[0], n == "bytearray")
                return By(self.bytes_(a[0]), n == "bytearray")
            if n == "memoryview": return a[0]
            if n == "int" and isinstance(a[0], int): return int(a[0])
            if n == "list": return list(self.iter(a[0]))
            if n == "enumerate": return [[i, x] for i, x in enumerate(self.iter(a[0]))]
            if n == "zip": return [list(t) for t in zip(*[self.iter(x) for x in a])]
            if n == "isinstance":
                t = a[1] if isinstance(a[1], list) else [a[1]]; names = {x[1] for x in t if isinstance(x, tuple) and x[0] == "builtin"}
                if isinstance(a[0], By): return bool(names & ({"bytearray"} if a[0].mut else {"bytes"}))
                if isinstance(a[0], int): return bool(names & {"int", "bool"} if isinstance(a[0], bool) else names & {"int"})
            if n == "divmod": return list(divmod(self.int(a[0]), self.int(a[1])))
            raise Stuck("%s()" % n)
        raise Stuck("call")
    def bytes_(self, x):
        if isinstance(x, By): return list(x.l)
        if isinstance(x, NA): return x.get()
        if isinstance(x, (list, range)): return [lit(v) for v in x]
        raise Stuck("bytes of %s" % type(x).__name__)
    def iter(self, x):
        if isinstance(x, By): return list(x.l)
        if isinstance(x, NA) and x.es == 1: return x.get()
        if isinstance(x, (list, range)): return x
        raise Stuck("iteration")
    def int(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[1] == frozenset(): return v[0]
        if not isinstance(v, int): raise Stuck("control that depends on data" if isinstance(v, tuple) else "a value that is not an integer")
        return v
    def truth(self, v):
        if isinstance(v, (By,)): return bool(v.l)
        if isinstance(v, (list, range)): return len(v) > 0
        if v is None or isinstance(v, (bool, int)): return bool(v)
        if isinstance(v, Obj): return True
        raise Stuck("control that depends on data")
    # ------------------------------------------------ statements
    def body(self, ss, env):
        for s in ss: self.stmt(s, env)
    def slc(self, s, env, n): return range(n)[slice(*[None if x is None else self.int(self.ev(x, env)) for x in (s.lower, s.upper, s.step)])]
    def idx(self, i, n):
        i = self.int(i)
        if not -n <= i < n: raise Exc("IndexError")
        return i % n
    def sub(self, o, s, env):
        if isinstance(o, By):
            if isinstance(s, ast.Slice): return By([o.l[i] for i in self.slc(s, env, len(o.l))], o.mut)
            return o.l[self.idx(self.ev(s, env), len(o.l))]
        if isinstance(o, NA):
            if isinstance(s, ast.Slice):
                r = self.slc(s, env, o.n)
                if r.step != 1: raise Stuck("slice with a step")
                return NA(o.buf, o.off + r.start * o.es, len(r), o.es)
            i = self.idx(self.ev(s, env), o.n)
            return o.buf[o.off + i] if o.es == 1 else NA(o.buf, o.off + i * o.es, 1, o.es)
        if isinstance(o, list):
            if isinstance(s, ast.Slice): return [o[i] for i in self.slc(s, env, len(o))]
            return o[self.idx(self.ev(s, env), len(o))]
        raise Stuck("index of %s" % type(o).__name__)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(self.iter(v))
            if len(v) != len(t.elts): raise Stuck("unpacking")
            for x, y in zip(t.elts, v): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj): raise Stuck("attribute assignment")
            o.d[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(o, NA):
                if isinstance(t.slice, ast.Slice):
                    w = self.sub(o, t.slice, env)
                    if isinstance(v, (int, tuple)): w.put([lit(v) if i % w.es == 0 else Z for i in range(w.n * w.es)])
                    else:
                        if isinstance(v, NA) and v.es != w.es: raise Stuck("elements of another size")
                        l = self.bytes_(v)
                        if isinstance(v, NA) and v.n == 1 and w.n != 1: l = l * w.n
                        w.put(l)
                else:
                    i = self.idx(self.ev(t.slice, env), o.n)
                    if isinstance(v, NA) and v.es == o.es and v.n == 1: NA(o.buf, o.off + i * o.es, 1, o.es).put(v.get())
                    else: NA(o.buf, o.off + i * o.es, 1, o.es).put([lit(v)] + [Z] * (o.es - 1))
            elif isinstance(o, By) and o.mut:
                if isinstance(t.slice, ast.Slice):
                    r = self.slc(t.slice, env, len(o.l))
                    if r.step != 1: raise Stuck("slice with a step")
                    o.l[r.start:max(r.start, r.stop)] = self.bytes_(v)
                else: o.l[self.idx(self.ev(t.slice, env), len(o.l))] = lit(v)
            elif isinstance(o, list) and not isinstance(t.slice, ast.Slice): o[self.idx(self.ev(t.slice, env), len(o))] = v
            else: raise Stuck("item assignment")
        else: raise Stuck("assignment target")
    def stmt(self, s, env):
        self.steps += 1; self.line = s.lineno
        self.left = getattr(self, "left", 1 << 30) - 1
        if self.left < 0: raise Exc("the call does not end")
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets: self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            l = ast.parse(ast.unparse(s.target), mode="eval").body; old = self.ev(l, env); v = self.bin(s.op, old, self.ev(s.value, env), True)
            if isinstance(old, NA) and v is not old: old.put(v.get()); v = old
            if isinstance(old, NA) and isinstance(s.target, ast.Subscript): pass
            else: self.assign(s.target, v, env)
        elif isinstance(s, ast.For):
            try:
                for x in list(self.iter(self.ev(s.iter, env))):
                    self.assign(s.target, x, env)
                    try: self.body(s.body, env)
                    except Cont: pass
                self.body(s.orelse, env)
            except Brk: pass
        elif isinstance(s, ast.While):
            try:
                while self.truth(self.ev(s.test, env)):
                    self.left -= 1
                    if self.left < 0: raise Exc("the call does not end")
                    try: self.body(s.body, env)
                    except Cont: pass
            except Brk: pass
        elif isinstance(s, ast.If): self.body(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.Return): raise Ret(None if s.value is None else self.ev(s.value, env))
        elif isinstance(s, ast.Expr): self.ev(s.value, env)
        elif isinstance(s, (ast.Pass, ast.Import, ast.Global)): pass
        elif isinstance(s, ast.Break): raise Brk()
        elif isinstance(s, ast.Continue): raise Cont()
        elif isinstance(s, ast.Raise): raise Exc(ast.unparse(s.exc)[:60] if s.exc else "exception")
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env)): raise Exc("AssertionError")
        else: raise Stuck("statement %s" % type(s).__name__)
    # ------------------------------------------------ expressions
    def xor(self, a, b):
        if isinstance(a, NA) and isinstance(b, NA):
            if a.es != b.es: raise Stuck("arrays of different types")
            x, y = a.get(), b.get()
            if len(x) != len(y):
                if b.n == 1: y = y * a.n
                elif a.n == 1: x = x * b.n
                else: raise Exc("ValueError")
            return NA([bx(p, q) for p, q in zip(x, y)], 0, max(a.n, b.n), a.es)
        if isinstance(a, NA) or isinstance(b, NA):
            n, c = (a, b) if isinstance(a, NA) else (b, a)
            return NA([bx(p, lit(c)) if i % n.es == 0 else p for i, p in enumerate(n.get())], 0, n.n, n.es)
        return bx(lit(a), lit(b))
    def bin(self, op, a, b, inplace=False):
        if isinstance(op, ast.BitXor) and not (isinstance(a, int) and isinstance(b, int)): return self.xor(a, b)
        if isinstance(op, ast.Add) and (isinstance(a, By) or isinstance(b, By)):
            if not isinstance(a, By): raise Stuck("concatenation")
            if isinstance(b, By) or inplace and a.mut:
                if inplace and a.mut: a.l += self.bytes_(b); return a
                return By(a.l + b.l, a.mut)
            raise Stuck("concatenation")
        if isinstance(op, ast.Add) and isinstance(a, list) and isinstance(b, list): return a + b
        if isinstance(op, ast.Mult) and isinstance(a, By): return By(a.l * self.int(b), a.mut)
        if isinstance(op, ast.Mult) and isinstance(a, list): return a * self.int(b)
        a, b = self.int(a), self.int(b)
        f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.BitXor: lambda: a ^ b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.Pow: lambda: a ** b}.get(type(op))
        if f is None: raise Stuck("operator")
        try: return f()
        except ZeroDivisionError: raise Exc("ZeroDivisionError")
    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bytes): return By([lit(x) for x in e.value])
            if isinstance(e.value, str): return By([lit(ord(c) & 255) for c in e.value])
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env: return env[e.id]
            if e.id in ("range", "len", "min", "max", "bytes", "bytearray", "int", "list", "enumerate", "zip", "isinstance", "memoryview", "divmod", "bool"): return ("builtin", e.id)
            raise Stuck("name %s" % e.id)
        if isinstance(e, ast.BinOp): return self.bin(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not): return not self.truth(v)
            return -self.int(v) if isinstance(e.op, ast.USub) else ~self.int(v) if isinstance(e.op, ast.Invert) else self.int(v)
        if isinstance(e, ast.Compare):
            a = self.ev(e.left, env)
            for op, c in zip(e.ops, e.comparators):
                b = self.ev(c, env)
                if isinstance(op, (ast.Is, ast.IsNot)): ok = (a is b) == isinstance(op, ast.Is)
                elif isinstance(a, By) and isinstance(b, By) and isinstance(op, (ast.Eq, ast.NotEq)) and not (a.l and b.l): ok = (len(a.l) == len(b.l)) == isinstance(op, ast.Eq)
                elif (a is None or b is None) and isinstance(op, (ast.Eq, ast.NotEq)): ok = (a is b) == isinstance(op, ast.Eq)
                else:
                    p, q = self.int(a), self.int(b)
                    ok = {ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q, ast.Eq: p == q, ast.NotEq: p != q}.get(type(op))
                    if ok is None: raise Stuck("comparison")
                if not ok: return False
                a = b
            return True
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.ev(x, env)
                if self.truth(v) != isinstance(e.op, ast.And): return v
            return v
        if isinstance(e, ast.IfExp): return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, (ast.List, ast.Tuple)): return [self.ev(x, env) for x in e.elts]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            out = []; env = Frame(dict(env.d if isinstance(env, Frame) else {}), env.g if isinstance(env, Frame) else env)
            def go(i):
                if i == len(e.generators): out.append(self.ev(e.elt, env)); return
                for x in list(self.iter(self.ev(e.generators[i].iter, env))):
                    self.assign(e.generators[i].target, x, env)
                    if all(self.truth(self.ev(c, env)) for c in e.generators[i].ifs): go(i + 1)
            go(0); return out
        if isinstance(e, ast.Subscript): return self.sub(self.ev(e.value, env), e.slice, env)
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if o == ("np",): return ("npf", e.attr)
            if isinstance(o, Obj):
                if e.attr in o.d: return o.d[e.attr]
                if e.attr in o.cls.m:
                    if isdec(o.cls.m[e.attr], "property"): return self.meth(o, e.attr)
                    return ("meth", o, e.attr)
                if e.attr in o.cls.a: return o.cls.a[e.attr]
                raise Exc("AttributeError")
            if isinstance(o, Cls):
                if e.attr in o.m: return ("meth", o, e.attr)
                if e.attr in o.a: return o.a[e.attr]
            if isinstance(o, NA):
                if e.attr in ("size", "shape", "nbytes"): return {"size": o.n, "nbytes": o.n * o.es, "shape": [o.n]}[e.attr]
                return ("am", o, e.attr)
            if isinstance(o, By): return ("bm", o, e.attr)
            if isinstance(o, list): return ("lm", o, e.attr)
            raise Stuck("attribute %s" % e.attr)
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            if any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords): raise Stuck("starred arguments")
            return self.call(f, [self.ev(x, env) for x in e.args], {k.arg: self.ev(k.value, env) for k in e.keywords})
        raise Stuck("expression %s" % type(e).__name__)

def isdec(fn, n): return any(isinstance(d, ast.Name) and d.id == n for d in fn.decorator_list)
class Frame:
    def __init__(self, d, g): self.d = d; self.g = g
    def __contains__(self, k): return k in self.d or k in self.g
    def __getitem__(self, k): return self.d[k] if k in self.d else self.g[k]
    def __setitem__(self, k, v): self.d[k] = v
