"""Constants and tables of the three implementations, read from their sources and compared with the scheme's definition."""
import ast, os, re, struct
from sa import cbuild, report
from sa.solparse import Prog, ParseError
from sa import sol as S
import mpmath as mp

REPO = os.environ.get("VERIF_REPO", "/repo")
PYR = os.path.join(REPO, "pythonref"); SRC = os.path.join(REPO, "src"); CS = os.path.join(REPO, "falcon/nistfalcon/src")
Q = 12289
mp.mp.prec = 200
NO = object()

def brv(i, k): return int(format(i, "0%db" % k)[::-1], 2)

# ------------------------------------------------------------------ definition of the scheme
def eps(n): return 1 / mp.sqrt(mp.mpf(max(2, n // 4 if n < 1024 else 256)) * mp.mpf(2) ** 64)
def sigma_min(n): return mp.sqrt(mp.log(4 * n * (1 + 1 / eps(n))) / 2) / mp.pi
def sigma(n): return sigma_min(n) * mp.mpf("1.17") * mp.sqrt(Q)
def bound(n): return int(mp.floor((mp.mpf("1.1") * sigma(n)) ** 2 * 2 * n))
def keccak_rc():
    out = []; x = 1
    for _ in range(24):
        w = 0
        for j in range(7):
            if x & 1: w |= 1 << ((1 << j) - 1)
            x = (x << 1) ^ (0x171 if x >> 7 else 0)
        out.append(w)
    return out
def keccak_walk():
    "rotation and destination of each step of the rho-pi walk"
    x, y = 1, 0; rot = []; dst = []
    for t in range(24):
        rot.append((t + 1) * (t + 2) // 2 % 64)
        x, y = y, (2 * x + 3 * y) % 5
        dst.append(x + 5 * y)
    return rot, dst
def half_gauss(s):
    e = [mp.e ** (-mp.mpf(k * k) / (2 * s * s)) for k in range(60)]
    return e, mp.fsum(e)

# ------------------------------------------------------------------ C side
def ints(init):
    "numbers of a C table, nested aggregates as tuples"
    k = init[0]
    if k == "c": return init[1]
    if k == "bytes": return list(init[1])
    if k == "agg":
        l = [ints(x[1]) for x in init[1]]
        return l
    if k == "zero": return 0
    return NO
class Ctabs:
    def __init__(self): self.u = {}
    def get(self, f):
        if f not in self.u: self.u[f] = cbuild.unit(f)
        return self.u[f]
    def find(self, f, name, want, eq):
        """table by name, otherwise the table of the file with most entries in common"""
        g = {n: ints(x.init) for n, x in self.get(f).globals.items() if getattr(x, "init", None)}
        for n, v in g.items():
            if isinstance(v, list) and (n == name or n.endswith("." + name) or n.endswith("_" + name)): return n, v
        best = None
        for n, v in g.items():
            if not isinstance(v, list) or n.startswith(".str"): continue
            k = sum(1 for a, b in zip(v, want) if eq(a, b))
            if 2 * k > len(want) and (best is None or k > best[0]): best = (k, n, v)
        return (best[1], best[2]) if best else (None, None)
def dbl(x): return mp.mpf(struct.unpack("<d", struct.pack("<Q", x))[0])
def near(v): 
    "the double nearest to v"
    return struct.unpack("<Q", struct.pack("<d", float(mp.nstr(v, 40))))[0] if v else 0
def feq(a, b): return isinstance(a, int) and (a == near(b) or abs(dbl(a) - b) <= abs(b) * mp.mpf(2) ** -52)

def table(r, rule, where, got, want, eq=lambda a, b: a == b, show=lambda x: x):
    r.unit(where, "%d entries" % len(want))
    if got is None: r.notes.setdefault("not found", []).append(where); r.units.pop(where); return False
    if not isinstance(got, list): r.violate(rule, where, "is not a table of numbers", key=where); return True
    bad = [i for i, w in enumerate(want) if w is not None and (i >= len(got) or not eq(got[i], w))]
    r.count(rule, len(want))
    if bad:
        i = bad[0]
        r.violate(rule, where, "%d of %d entries differ from the definition; entry %d is %s, must be %s" % (len(bad), len(want), i, got[i] if i < len(got) else "missing", show(want[i])), key=where, counted=True)
    elif len(r.samples) < 16: r.samples.append({"rule": rule, "where": where, "decided": "%d entries hold" % len(want)})
    return True

# ------------------------------------------------------------------ Python side: constant evaluation on the syntax tree
class PyMod:
    def __init__(self, f):
        self.env = {}
        try: t = ast.parse(open(os.path.join(PYR, f)).read())
        except (OSError, SyntaxError): t = ast.Module([], [])
        self.tree = t
        for s in t.body:
            if isinstance(s, ast.ImportFrom) and s.module and os.path.exists(os.path.join(PYR, s.module.replace(".", "/") + ".py")) and s.module + ".py" != f:
                m = pymod(s.module.replace(".", "/") + ".py")
                for a in s.names:
                    if a.name in m.env: self.env[a.asname or a.name] = m.env[a.name]
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                v = pyval(s.value, self.env)
                for x in s.targets if isinstance(s, ast.Assign) else [s.target]: self.bind(x, v)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.env[s.target.id] = pyval(ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), self.env)
            elif isinstance(s, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): self.env[x.id] = NO
                    elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name): self.env[x.value.id] = NO
    def bind(self, x, v):
        if isinstance(x, ast.Name): self.env[x.id] = v
        elif isinstance(x, ast.Tuple):
            for i, y in enumerate(x.elts): self.bind(y, v[i] if isinstance(v, (list, tuple)) and len(v) == len(x.elts) else NO)
        elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
            b = self.env.get(x.value.id, NO); i = pyval(x.slice, self.env)
            if isinstance(b, dict) and i is not NO: b[i] = v
            elif isinstance(b, list) and isinstance(i, int) and -len(b) <= i < len(b): b[i] = v
            else: self.env[x.value.id] = NO
_mods = {}
def pymod(f):
    if f not in _mods: _mods[f] = None; _mods[f] = PyMod(f)
    return _mods[f] or type("E", (), {"env": {}, "tree": ast.Module([], [])})()
OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
       ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
       ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b,
       ast.Pow: lambda a, b: a ** b if not isinstance(b, int) or abs(b) < 5000 else 1 // 0}
def pyval(e, env):
    "value of a constant expression, NO when it is not one"
    def ev(e):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name):
            v = env.get(e.id, NO)
            if v is NO: raise ValueError
            return v
        if isinstance(e, ast.UnaryOp):
            v = ev(e.operand)
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v if isinstance(e.op, ast.Invert) else (not v)
        if isinstance(e, ast.BinOp):
            a, b = ev(e.left), ev(e.right)
            if isinstance(a, list) and isinstance(b, int) and len(a) * b > 10 ** 6: raise ValueError
            return OPS[type(e.op)](a, b)
        if isinstance(e, (ast.List, ast.Tuple)):
            l = []
            for x in e.elts:
                if isinstance(x, ast.Starred): l.extend(ev(x.value))
                else: l.append(ev(x))
            return l if isinstance(e, ast.List) else tuple(l)
        if isinstance(e, ast.Dict): return {ev(k): ev(v) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice): return ev(e.value)[slice(*[ev(x) if x else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])]
            return ev(e.value)[ev(e.slice)]
        if isinstance(e, ast.Call):
            f = e.func; n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if n in ("array", "list", "tuple", "asarray", "uint64", "int", "float", "complex") and len(e.args) >= 1:
                v = ev(e.args[0])
                if n in ("array", "list", "asarray"): return list(v)
                return {"tuple": tuple, "int": int, "float": float, "complex": complex}.get(n, lambda x: x)(v)
            if n == "sqrt": return float(mp.sqrt(ev(e.args[0])))
            if n == "log" and len(e.args) == 1: return float(mp.log(ev(e.args[0])))
            if n == "len": return len(ev(e.args[0]))
            if n == "dict": return {k.arg: ev(k.value) for k in e.keywords}
        if isinstance(e, (ast.ListComp, ast.DictComp)) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            g = e.generators[0]; it = g.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range": seq = range(*[ev(x) for x in it.args])
            else: seq = ev(it)
            out = []
            for x in list(seq)[:5000]:
                env2 = dict(env); env2[g.target.id] = x
                if isinstance(e, ast.ListComp): v = pyval(e.elt, env2)
                else: v = (pyval(e.key, env2), pyval(e.value, env2))
                if v is NO or isinstance(e, ast.DictComp) and NO in v: raise ValueError
                out.append(v)
            return out if isinstance(e, ast.ListComp) else dict(out)
        raise ValueError
    try: return ev(e)
    except (ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, OverflowError, AttributeError): return NO
def pytab(f, name, want, eq):
    m = pymod(f).env; v = m.get(name)
    if isinstance(v, (list, tuple)): return list(v)
    best = None
    for n, v in m.items():
        if isinstance(v, (list, tuple)) and len(v) <= 4 * len(want):
            k = sum(1 for a, b in zip(v, want) if isinstance(a, (int, float, complex)) and eq(a, b))
            if 2 * k > len(want) and (best is None or k > best[0]): best = (k, list(v))
    return best[1] if best else None

# ------------------------------------------------------------------ C17
def c17(r):
    r.level = "proof"
    r.rules("every table entry and scalar constant read from the C intermediate representation, the Python syntax tree and the Solidity syntax tree is compared with a value computed from the scheme's definition (root powers, bounds, Gaussian distributions, Keccak constants)")
    r.trust("the clang front end, the Python and Solidity parsers and the constant evaluator of checks/consts.py", "mpmath for the real-valued definitions")
    n_c = ctables(r); n_p = pyconsts(r); n_s = solconsts(r)
    r.need(n_c, "C tables", 9); r.need(n_p, "Python constants", 20); r.need(n_s, "Solidity constants", 8)

def ctables(r):
    T = Ctabs(); n = 0
    def go(f, name, want, rule, eq=lambda a, b: a == b, show=lambda x: x):
        nm, got = T.find(f, name, want, eq)
        return 1 if table(r, rule, "%s %s" % (f, nm or name), got, want, eq, show) else 0
    # vrfy.c: Montgomery forms of the powers of the root 7 of order 2048, in bit-reversed order
    R = 1 << 16
    g = [pow(7, brv(i, 10), Q) * R % Q for i in range(1024)]; ig = [pow(pow(7, -1, Q), brv(i, 10), Q) * R % Q for i in range(1024)]
    n += go("vrfy.c", "GMb", g, "transform table entry is the right power of the root")
    n += go("vrfy.c", "iGMb", ig, "transform table entry is the right power of the root")
    n += go("common.c", "l2bound", [None] + [bound(1 << k) for k in range(1, 11)], "acceptance bound is floor((1.1 sigma)^2 2n)")
    n += go("sign.c", "fpr_inv_sigma", [None] + [1 / sigma(1 << k) for k in range(1, 11)], "deviation is the definition's", lambda a, b: b is None or feq(a, b), lambda x: mp.nstr(x, 20))
    n += go("sign.c", "fpr_sigma_min", [None] + [sigma_min(1 << k) for k in range(1, 11)], "deviation is the definition's", lambda a, b: b is None or feq(a, b), lambda x: mp.nstr(x, 20))
    # base sampler: reverse cumulative distribution of the half-Gaussian of deviation 1.8205, in 24-bit limbs, highest first
    nm, d = T.find("sign.c", "dist", RCDT24, lambda a, b: a == b)
    if d is not None and len(d) % 3 == 0:
        got = [(d[i] << 48) + (d[i + 1] << 24) + d[i + 2] for i in range(0, len(d), 3)]
        n += table(r, "sampler table", "sign.c %s" % nm, got, RCDT); rcdt_def(r, "sign.c %s" % nm, got)
    n += go("fpr.c", "C", EXPC, "exponential polynomial")
    n += go("fpr.c", "fpr_gm_tab", [None, None] + [f for u in range(1, 1024) for f in (mp.cospi(mp.mpf(brv(u, 10)) / 1024), mp.sinpi(mp.mpf(brv(u, 10)) / 1024))],
            "transform table entry is the right power of the root", lambda a, b: b is None or feq(a, b) or (abs(b) < mp.mpf(2) ** -150 and a in (0, 1 << 63)), lambda x: mp.nstr(x, 20))
    n += go("fpr.c", "fpr_p2_tab", [mp.mpf(2) ** (1 - k) for k in range(11)], "power of two", feq, lambda x: mp.nstr(x, 20))
    n += go("shake.c", "RC", keccak_rc(), "Keccak round constant")
    n += go("rng.c", "CW", list(struct.unpack("<4I", b"expand 32-byte k")), "ChaCha constant")
    n += go("keygen.c", "REV10", [brv(i, 10) for i in range(1024)], "bit reversal")
    # key generation's Gaussian table
    nm, t = T.find("keygen.c", "gauss_1024_12289", GAUSS, lambda a, b: a == b)
    n += bool(table(r, "key generation Gaussian table", "keygen.c %s" % (nm or "gauss_1024_12289"), t, GAUSS))
    # primes
    nm, t = T.find("keygen.c", "PRIMES", [0], lambda a, b: False)
    if t:
        primes(r, "keygen.c %s" % nm, t); n += 1
    # coefficient widths
    n += go("codec.c", "max_fg_bits", [None, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5], "coefficient width")
    n += go("codec.c", "max_FG_bits", [None] + [8] * 10, "coefficient width")
    n += go("codec.c", "max_sig_bits", [None, 10, 11, 11, 12, 12, 12, 12, 12, 12, 12], "coefficient width")
    # extra samples of the constant-time hash: too few valid samples with probability below 2^-256
    nm, t = T.find("common.c", "overtab", [0, 65, 67, 71, 77, 86, 100, 122, 154, 205, 287], lambda a, b: a == b)
    if t:
        w = "common.c %s" % nm; r.unit(w, "10 entries"); n += 1
        for k in range(1, 11):
            ok = k < len(t) and isinstance(t[k], int) and overprob(1 << k, t[k]) < mp.mpf(2) ** -255
            r.check("enough extra samples", ok, w, "entry %d: fewer than %d valid samples among %s with probability above 2^-255" % (k, 1 << k, (1 << k) + t[k] if k < len(t) else "?"), key="%s:%d" % (w, k))
    # scalar constants of fpr.h
    try: h = open(os.path.join(CS, "fpr.h")).read()
    except OSError: h = ""
    h = re.sub(r"/\*.*?\*/|//[^\n]*", " ", h, flags=re.S)
    s0 = mp.mpf("1.8205")
    want = {"fpr_q": mp.mpf(Q), "fpr_inverse_of_q": mp.mpf(1) / Q, "fpr_inv_2sqrsigma0": 1 / (2 * s0 * s0), "fpr_log2": mp.log(2), "fpr_inv_log2": 1 / mp.log(2),
            "fpr_bnorm_max": mp.mpf("1.17") ** 2 * Q, "fpr_one": mp.mpf(1), "fpr_two": mp.mpf(2), "fpr_onehalf": mp.mpf(1) / 2, "fpr_invsqrt2": 1 / mp.sqrt(2),
            "fpr_invsqrt8": 1 / mp.sqrt(8), "fpr_ptwo31": mp.mpf(2) ** 31, "fpr_ptwo31m1": mp.mpf(2) ** 31 - 1, "fpr_mtwo31m1": -(mp.mpf(2) ** 31 - 1),
            "fpr_ptwo63": mp.mpf(2) ** 63, "fpr_ptwo63m1": mp.mpf(2) ** 63 - 1, "fpr_mtwo63m1": -(mp.mpf(2) ** 63 - 1)}
    for m in re.finditer(r"static\s+const\s+fpr\s+(\w+)\s*=\s*(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\s*;", h):
        if m.group(1) in want:
            w = want[m.group(1)]; v = int(m.group(2), 0); n += 1
            r.unit("fpr.h %s" % m.group(1), None)
            r.check("floating-point constant", v < 1 << 64 and feq(v, w), "fpr.h " + m.group(1), "%d is not the double of %s" % (v, mp.nstr(w, 20)))
    return n

def overprob(n, over):
    "probability that fewer than n of n+over samples are valid (a sample is valid with probability 61445/65536)"
    p = mp.mpf(61445) / 65536; m = n + over; tot = mp.mpf(0)
    t = mp.binomial(m, over + 1) * (1 - p) ** (over + 1) * p ** (m - over - 1); k = over + 1     # at least over+1 invalid
    while k <= m and (t > tot * mp.mpf(2) ** -80 or k < over + 4):
        tot += t; t = t * (m - k) / (k + 1) * (1 - p) / p; k += 1
    return tot

RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903, 8595902006365044063,
        1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299, 638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
RCDT24 = [x >> s & 0xFFFFFF for x in RCDT for s in (48, 24, 0)]
EXPC = [0x4741183A3, 0x36548CFC06, 0x24FDCBF140A, 0x171D939DE045, 0xD00CF58F6F84, 0x680681CF796E3, 0x2D82D8305B0FEA, 0x11111110E066FD0,
        0x555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800, 0x8000000000000000]
GAUSS = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527, 242543240509105209,
         91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641, 23590435911403, 3948334035941,
         586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]

def rcdt_def(r, where, got):
    "the table is the reverse cumulative distribution of the half-Gaussian of deviation 1.8205, up to the rounding the scheme documents"
    e, z = half_gauss(mp.mpf("1.8205"))
    for i, v in enumerate(got):
        w = mp.fsum(e[i + 1:]) / z * mp.mpf(2) ** 72
        r.check("sampler table", abs(v - w) <= 2 + w * mp.mpf(2) ** -38, where, "entry %d is %d, the distribution gives %s" % (i, v, mp.nstr(w, 25)), key="%s:dist" % where)

def primes(r, where, t):
    rows = [tuple(x) if isinstance(x, list) else None for x in t]
    r.unit(where, "%d primes" % len(rows))
    from sympy import isprime
    pr = 1; last = 1 << 31; seen = 0
    for i, x in enumerate(rows):
        if x is None or len(x) != 3 or not isinstance(x[0], int): 
            if i < len(rows) - 1: r.violate("small primes", where, "entry %d is not a triple" % i, key="%s:shape" % where)
            continue
        p, g, s = x
        if p == 0: break                     # end mark
        seen += 1
        ok = p < last and p % 2048 == 1 and isprime(p) and pow(g, 1024, p) == p - 1 and (i == 0 or s % p == pow(pr, -1, p) * (1 << 31) % p)
        r.check("small primes", ok, where, "entry %d (%d, %d, %d) is not a smaller prime congruent to 1 modulo 2048 with a root of X^1024+1 and the inverse of the product of its predecessors" % (i, p, g, s), key="%s:%d" % (where, i))
        last = p; pr *= p
    r.check("small primes", seen >= 308, where, "%d primes, the deepest level of key generation for degree 1024 uses 308" % seen)

def pyconsts(r):
    n = 0
    def scalar(f, name, ok, want, rule="scalar constant"):
        v = pymod(f).env.get(name, NO)
        if v is NO or not isinstance(v, (int, float)): r.notes.setdefault("not found", []).append("%s %s" % (f, name)); return 0
        r.unit("%s %s" % (f, name), None)
        r.check(rule, ok(v), "%s %s" % (f, name), "is %s, must be %s" % (v, want)); return 1
    close = lambda w, t: (lambda v: abs(mp.mpf(v) - w) <= t)
    n += scalar("common.py", "q", lambda v: v == Q, Q)
    n += scalar("falcon.py", "HEAD_LEN", lambda v: v == 1, 1)
    n += scalar("falcon.py", "SALT_LEN", lambda v: v == 40, 40)
    n += scalar("falcon_codec.py", "SALT_LEN", lambda v: v == 40, 40)
    n += scalar("samplerz.py", "MAX_SIGMA", lambda v: v == 1.8205, 1.8205)
    n += scalar("samplerz.py", "INV_2SIGMA2", close(1 / (2 * mp.mpf("1.8205") ** 2), mp.mpf(2) ** -50), "1/(2*1.8205^2)")
    n += scalar("samplerz.py", "RCDT_PREC", lambda v: v == 72, 72)
    n += scalar("samplerz.py", "LN2", close(mp.log(2), mp.mpf("1e-11")), "ln 2")
    n += scalar("samplerz.py", "ILN2", close(1 / mp.log(2), mp.mpf("1e-11")), "1/ln 2")
    eq = lambda a, b: a == b
    got = pytab("samplerz.py", "RCDT", RCDT, eq); n += bool(table(r, "sampler table", "samplerz.py RCDT", got, RCDT))
    if got: rcdt_def(r, "samplerz.py RCDT", got)
    got = pytab("samplerz.py", "C", EXPC, eq); n += bool(table(r, "exponential polynomial", "samplerz.py C", got, EXPC))
    got = pytab("mkgauss.py", "gauss_1024_12289", GAUSS, eq); n += bool(table(r, "key generation Gaussian table", "mkgauss.py gauss_1024_12289", got, GAUSS))
    got = pytab("keccak.py", "_KECCAK_RC", keccak_rc(), eq); n += bool(table(r, "Keccak round constant", "keccak.py _KECCAK_RC", got, keccak_rc()))
    # the deviation key generation of the reference uses: 1.17 sqrt(q / 8192)
    for f in ("ntrugen.py", "mkgauss.py"):
        for fn in ast.walk(pymod(f).tree):
            if not isinstance(fn, ast.FunctionDef): continue
            env = dict(pymod(f).env)
            for s in fn.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name): env[s.targets[0].id] = pyval(s.value, env)
            for c in ast.walk(fn):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "samplerz" and len(c.args) >= 3:
                    a = [pyval(x, env) for x in c.args[:3]]
                    if NO in a or not all(isinstance(x, (int, float)) for x in a): continue
                    n += 1; r.unit("%s %s" % (f, fn.name), "samplerz%s" % (tuple(a),))
                    w = mp.mpf("1.17") * mp.sqrt(mp.mpf(Q) / 8192)
                    r.check("key generation deviation", a[0] == 0 and abs(a[1] - w) < mp.mpf("1e-9") and 1 < a[2] <= a[1] <= 1.8205, "%s %s" % (f, fn.name), "samples with mean, deviation, minimal deviation %s; the definition asks for mean 0 and deviation %s" % (tuple(a), mp.nstr(w, 15)))
    # parameter sets
    P = pymod("falcon.py").env.get("Params", NO)
    if isinstance(P, dict):
        for k in sorted(x for x in P if isinstance(x, int)):
            d = P[k]; w = "falcon.py Params[%d]" % k
            if not isinstance(d, dict): continue
            r.unit(w, sorted(map(str, d)))
            r.check("parameter set", k in [1 << i for i in range(1, 11)] and d.get("n", k) == k, w, "degree %s" % d.get("n"))
            if k not in [1 << i for i in range(1, 11)]: continue
            for name, want, tol in (("sigma", sigma(k), mp.mpf("1e-9")), ("sigmin", sigma_min(k), mp.mpf("1e-11")), ("sig_bound", bound(k), 0)):
                v = d.get(name)
                if isinstance(v, (int, float)): n += 1; r.check("parameter set", abs(mp.mpf(v) - want) <= tol, w, "%s is %s, the definition gives %s" % (name, v, mp.nstr(want, 15)), key="%s:%s" % (w, name))
            L = {2: 44, 4: 47, 8: 52, 16: 63, 32: 82, 64: 122, 128: 200, 256: 356, 512: 666, 1024: 1280}[k]
            if "sig_bytelen" in d: n += 1; r.check("parameter set", d["sig_bytelen"] == L, w, "sig_bytelen is %s, the format's length is %d" % (d["sig_bytelen"], L), key="%s:len" % w)
    # complex roots
    D = pymod("fft_constants.py").env.get("roots_dict", NO)
    if isinstance(D, dict):
        tol = 4e-15
        for k in sorted(x for x in D if isinstance(x, int)):
            t = D[k]; w = "fft_constants.py roots_dict[%d]" % k
            if not isinstance(t, (list, tuple)) or not all(isinstance(x, (int, float, complex)) for x in t): r.violate("complex roots", w, "is not a table of numbers"); continue
            n += 1; r.unit(w, "%d entries" % len(t)); t = [complex(x) for x in t]
            if not r.check("complex roots", len(t) >= k, w, "%d entries" % len(t)): continue
            up = [complex(x) for x in D[k // 2]] if k > 2 and isinstance(D.get(k // 2), (list, tuple)) else [-1 + 0j]
            for i in range(k // 2):
                want = complex(mp.sqrt(mp.mpc(exact_root(k // 2, i))))
                ok = min(abs(t[2 * i] - want), abs(t[2 * i] + want)) <= tol and abs(t[2 * i + 1] + t[2 * i]) <= tol and (i >= len(up) or abs(t[2 * i] ** 2 - up[i]) <= 4 * tol)
                r.check("complex roots", ok, w, "entries %d and %d (%s, %s) are not the two square roots of entry %d of the level below" % (2 * i, 2 * i + 1, t[2 * i], t[2 * i + 1], i), key=w)
            for i in range(k // 2):
                r.check("complex roots", abs(t[i + k // 2] - t[i].conjugate()) <= tol, w, "entry %d is not the conjugate of entry %d" % (i + k // 2, i), key=w + ":conj")
    return n

_er = {1: [mp.mpc(-1)]}
def exact_root(k, i):
    "place i of the canonical root list of X^k+1 (principal square roots, each followed by its negation)"
    if k not in _er:
        _er[k] = []
        for j in range(k // 2):
            s = mp.sqrt(exact_root(k // 2, j)); _er[k] += [s, -s]
    return _er[k][i]

def solconsts(r):
    n = 0
    p = Prog(SRC)
    M = S.Machine(p)
    want = {"q": Q, "qs1": (Q - 1) // 2, "n": 512, "nm1modq": pow(512, -1, Q), "kq": 5 * Q, "sigBound": bound(512), "sigBytesLen": 666, "max_in_len": 666, "SALT_LEN": 40,
            "_RATE": 136, "mask16": 0xFFFF, "MASK_2BYTES": 0xFFFF, "chunk16Byword": 16, "falcon_S256": 32, "_FALCON_WORD256_S": 32, "_FALCON_WORD32_S": 512}
    for name, places in sorted(p.consts.items()):
        if name not in want: continue
        for f, c in places:
            try: v = M.const(c[1])
            except Exception: continue
            n += 1; w = "%s %s" % (os.path.basename(f), name); r.unit(w, None)
            r.check("scalar constant", v == want[name], w, "is %s, must be %s" % (v, want[name]))
    for cn, c in sorted(p.contracts.items()):
        for name, v in sorted(c["vars"].items()):
            if name in want and name not in ("n", "q") and v[1] is not None:
                try: x = M.const(v[1])
                except Exception: continue
                n += 1; w = "contract %s %s" % (cn, name); r.unit(w, None)
                r.check("scalar constant", x == want[name], w, "is %s, must be %s" % (x, want[name]))
    # tables of root powers, plain or packed sixteen to a word
    b9 = [brv(i, 9) for i in range(512)]
    psi = [pow(49, b, Q) for b in b9]; inv = [pow(pow(49, -1, Q), b, Q) for b in b9]
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".sol"): continue
        try: s = open(os.path.join(SRC, f)).read()
        except OSError: continue
        s = re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S)
        for m in re.finditer(r"(\w+)\s*=\s*\[([^\[\]]*)\]", s):
            vals = []
            for x in m.group(2).split(","):
                y = re.fullmatch(r"\s*(?:uint\d*\s*\(\s*)?(0[xX][0-9a-fA-F]+|\d+)\s*\)?\s*", x)
                if y: vals.append(int(y.group(1), 0))
                elif x.strip(): vals = None; break
            if not vals or len(vals) not in (32, 512): continue
            if len(vals) == 32: vals = [w >> (16 * i) & 0xFFFF for w in vals for i in range(16)]
            k = [sum(a == b for a, b in zip(vals, t)) for t in (psi, inv)]
            if max(k) < 128: continue
            w = "%s line %d %s" % (f, s.count("\n", 0, m.start()) + 1, m.group(1)); n += 1
            isinv = k[1] > k[0]; nm = m.group(1).lower()
            table(r, "transform table entry is the right power of the root", "%s %s" % (f, m.group(1)), vals, inv if isinv else psi)
            if re.search(r"\b\w*inv\w*\s*=\s*\[", s, re.I): r.check("table under its name", ("inv" in nm) == isinv, w, "holds the powers of the %s root" % ("inverse" if isinv else "forward"))
    return n
