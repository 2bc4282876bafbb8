"""Parser for the part of Solidity and Yul this repository uses."""
import os, re

class ParseError(Exception): pass
TOK = re.compile(r'''(?P<ws>\s+)|(?P<c>//[^\n]*|/\*.*?\*/)|(?P<num>0x[0-9a-fA-F_]+|\d[\d_]*(?:e\d+)?)|(?P<str>(?:hex|unicode)?"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<id>[A-Za-z_$][A-Za-z_$0-9]*)|(?P<op>>>>=|<<=|>>=|>>>|\*\*|=>|->|:=|\+\+|--|\|\||&&|==|!=|<=|>=|<<|>>|\+=|-=|\*=|/=|%=|\|=|&=|\^=|[-+*/%<>=!~&|^?:;,.(){}\[\]])''', re.S)

def lex(s):
    out = []; i = 0; line = 1
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise ParseError("character %r at line %d" % (s[i], line))
        k = m.lastgroup; t = m.group()
        if k not in ("ws", "c"): out.append((k, t, line))
        line += t.count("\n"); i = m.end()
    out.append(("eof", "", line))
    return out

ELEM = re.compile(r"^(u?int\d*|bytes\d*|address|bool|string|byte)$")
PREC = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("|",), ("^",), ("&",), ("<<", ">>", ">>>"), ("+", "-"), ("*", "/", "%")]
ASG = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}

class Fun:
    def __init__(self, name, file, contract, params, rets, body, line, mods):
        self.name = name; self.file = file; self.contract = contract; self.params = params; self.rets = rets; self.body = body; self.line = line; self.mods = mods
    @property
    def where(self): return "%s.%s" % (self.contract or self.file[:-4], self.name)

class Parser:
    def __init__(self, text, file): self.t = lex(text); self.i = 0; self.file = file
    def peek(self, k=0): return self.t[min(self.i + k, len(self.t) - 1)]
    def at(self, s, k=0): x = self.peek(k); return x[1] == s and x[0] != "str"
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, s):
        if not self.at(s): raise ParseError("%s:%d: %r expected, %r found" % (self.file, self.peek()[2], s, self.peek()[1]))
        return self.next()
    def opt(self, s):
        if self.at(s): self.next(); return True
        return False
    def ident(self):
        x = self.next()
        if x[0] != "id": raise ParseError("%s:%d: identifier expected, %r found" % (self.file, x[2], x[1]))
        return x[1]
    def skip_to(self, s):
        d = 0
        while True:
            x = self.next()
            if x[0] == "eof": raise ParseError("%s: no %r" % (self.file, s))
            if x[1] in ("(", "{", "[") and x[0] == "op": d += 1
            if x[1] in (")", "}", "]") and x[0] == "op": d -= 1
            if d <= 0 and x[1] == s: return
    # ---------------------------------------------------------- declarations
    def unit(self):
        u = {"funs": [], "consts": {}, "structs": {}, "contracts": {}}
        while self.peek()[0] != "eof":
            if self.at("pragma") or self.at("import") or self.at("using") or self.at("error") or self.at("event"): self.skip_to(";")
            elif self.at("function"): u["funs"].append(self.function(None))
            elif self.at("contract") or self.at("library") or self.at("interface") or self.at("abstract"): self.contract(u)
            elif self.at("struct"): self.struct(u)
            elif self.at("enum"): self.skip_to("}")
            elif self.at(";"): self.next()
            else: self.var(u["consts"])
        return u
    def struct(self, u):
        self.eat("struct"); n = self.ident(); self.eat("{"); f = []
        while not self.opt("}"):
            t = self.type(); f.append((t, self.ident())); self.eat(";")
        u["structs"][n] = f
    def var(self, into):
        l = self.peek()[2]; t = self.type()
        while self.peek()[1] in ("constant", "public", "private", "internal", "immutable", "override", "transient"): self.next()
        n = self.ident(); e = self.expr() if self.opt("=") else None
        self.eat(";"); into[n] = (t, e, l)
    def contract(self, u):
        self.opt("abstract"); self.next(); n = self.ident()
        while not self.at("{"): self.next()
        self.eat("{"); c = {"funs": [], "vars": {}, "name": n}; u["contracts"][n] = c
        while not self.opt("}"):
            if self.at("function") or self.at("constructor") or self.at("receive") or self.at("fallback"): c["funs"].append(self.function(n))
            elif self.at("struct"): self.struct(u)
            elif self.peek()[1] in ("using", "event", "error"): self.skip_to(";")
            elif self.peek()[1] in ("modifier", "enum"): self.skip_to("}")
            elif self.at("mapping"): self.skip_to(";")
            else: self.var(c["vars"])
    def type(self):
        if self.at("mapping"): raise ParseError("mapping")
        t = self.ident()
        if t == "address" and self.at("payable"): self.next()
        while self.at(".") : self.next(); t += "." + self.ident()
        while self.at("["):
            self.next()
            if self.opt("]"): t = ("dyn", t)
            else: e = self.expr(); self.eat("]"); t = ("fix", t, e)
        return t
    def params(self):
        self.eat("("); out = []
        while not self.at(")"):
            t = self.type(); loc = None
            while self.peek()[1] in ("memory", "calldata", "storage", "indexed"): loc = self.next()[1]
            n = self.ident() if self.peek()[0] == "id" else None
            out.append((t, loc, n))
            if not self.opt(","): break
        self.eat(")"); return out
    def function(self, contract):
        l = self.next()[2]; n = self.ident() if self.peek()[0] == "id" and not self.at("(") else "constructor"
        ps = self.params(); rets = []; mods = []
        while not self.at("{") and not self.at(";"):
            if self.at("returns"): self.next(); rets = self.params()
            else:
                mods.append(self.next()[1])
                if self.at("("): self.skip_to(")")
        body = None if self.opt(";") else self.block()
        return Fun(n, self.file, contract, ps, rets, body, l, mods)
    # ---------------------------------------------------------- statements
    def block(self):
        self.eat("{"); out = []
        while not self.opt("}"): out.append(self.stmt())
        return out
    def body(self): return self.block() if self.at("{") else [self.stmt()]
    def stmt(self):
        x = self.peek(); l = x[2]; s = x[1] if x[0] != "str" else None
        if s == "{": return ("block", l, self.block())
        if s == "unchecked" and self.at("{", 1): self.next(); return ("block", l, self.block())
        if s == "if":
            self.next(); self.eat("("); c = self.expr(); self.eat(")"); a = self.body(); b = self.body() if self.opt("else") else []
            return ("if", l, c, a, b)
        if s == "while":
            self.next(); self.eat("("); c = self.expr(); self.eat(")"); return ("loop", l, [], c, [], self.body())
        if s == "do":
            self.next(); b = self.body(); self.eat("while"); self.eat("("); c = self.expr(); self.eat(")"); self.eat(";")
            return ("block", l, b + [("loop", l, [], c, [], b)])
        if s == "for":
            self.next(); self.eat("(")
            i = [] if self.opt(";") else [self.stmt()]
            c = None if self.at(";") else self.expr(); self.eat(";")
            p = [] if self.at(")") else [("expr", l, self.expr())]; self.eat(")")
            return ("loop", l, i, c, p, self.body())
        if s == "return":
            self.next(); e = None if self.at(";") else self.expr(); self.eat(";"); return ("return", l, e)
        if s in ("break", "continue"): self.next(); self.eat(";"); return (s, l)
        if s == "revert" :
            self.next()
            if self.at(";"): self.next()
            else: self.skip_to(";")
            return ("revert", l)
        if s == "emit": self.skip_to(";"); return ("block", l, [])
        if s == "assembly":
            self.next()
            if self.peek()[0] == "str": self.next()
            if self.at("("): self.skip_to(")")
            return ("asm", l, self.yblock())
        if s == "delete": self.next(); e = self.expr(); self.eat(";"); return ("expr", l, ("delete", l, e))
        d = self.try_decl()
        if d: return d
        e = self.expr(); self.eat(";"); return ("expr", l, e)
    def try_decl(self):
        i = self.i; l = self.peek()[2]
        try:
            if self.at("("):
                self.next(); vs = []; any_ = False
                while True:
                    if self.at(",") or self.at(")"): vs.append(None)
                    else:
                        t = self.type(); loc = None
                        while self.peek()[1] in ("memory", "calldata", "storage"): loc = self.next()[1]
                        vs.append((t, self.ident())); any_ = True
                    if not self.opt(","): break
                self.eat(")"); self.eat("=")
                if not any_: raise ParseError("no declaration")
                e = self.expr(); self.eat(";"); return ("decl", l, vs, e)
            t = self.type()
            while self.peek()[1] in ("memory", "calldata", "storage"): self.next()
            if self.peek()[0] != "id": raise ParseError("no declaration")
            n = self.ident()
            if not (self.at("=") or self.at(";")): raise ParseError("no declaration")
            e = self.expr() if self.opt("=") else None
            self.eat(";"); return ("decl", l, [(t, n)], e)
        except ParseError:
            self.i = i; return None
    # ---------------------------------------------------------- expressions
    def expr(self):
        l = self.peek()[2]; a = self.ternary()
        if self.peek()[1] in ASG and self.peek()[0] == "op":
            o = self.next()[1]; return ("assign", l, o[:-1], a, self.expr())
        return a
    def ternary(self):
        l = self.peek()[2]; a = self.binary(0)
        if self.opt("?"):
            b = self.expr(); self.eat(":"); return ("cond", l, a, b, self.expr())
        return a
    def binary(self, k):
        if k == len(PREC): return self.power()
        a = self.binary(k + 1)
        while self.peek()[0] == "op" and self.peek()[1] in PREC[k]:
            o = self.next(); a = ("bin", o[2], o[1], a, self.binary(k + 1))
        return a
    def power(self):
        a = self.unary()
        if self.at("**"): o = self.next(); return ("bin", o[2], "**", a, self.power())
        return a
    def unary(self):
        x = self.peek()
        if x[0] == "op" and x[1] in ("!", "~", "-", "++", "--"): self.next(); return ("un", x[2], x[1], self.unary())
        if x[1] == "new" and x[0] == "id":
            self.next(); t = self.type(); self.eat("("); a = self.args(); return ("new", x[2], t, a)
        return self.postfix()
    def args(self):
        out = []
        if self.opt(")"): return out
        if self.at("{"):
            self.skip_to("}"); self.eat(")"); raise ParseError("named arguments")
        while True:
            out.append(self.expr())
            if self.opt(")"): return out
            self.eat(",")
    def postfix(self):
        a = self.primary()
        while True:
            x = self.peek()
            if x[0] != "op": return a
            if x[1] == "(": self.next(); a = ("call", x[2], a, self.args())
            elif x[1] == "[":
                self.next()
                if self.opt("]"): a = ("typ", x[2], a)
                else:
                    e = None if self.at(":") else self.expr()
                    if self.opt(":"):
                        f = None if self.at("]") else self.expr(); self.eat("]"); a = ("slice", x[2], a, e, f)
                    else: self.eat("]"); a = ("index", x[2], a, e)
            elif x[1] == ".": self.next(); a = ("member", x[2], a, self.ident())
            elif x[1] in ("++", "--"): self.next(); a = ("post", x[2], x[1], a)
            elif x[1] == "{" and self.peek(1)[0] == "id" and self.at(":", 2):
                self.skip_to("}")
            else: return a
    def primary(self):
        x = self.next()
        if x[0] == "num":
            s = x[1].replace("_", "")
            if "e" in s and not s.startswith("0x"): m, e = s.split("e"); return ("num", x[2], int(m) * 10 ** int(e))
            v = int(s, 0 if s.startswith("0x") else 10)
            if self.peek()[1] in ("wei", "gwei", "ether", "seconds"): self.next()
            return ("num", x[2], v)
        if x[0] == "str":
            s = x[1]
            if s.startswith("hex"): return ("bytes", x[2], bytes.fromhex(s[4:-1].replace("_", "")))
            return ("str", x[2], s[1:-1])
        if x[1] == "(" :
            es = []
            while True:
                if self.at(",") or self.at(")"): es.append(None)
                else: es.append(self.expr())
                if not self.opt(","): break
            self.eat(")")
            return es[0] if len(es) == 1 and es[0] is not None else ("tuple", x[2], es)
        if x[1] == "[":
            es = []
            while not self.at("]"):
                es.append(self.expr())
                if not self.opt(","): break
            self.eat("]"); return ("list", x[2], es)
        if x[1] in ("true", "false"): return ("bool", x[2], x[1] == "true")
        if x[0] == "id": return ("name", x[2], x[1])
        raise ParseError("%s:%d: unexpected %r" % (self.file, x[2], x[1]))
    # ---------------------------------------------------------- yul
    def yblock(self):
        self.eat("{"); out = []
        while not self.opt("}"): out.append(self.ystmt())
        return out
    def ystmt(self):
        x = self.peek(); l = x[2]
        if x[1] == "{": return ("block", l, self.yblock())
        if x[1] == "let":
            self.next(); ns = [self.ident()]
            while self.opt(","): ns.append(self.ident())
            return ("ylet", l, ns, self.yexpr() if self.opt(":=") else None)
        if x[1] == "if": self.next(); c = self.yexpr(); return ("if", l, c, self.yblock(), [])
        if x[1] == "for":
            self.next(); i = self.yblock(); c = self.yexpr(); p = self.yblock(); return ("loop", l, i, c, p, self.yblock())
        if x[1] == "switch":
            self.next(); e = self.yexpr(); cs = []; d = []
            while self.at("case"): self.next(); v = self.yexpr(); cs.append((v, self.yblock()))
            if self.opt("default"): d = self.yblock()
            out = d
            for v, b in reversed(cs): out = [("if", l, ("ycall", l, "eq", [e, v]), b, out)]
            return ("block", l, out)
        if x[1] in ("break", "continue", "leave"): self.next(); return (x[1], l)
        if x[1] == "function": raise ParseError("%s:%d: Yul function" % (self.file, l))
        if x[0] == "id":
            if self.peek(1)[1] in (":=", ",") or self.at(".", 1):
                ns = [self.yname()]
                while self.opt(","): ns.append(self.yname())
                if self.opt(":="): return ("yset", l, ns, self.yexpr())
                raise ParseError("%s:%d: assignment expected" % (self.file, l))
        return ("expr", l, self.yexpr())
    def yname(self):
        n = self.ident()
        while self.opt("."): n += "." + self.ident()
        return n
    def yexpr(self):
        x = self.next()
        if x[0] == "num": return ("num", x[2], int(x[1].replace("_", ""), 0))
        if x[0] == "str":
            return ("num", x[2], int.from_bytes(x[1][1:-1].encode().ljust(32, b"\0"), "big"))
        if x[1] in ("true", "false"): return ("num", x[2], int(x[1] == "true"))
        if x[0] != "id": raise ParseError("%s:%d: unexpected %r" % (self.file, x[2], x[1]))
        n = x[1]
        while self.opt("."): n += "." + self.ident()
        if self.at("("):
            self.next(); a = []
            while not self.at(")"):
                a.append(self.yexpr())
                if not self.opt(","): break
            self.eat(")"); return ("ycall", x[2], n, a)
        return ("name", x[2], n)

class Prog:
    """every Solidity source of the directory, by name"""
    def __init__(self, root):
        self.funs = {}; self.consts = {}; self.structs = {}; self.contracts = {}; self.units = {}; self.broken = {}
        for f in sorted(os.listdir(root)):
            if not f.endswith(".sol"): continue
            try: u = Parser(open(os.path.join(root, f)).read(), f).unit()
            except ParseError as e: self.broken[f] = str(e); continue
            self.units[f] = u
            for g in u["funs"]: self.funs.setdefault(g.name, []).append(g)
            for n, c in u["consts"].items(): self.consts.setdefault(n, []).append((f, c))
            self.structs.update(u["structs"]); self.contracts.update(u["contracts"])
