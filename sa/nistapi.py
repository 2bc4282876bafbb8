"""Analysis of the NIST-style entry points (open / sign / keypair) with library calls replaced by contracts."""
import time
from .values import *
from .state import *
from .interp import Interp, GiveUp
from . import cbuild, contracts
from .contracts import Contracts, Group, PFX, N

SKB, PKB, ZPKB = 1281, 897, 1025
NONCE = 40
CAP = 1 << 40          # no object is larger than this

def inobj(st, name, size, default="input", **k):
    st.mem[name] = Obj(name, size, default, **k)
    return P(name, C(64, 0))

class Run:
    """one analysed entry point"""
    def __init__(self, unit, eth, fn):
        self.unit = unit; self.eth = eth; self.fn = fn
        self.title = "%s (%s%s)" % (fn, unit, ", -DETHFALCON" if eth else "")
        self.rets = []; self.ip = None; self.st0 = None; self.stores = []
    def start(self):
        mods = cbuild.units([self.unit], self.eth)
        cod = cbuild.unit("codec.c")
        self.ip = ip = Interp(mods, memo=False)
        # constant tables of the library are visible to the callers
        for g in cod.globals.values():
            if not g.internal and not g.external: ip.globals.setdefault(g.name, g)
        self.con = Contracts(ip)
        f = mods[0].funcs.get(self.fn)
        if f is None: raise GiveUp("entry point %s not found in %s" % (self.fn, self.unit))
        self.f = f
        return ip
    def go(self, args, st):
        t = time.time()
        self.rets = self.ip.run(self.f, args, st)
        self.wall = time.time() - t

def lenarg(st, name, hi=CAP):
    s = Sym(name, 0, hi)
    return s, V(64, 0, hi, (0, {s: 1}), 64)

OPENERS = [("nist.c", False, "crypto_sign_open", PKB), ("nist.c", True, "crypto_sign_open", PKB),
           ("nist16.c", False, "zknox_crypto_sign_open", ZPKB), ("nist16.c", True, "zknox_crypto_sign_open", ZPKB),
           ("epervier16.c", False, "zknox_crypto_sign_open_epervier", ZPKB)]
SIGNERS = [("nist.c", False, "crypto_sign", 690), ("nist.c", True, "crypto_sign", 690),
           ("nist16.c", False, "zknox_crypto_sign", 1067), ("nist16.c", True, "zknox_crypto_sign", 1067),
           ("epervier16.c", False, "zknox_crypto_sign_epervier", 2094)]
KEYGENS = [("nist.c", False, "crypto_sign_keypair", PKB, False), ("nist.c", False, "crypto_sign_keypair_from_seed", PKB, True),
           ("nist16.c", False, "zknox_crypto_sign_keypair", ZPKB, False),
           ("nist16.c", False, "zknox_crypto_sign_keypair_from_seed", ZPKB, True)]

_cache = {}
def opener(unit, eth, fn, pkb):
    k = (unit, eth, fn)
    if k in _cache: return _cache[k]
    r = Run(unit, eth, fn); ip = r.start()
    st = State()
    s, v = lenarg(st, "smlen")
    r.smlen = s
    args = [inobj(st, "m", (0, {s: 1}), "uninit", watch=True), inobj(st, "mlen", 8, "uninit", watch=True),
            inobj(st, "sm", (0, {s: 1})), v, inobj(st, "pk", pkb)]
    r.args = args
    hook_stores(r, ("m", "mlen"))
    r.go(args, st)
    _cache[k] = r
    return r

def hook_stores(r, names):
    def on_store(ip, st, o, c, L, n, v, ctx):
        if o.name in names:
            r.stores.append((o.name, L, n, v, ip.where(ctx), tuple(st.ev)))
    r.ip.on_store = on_store

def signer(unit, eth, fn, over):
    k = (unit, eth, fn)
    if k in _cache: return _cache[k]
    r = Run(unit, eth, fn); ip = r.start()
    st = State()
    s, v = lenarg(st, "mlen", 1 << 39)
    r.mlen = s; r.over = over
    args = [inobj(st, "sm", (over, {s: 1}), "uninit", watch=True), inobj(st, "smlen", 8, "uninit", watch=True),
            inobj(st, "m", (0, {s: 1})), v, inobj(st, "sk", SKB, lab=contracts.L_SECRET)]
    r.args = args
    hook_stores(r, ("sm", "smlen"))
    r.go(args, st)
    _cache[k] = r
    return r

def keypair(unit, eth, fn, pkb, seeded):
    k = (unit, eth, fn)
    if k in _cache: return _cache[k]
    r = Run(unit, eth, fn); ip = r.start()
    st = State(); r.pkb = pkb; r.seeded = seeded
    args = [inobj(st, "pk", pkb, "uninit", watch=True), inobj(st, "sk", SKB, "uninit", watch=True)]
    if seeded:
        s, v = lenarg(st, "seedlen"); r.seedlen = s
        args += [inobj(st, "seed", (0, {s: 1}), lab=contracts.L_SEED), v]
    hook_stores(r, ("pk", "sk"))
    r.go(args, st)
    _cache[k] = r
    return r

def retconst(st, v):
    """constant returned, or None"""
    if not isinstance(v, V): return None
    lo, hi = st.sr(v)
    return lo if lo == hi else None

def pkconv():
    """zknox_pk_epervier: in-place conversion of a 16-bit public key"""
    k = "pkconv"
    if k in _cache: return _cache[k]
    r = Run("epervier16.c", False, "zknox_pk_epervier"); ip = r.start()
    st = State()
    r.args = [inobj(st, "pk", ZPKB)]
    hook_stores(r, ("pk",))
    r.go(r.args, st)
    _cache[k] = r
    return r
