"""Compile the C sources of /repo's working tree to LLVM IR text (front end only) and parse it."""
import os, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import llvmir

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/falcon/nistfalcon/src"
CLANG = next((c for c in ("clang-18", "clang") if shutil.which(c)), "clang")
OPT = next((c for c in ("opt-18", "opt") if shutil.which(c)), "opt")

class BuildError(Exception): pass

_cache = {}
def unit(fname, eth=False):
    """fname: file name below the nistfalcon source folder"""
    k = (fname, eth)
    if k in _cache: return _cache[k]
    p = os.path.join(SRC, fname)
    if not os.path.exists(p): raise BuildError("missing source file " + p)
    cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-gline-tables-only", "-S", "-emit-llvm", "-w",
           "-DALGNAME=falcon512int", "-I", SRC, "-o", "-", p]
    if eth: cmd[1:1] = ["-DETHFALCON"]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=SRC)
    if r.returncode: raise BuildError("cannot compile %s: %s" % (fname, r.stderr[:400]))
    r2 = subprocess.run([OPT, "-S", "-passes=function(sroa,instsimplify,dce)"], input=r.stdout, capture_output=True, text=True)
    if r2.returncode: raise BuildError("opt failed on %s: %s" % (fname, r2.stderr[:400]))
    m = llvmir.parse(r2.stdout, fname + ("+ETHFALCON" if eth else ""))
    m.source = "falcon/nistfalcon/src/" + fname
    _cache[k] = m
    return m

LIB = ["codec.c", "common.c", "keccak256.c", "keccak_prng.c", "shake.c", "vrfy.c"]

def units(names, eth=False):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda n: unit(n, eth), names))

_lay = {}
def layout(fname, typename, eth=False):
    """member name -> (offset, size) of a struct, nested members included, from the compiler's debug information"""
    import re
    k = (fname, eth)
    if k not in _lay:
        p = os.path.join(SRC, fname)
        cmd = [CLANG, "-O0", "-g", "-S", "-emit-llvm", "-w", "-DALGNAME=falcon512int", "-I", SRC, "-o", "-", p]
        if eth: cmd[1:1] = ["-DETHFALCON"]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=SRC)
        if r.returncode: raise BuildError("cannot compile %s: %s" % (fname, r.stderr[:400]))
        md = {}
        for ln in r.stdout.splitlines():
            x = re.match(r"(!\d+) = (?:distinct )?!(\w*)[({](.*)[)}]$", ln)
            if x: md[x.group(1)] = (x.group(2), x.group(3))
        _lay[k] = md
    md = _lay[k]
    def fld(b, n):
        x = re.search(r"\b%s: (\"[^\"]*\"|[^,]+)" % n, b); return x.group(1).strip('"') if x else None
    def strip(i):
        while i and md[i][0] == "DIDerivedType" and ("DW_TAG_typedef" in md[i][1] or "DW_TAG_const" in md[i][1] or "DW_TAG_volatile" in md[i][1]): i = fld(md[i][1], "baseType")
        return i
    def members(i, base, out):
        i = strip(i)
        if not i or md[i][0] != "DICompositeType" or "array" in md[i][1]: return
        for e in re.findall(r"!\d+", md[fld(md[i][1], "elements")][1]):
            b = md[e][1]; off = base + int(fld(b, "offset") or 0) // 8
            if fld(b, "name"): out[fld(b, "name")] = (off, int(fld(b, "size")) // 8)
            members(fld(b, "baseType"), off, out)
    for i, (t, b) in md.items():
        if t in ("DIDerivedType", "DICompositeType") and fld(b, "name") == typename and ("typedef" in b or "struct" in b):
            out = {}; members(i, 0, out)
            j = strip(i)
            out[""] = (0, int(fld(md[j][1], "size")) // 8)
            return out
    raise BuildError("%s: no type %s" % (fname, typename))
