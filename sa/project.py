"""Builds the exporter, exports /repo's current sources (and the witness units) and loads the resolved program."""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPARROW_REPO", "/repo")
BUILD = os.environ.get("SPARROW_VERIF_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18"
FLAGS = ["-std=c++20", "-DSPARROW_USE_DATE_POLYFILL", "-DUSE_OS_TZDB=1", "-DHAS_STRING_VIEW=1", "-DONLY_C_LOCALE=1",
         "-w", "-resource-dir", LLVM + "/lib/clang/18", "-DSPARROW_ASSERT(e,m)=if(!(e)){__builtin_trap();}"]


class ToolError(Exception):
    pass


def sha(*chunks):
    h = hashlib.sha256()
    for c in chunks:
        h.update(c if isinstance(c, bytes) else c.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_files():
    out = []
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash():
    return sha(*[p + "\n" + open(p, "rb").read().decode("utf8", "replace") for p in tree_files()])


def exporter():
    src = os.path.join(VERIF, "tool/exporter.cpp")
    h = sha(open(src, "rb").read())
    out = os.path.join(BUILD, "exporter-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + f".{os.getpid()}.tmp"
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-w", "-I" + LLVM + "/include",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18", "-L" + LLVM + "/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("building the exporter failed:\n" + r.stderr[-4000:])
    os.rename(tmp, out)
    return out


def sources():
    return sorted(p for p in tree_files() if p.startswith(os.path.join(REPO, "src")) and p.endswith(".cpp"))


def export(src, key, exp):
    name = os.path.basename(src).replace(".cpp", "")
    out = os.path.join(BUILD, f"x-{name}-{sha(key, src, open(src, 'rb').read())}.json")
    if os.path.exists(out):
        return out
    tmp = out + f".{os.getpid()}.tmp"
    cmd = [exp, src, tmp, f"{REPO}/include,{REPO}/src,{VERIF}/witness", "--"] + FLAGS + \
          [f"-I{REPO}/include", f"-I{VERIF}/witness"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(tmp):
        raise ToolError(f"exporting {src} failed:\n" + (r.stdout + r.stderr)[-4000:])
    os.rename(tmp, out)
    return out


def export_all(witness=()):
    """paths of the exports of every source file of the library plus the given witness units"""
    exp = exporter()
    os.makedirs(BUILD, exist_ok=True)
    wd = os.path.join(VERIF, "witness")
    key = sha(tree_hash(), exp, *[open(p, "rb").read() for p in sorted(glob.glob(wd + "/*.hpp"))])
    prune(key)
    srcs = [os.path.join(wd, w + ".cpp") for w in witness] + sources()
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda s: export(s, key, exp), srcs))
    return res


def prune(key, limit=60):
    """drop old exports, newest kept"""
    fs = sorted(glob.glob(BUILD + "/x-*.json"), key=os.path.getmtime)
    for p in fs[:-limit] if len(fs) > limit else []:
        try:
            os.unlink(p)
        except OSError:
            pass


def program(witness=()):
    from .engine import Program
    ps = export_all(witness)
    P = Program(ps)
    P.paths = ps
    return P
