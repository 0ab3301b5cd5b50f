"""Compiles a contract file together with /repo's current headers to LLVM IR."""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
CXX = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"


def tool(n):
    for p in ("/usr/bin/%s-18" % n, "/usr/lib/llvm-18/bin/%s" % n, "/usr/bin/" + n):
        if os.path.exists(p):
            return p
    return n


def inc(native=False):
    r = []
    if not native:
        r += ["-I" + os.path.join(VERIF, "shim")]
    r += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "contracts"), "-I" + os.path.join(VERIF, "stubs")]
    return r


DEFS = ["-std=c++20", '-DHUIRA_VERSION="0"', '-DHUIRA_DEFAULT_DATA_DIR="/x"', "-w"]


class CompileError(Exception):
    pass


def emit(src, out, defs=()):
    """-> path of the textual IR"""
    raw = out + ".raw.ll"
    cmd = [CXX] + DEFS + list(defs) + ["-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-threadsafe-statics",
           "-S", "-emit-llvm"] + inc() + [src, "-o", raw]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[-4000:])
    p = subprocess.run([tool("opt"), "-S", "-speculate-one-expensive-inst=false", "-two-entry-phi-node-folding-threshold=0", "-phi-node-folding-threshold=0", "-passes=function(sroa,simplifycfg)", raw, "-o", out], capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[-4000:])
    os.unlink(raw)
    return out


def demangle(names):
    p = subprocess.run([tool("llvm-cxxfilt")], input="\n".join(n.strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(["@" + n for n in names], p.stdout.split("\n")))
