"""Looks for an input on which the compiled code violates a contract whose proof failed: the verifier's
counterexample first, then generated inputs. Each run is a child process with the sanitizers on."""
import json
import math
import os
import struct
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import build

ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=5:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_container_overflow=1",
       "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=5"}


def compile_native(src, exe, kinds):
    san = "address,undefined"
    if "fptoint" in kinds:
        san += ",float-cast-overflow"
    if "fdiv" in kinds or "divzero" in kinds:
        san += ",float-divide-by-zero"
    # the real headers, except for the logger
    cmd = [build.CXX] + build.DEFS + ["-O1", "-g1", "-fsanitize=" + san, "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function", "-ffp-contract=off", "-rdynamic", "-D_GLIBCXX_ASSERTIONS",
                                      "-DVC_NATIVE"] + build.inc() + \
        [src, os.path.join(build.VERIF, "contracts", "vc_native.cpp"), "-o", exe, "-lfftw3", "-lfftw3f", "-ltbb", "-ldl", "-lpthread"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-2000:]


def run(args, limit, cwd):
    env = dict(os.environ)
    env.update(ENV)
    try:
        p = subprocess.run(args, capture_output=True, text=True, errors="replace", timeout=limit, env=env, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def verdict(rc, out, err):
    """-> description of the failure, or None"""
    if rc in (0, 9, None):
        return None
    for l in out.split("\n"):
        if l.startswith("FAILED "):
            return "contract clause fails: " + l[7:]
    for l in err.split("\n"):
        if "runtime error:" in l or "ERROR: AddressSanitizer" in l:
            if "allocation-size-too-big" in l or "out-of-memory" in l or "requested allocation size" in l:
                return None
            return l.strip()[-300:]
    if rc == -6 or "terminate called" in err:
        return "uncaught exception or abort: " + err.strip()[-200:]
    if rc < 0:
        return "signal %d" % -rc
    return None


def inputs_of(out):
    d = {}
    for l in out.split("\n"):
        if l.startswith("INPUT "):
            p = l.split()
            d[p[1]] = p[2]
    return d


def search(pid, viol, cdir, tmp, seed, budget=150):
    t_end = time.time() + budget
    files = {}
    for r, f in viol:
        if f["kind"] in ("compile",):
            continue
        files.setdefault(r["file"], {"kinds": set(), "contracts": {}})
        files[r["file"]]["kinds"].add(f["kind"])
        c = files[r["file"]]["contracts"].setdefault(r["contract"], {"models": [], "consts": set()})
        if f.get("model"):
            c["models"].append(f["model"])
        c["consts"] |= set(f.get("consts", []))
    for fn, d in files.items():
        exe = os.path.join(tmp, fn + ".exe")
        ok, err = compile_native(os.path.join(cdir, fn), exe, d["kinds"])
        if not ok:
            continue
        for cn, c in list(d["contracts"].items())[:8]:
            real = not (cn.startswith("FP__") or cn.startswith("BV__"))
            cf = os.path.join(tmp, "consts")
            with open(cf, "w") as h:
                for v in sorted(c["consts"]):
                    if math.isfinite(v) and abs(v) < 1e6 or not real:
                        h.write("%r\n" % v)
            for i, m in enumerate(c["models"]):
                if real and any(isinstance(v, float) and (abs(v) > 1e7 or 0 < abs(v) < 1e-7) for v in m.values()):
                    continue
                mf = os.path.join(tmp, "model")
                with open(mf, "w") as h:
                    for k, v in m.items():
                        h.write("%s %r\n" % (k, v))
                rc, out, err = run([exe, cn, "model", mf], 20, tmp)
                v = verdict(rc, out, err)
                if v:
                    return {"contract": cn, "failure": v, "inputs": inputs_of(out), "source": "verifier counterexample"}
            # generated inputs
            base = seed * 1000003
            chunks = 8
            lim = min(40, max(5, t_end - time.time()))

            def work(k):
                a = base + k * 10000000
                pf = os.path.join(tmp, "prog%d" % k)
                t1 = time.time()
                n = 2000
                while time.time() - t1 < lim * 0.7:
                    t2 = time.time()
                    rc, out, err = run([exe, cn, "seeds", str(a), str(a + n), pf, cf], lim, tmp)
                    v = verdict(rc, out, err)
                    if v:
                        s = struct.unpack("<Q", open(pf, "rb").read(8))[0]
                        rc, out, err = run([exe, cn, "show", str(s), cf], 20, tmp)
                        v2 = verdict(rc, out, err)
                        if v2:
                            return {"contract": cn, "failure": v2, "inputs": inputs_of(out), "source": "generated, seed %d" % s}
                        return None
                    if rc is None:
                        return None
                    a += n
                    if time.time() - t2 < 1:
                        n *= 3
                return None
            with ThreadPoolExecutor(chunks) as tp:
                rs = [x for x in tp.map(work, range(chunks)) if x]
            if rs:
                return rs[0]
            if time.time() > t_end:
                return None
    return None
