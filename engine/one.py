import sys, time, os, re
sys.setrecursionlimit(20000)
import ir, vexec, build, prover, loops, terms as tm
src, pat = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "")
ll = build.emit(src, "/tmp/vc_one%d.ll" % os.getpid())
mod = ir.Module(open(ll).read())
dem = build.demangle([n[1:] for n in mod.fns])
for f in sorted(mod.fns):
    m = re.match(r"@vc_contract__([A-Z]+)__(\w+)", f)
    if not m or pat not in f: continue
    t0 = time.time()
    rule = set()
    mode = m.group(1)
    while True:
        opts = set()
        ex = vexec.Exec(mod, dem, "F" if mode in ("FP",) else "R", "BV" if mode in ("FP", "BV") else "INT", opts)
        ex.loops.rule = rule
        try:
            ex.run(f)
            break
        except loops.NeedRule as e:
            rule = rule | {e.key}
            print("rule for", dem.get(e.key[0]), e.key[1])
    print(f, "paths", ex.paths, "instrs", ex.instrs, "obls", len(ex.obls), "trivial", getattr(ex,'trivial',0), "t %.1f" % (time.time() - t0), "checks", ex.checks, "%.1f" % ex.check_time, ex.loopstats, ex.assumed)
    P = prover.Prover(ex.im)
    for o in ex.obls:
        t1 = time.time()
        if o.result: continue
        r = P.prove(o.pc, o.goal)
        if r[0] != "proved" or time.time() - t1 > 2:
            print("   ", o.kind, o.name, r, "%.1f" % (time.time() - t1), o.where[:200])
            if r[0] != "proved" and len(sys.argv) > 3: print("      goal", o.goal, "\n      pc", o.pc)
    print("   stats", P.stats, "total %.1f" % (time.time() - t0), "covers", ex.covers)
import glob
for f in glob.glob("/tmp/vc_one%d*" % os.getpid()): os.remove(f)
