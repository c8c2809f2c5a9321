#!/usr/bin/env python3
"""Does the specification constrain every result?  Records traces of the real code, alters every event in one place at
a time (spec/Sensitivity.tla, spec/IntSensitivity.tla) and lists the alterations the specification still accepts.
Not a check of the code: a check of the specification, run by hand after a change to it."""
import concurrent.futures as cf, os, re, sys, tempfile
from collections import Counter
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import check
check.SCRATCH = tempfile.mkdtemp(prefix="sens.", dir=check.BUILD)
# meant to be free: scratch operands, the other representatives, the refusals the domain permits, and values that
# happen to be congruent to the altered ones
FREE = [r"t\.cyclo s", r"[PQ]\.(eq|print) s unwritten", r"e\.ec s unwritten", r"b\.eq[PQ] s unwritten", r"[dhk]\.\w+ d\d+=(0|old)", r"\S+ x added", r"[zy]\.z\.inv d=-",
        r"z\.set x dropped", r"h\.\S+ d unwritten"]
def jobs():
    for drv, b, cfg in (("def", 2, "BNb"), ("snark", 3, "SNARK1"), ("snark", 82, "SNARK2")):
        for pr, st in (("fp", 400), ("dbl", 400), ("tower", 400), ("cyc", 100), ("group", 300), ("valid", 900), ("scalar", 120), ("lines", 250), ("pairing", 120), ("bilin", 30), ("power", 150), ("text", 500)):
            yield drv, [pr, 7, st, b, 2, 1], "Sensitivity.tla", "Field_%s.cfg" % cfg
    yield "bind", ["mix", 7, 900], "Sensitivity.tla", "Field_BNb.cfg"
    for pr in ("nat", "int", "mod", "text"):
        yield "int", [pr, 7, 2000, 1], "IntSensitivity.tla", "IntTrace.cfg"
def one(j):
    drv, args, mod, cfg = j
    f = os.path.join(check.SCRATCH, "_".join(map(str, [drv] + args)))
    check.run_driver(check.exe(drv), [f] + args)
    c = f + ".cfg"
    open(c, "w").write(open(os.path.join(check.SPEC, cfg)).read().replace("SPECIFICATION Spec", "SPECIFICATION SSpec"))
    rc, out, g, d = check.tlc(mod, c, {"TRACE": f})
    return j, rc, out
bad, tried = Counter(), Counter()
check.classes()
with cf.ThreadPoolExecutor(8) as ex:
    for j, rc, out in ex.map(one, jobs()):
        if rc:
            print("no verdict", j, check.tlc_error(out)[:500])
        for m in re.finditer(r'<<"(TRIED|SURVIVES)", "([^"]*)", "([^"]*)", (\d+)>>', out):
            if m[1] == "TRIED":
                tried[m[2]] += 1
            else:
                bad[m[2] + " " + m[3]] += 1
print("%d events of %d operations altered" % (sum(tried.values()), len(tried)))
n = 0
for k in sorted(bad):
    if not any(re.match(x + "$|" + x, k) for x in FREE):
        print("SURVIVES", k, bad[k], "of", tried[k.split()[0]]); n += 1
import shutil
shutil.rmtree(check.SCRATCH)
sys.exit(n > 0)
