"""Which traces and models decide which property (see DESIGN.md)."""
CURVES = [("def", 2, "Field_BNb.cfg", "BNb"), ("snark", 3, "Field_SNARK1.cfg", "SNARK1"), ("snark", 82, "Field_SNARK2.cfg", "SNARK2")]
MODES = [(-1, 1), (2, 1), (0, 0), (1, 1), (2, 0), (0, 1), (1, 0)]  # 2 = portable routines wherever there are any
FMODES = MODES[:3] + [(3, 1)] + MODES[3:]  # 3 = those of the base field too

def field(profile, steps, n, seed, modes=FMODES, curves=CURVES):
    out = []
    for i in range(n):
        for j, (drv, b, cfg, cn) in enumerate(curves):
            mode, mulx = modes[(i + j * (i > 0)) % len(modes)]
            s = seed * 1000 + i
            out.append({"name": "%s %s mode %d mulx %d seed %d" % (profile, cn, mode, mulx, s), "exe": drv,
                        "args": [profile, s, steps, b, mode, mulx], "module": "FieldTrace.tla", "cfg": cfg})
    return out
HUNT = [[(2, 1), (0, 1), (1, 0)], [(2, 0), (1, 1), (0, 0)], [(3, 1), (-1, 1), (-1, 0)]]
def hunt(profile, steps, count, seed, n=1, curves=CURVES, **kw):
    """`count` programs of which only those that look suspicious or differ between configurations are judged"""
    return [{**kw, "kind": "hunt", "name": "selection %s %s seed %d" % (profile, cn, seed * 1000 + i), "drv": drv, "b": b, "cfg": cfg, "cn": cn, "profile": profile,
             "first": seed * 1000000 + 1000 + i * count, "steps": steps, "count": count, "confs": kw.get("confs") or HUNT[(i + j) % 3]}
            for i in range(n) for j, (drv, b, cfg, cn) in enumerate(curves)]
def memory(profile, steps, count, seed, curves=CURVES):
    """the same kind of programs in a build that faults on the first access outside an object"""
    return [{"kind": "survive", "name": "memory %s %s seed %d" % (profile, cn, seed * 1000), "exe": drv + "_mem", "programs": count,
             "args": [profile, seed * 1000000 + 500000, steps, b, 2 if j else -1, 1, count]} for j, (drv, b, cfg, cn) in enumerate(curves)]
def memoryInts(profile, steps, seed):
    return [{"kind": "survive", "name": "memory %s %s seed %d" % (profile, ("portable", "generated")[g], seed * 1000 + 500), "exe": "int_mem", "programs": 1,
             "args": [profile, seed * 1000 + 500, steps, g]} for g in (0, 1)] + \
           [{"kind": "survive", "name": "memory %s 32-bit words seed %d" % (profile, seed * 1000 + 600), "exe": "int32_mem", "programs": 1, "args": [profile, seed * 1000 + 600, steps, 0]}]
def ints(profile, steps, n, seed, build=""):
    """random programs over the integer classes, with the portable and the generated primitives; builds: 16 = capacity of 16 words, 32 = words of 32 bits"""
    return [{"name": "%s %s%s seed %d" % (profile, ("portable", "generated")[g], {"": "", "16": " 16 words", "32": " 32-bit words"}[build], seed * 1000 + i), "exe": "int" + build,
             "args": [profile, seed * 1000 + i, steps, g], "module": "IntTrace.tla", "cfg": "IntTrace%s.cfg" % (build and "_" + build)} for i in range(n) for g in ((0,) if build == "32" else (0, 1))]
def histories(n, steps, parts, seed, select=0):
    """every initialisation history of length n, replayed"""
    return [{"kind": "history", "name": "init %s length %d part %d seed %d" % (b, n, i, seed), "exe": "init_" + b, "model": "MC_Init_%s_%d.cfg" % (b, n),
             "cfg": "InitTrace_%s.cfg" % b, "steps": steps, "select": select, "seed": seed * 1000, "part": (i, parts)} for b in ("def", "snark") for i in range(parts)]
def threads(steps, repeat, n, parts, seed):
    """free-running threads, and every schedule of the model with one preemption"""
    out = []
    for i in range(n):
        for j, (drv, b, cfg, cn) in enumerate(CURVES):
            for mode, mulx in [MODES[(i + 2 * j) % len(MODES)], MODES[(i + 2 * j + 1) % len(MODES)]]:
                s = seed * 1000 + i
                out.append({"kind": "threads", "name": "threads %s mode %d mulx %d seed %d" % (cn, mode, mulx, s), "exe": "thr_" + drv, "threads": 8,
                            "args": ["stress", 8, steps, repeat, s, b, mode, mulx], "cfg": cfg})
            for k in range(parts) if parts > 4 or not j else range(2 * j - 2, 2 * j):
                mode, mulx = MODES[(i + j + k) % len(MODES)]
                out.append({"kind": "threads", "name": "schedules %s mode %d mulx %d part %d seed %d" % (cn, mode, mulx, k, s), "exe": "thr_" + drv, "threads": 2,
                            "args": ["sched", s, b, mode, mulx], "cfg": cfg, "part": (k, parts)})
    return out
def api(profile, steps, n, seed, modes=MODES, curves=CURVES):
    """long histories of group calls, judged through their coordinates modulo r"""
    return [{"name": "histories %s %s mode %d mulx %d seed %d" % ((profile, cn) + modes[(3 * i + j) % len(modes)] + (seed * 1000 + i,)), "exe": "api_" + drv,
             "args": [profile, seed * 1000 + i, steps, b] + list(modes[(3 * i + j) % len(modes)]), "module": "ApiTrace.tla", "cfg": "Api_%s.cfg" % cn}
            for i in range(n) for j, (drv, b, cfg, cn) in enumerate(curves)]
def tiny(*which):
    """the specification itself on tiny curves: pure = with the plain TLA+ integers"""
    return [model("MC_Tiny", "MC_Tiny_%s.cfg" % w, pure=w == "pure", workers=8 if w == "pos" else 1) for w in which]
def model(module, cfg, **kw):
    d = {"kind": "model", "name": cfg.replace(".cfg", ""), "module": module + ".tla", "cfg": cfg}
    d.update(kw)
    return d
def lockstep(profile, steps, seed, curves=CURVES, modes=FMODES):
    return [{"kind": "lockstep", "name": "lockstep %s %s seed %d" % (profile, cn, seed),
             "runs": [(drv, [profile, seed, steps, b, m, x]) for m, x in modes]} for drv, b, cfg, cn in curves]

def jobs(pid, tier, seed):
    T = tier == "thorough"
    s = seed
    def k(q, t):
        return t if T else q
    H = lambda pr, steps, count, n, **kw: hunt(pr, steps, count, s, k(n, 20 * n), **kw)
    J = []
    if pid == "P01":
        J += field("bilin", k(150, 300), k(2, 20), s) + api("pair", k(12000, 30000), k(3, 40), s) + tiny("pure", "neg") + (tiny("pos") + [model("MC_BigInts", "MC_BigInts.cfg")] if T else [])
    elif pid == "P02":
        J += H("pairing", 300, 40, 3) + field("pairing", k(300, 400), k(4, 40), s) + api("pair", k(8000, 30000), k(1, 20), s + 300)
        J += memory("pairing", 300, k(15, 300), s)
    elif pid == "P03":
        J += H("fp", 500, 400, 3) + field("fp", k(2500, 3000), k(6, 60), s)
    elif pid == "P04":
        J += H("dbl", 500, 400, 3) + field("dbl", k(2500, 3000), k(6, 60), s)
    elif pid == "P05":
        J += H("tower", 500, 250, 3) + field("tower", k(1500, 2000), k(6, 60), s)
    elif pid == "P06":
        J += H("cyc", 400, 100, 2) + H("fexp", 100, 20, 1) + field("cyc", k(500, 600), k(4, 40), s) + field("fexp", k(60, 300), 1 if not T else 8, s) + api("gt", k(6000, 30000), k(1, 20), s)
    elif pid == "P07":
        J += H("group", 500, 250, 3) + field("group", k(1500, 2000), k(5, 60), s) + api("scalar", k(6000, 30000), k(1, 20), s + 200) + tiny("pure")
    elif pid == "P08":
        J += H("scalar", 300, 60, 2) + field("scalar", k(800, 1500), k(4, 60), s) + api("scalar", k(15000, 30000), k(2, 40), s) + tiny("pure")
        J += memory("scalar", 300, k(15, 300), s)
    elif pid == "P09":
        J += H("valid", 500, 250, 3) + field("valid", k(1200, 1500), k(5, 40), s) + field("group", k(500, 1500), k(1, 10), s + 500)
    elif pid == "P17":
        J += H("mix", 600, 150, 2) + H("group", 500, 100, 1) + H("valid", 500, 100, 1) + field("mix", k(1500, 3000), k(4, 40), s) + field("group", k(700, 1500), k(1, 10), s + 700)
        J += field("lines", k(300, 600), 1, s + 700) + field("valid", k(300, 600), 1, s + 700)
        for pr, n in (("mix", 30), ("group", 15), ("lines", 15), ("pairing", 8), ("power", 8), ("cyc", 8)):
            J += memory(pr, 300, k(n, 20 * n), s)
    elif pid == "P18":
        J += H("power", 300, 100, 2) + field("power", k(500, 1000), k(5, 60), s) + api("gt", k(6000, 30000), k(1, 20), s + 400)
    elif pid == "P19":
        J += H("lines", 500, 200, 3) + field("lines", k(1300, 2000), k(5, 60), s) + tiny("neg")
    elif pid == "P14":
        for pr, st in (("mix", k(2000, 10000)), ("cyc", k(300, 1000)), ("pairing", k(250, 1000)), ("scalar", k(400, 2000)), ("lines", k(400, 2000)), ("fexp", k(40, 200)), ("power", k(300, 2000)), ("dbl", k(1000, 10000)), ("tower", k(1000, 10000))):
            for i in range(k(1, 6)):
                J += lockstep(pr, st, s * 1000 + i)
        for pr, st, n in (("mix", 600, 60), ("tower", 500, 80), ("dbl", 500, 80), ("cyc", 400, 25), ("lines", 500, 40), ("power", 300, 20), ("pairing", 200, 10)):
            J += H(pr, st, n, 1, lockstep=True, confs=[(m, x) for m, x in FMODES])
        J += field("mix", k(1500, 3000), k(2, 10), s, modes=[(3, 1), (2, 1), (0, 0), (1, 1), (1, 0), (0, 1)])
    elif pid == "P10":
        J += ints("nat", k(10000, 15000), k(12, 200), s) + ints("nat", k(6000, 15000), k(2, 40), s, "16") + ints("nat", k(6000, 15000), k(4, 60), s + 50, "32")
        J += memoryInts("nat", k(40000, 400000), s)
    elif pid == "P11":
        J += ints("int", k(10000, 15000), k(12, 200), s) + ints("int", k(6000, 15000), k(2, 40), s, "16") + ints("int", k(6000, 15000), k(4, 60), s + 50, "32")
        J += memoryInts("int", k(40000, 400000), s)
    elif pid == "P12":
        J += ints("mod", k(10000, 15000), k(12, 200), s) + ints("mod", k(6000, 15000), k(2, 40), s, "16") + ints("mod", k(6000, 15000), k(4, 60), s + 50, "32")
        J += memoryInts("mod", k(40000, 400000), s)
    elif pid == "P13":
        J += ints("text", k(4000, 10000), k(6, 200), s) + ints("text", k(4000, 10000), k(2, 40), s + 50, "32") + field("text", k(1200, 3000), k(3, 60), s)
        J += memoryInts("text", k(30000, 400000), s) + memory("text", 1000, k(10, 200), s)
    elif pid == "P15":
        J += histories(2, 60, 8, s) + (histories(3, 60, 24, s) + histories(4, 0, 16, s, 400) if T else histories(3, 0, 4, s, 200))
    elif pid == "P16":
        J += [{"name": "binding %s seed %d" % (pr, s * 1000 + i), "exe": "bind", "args": [pr, s * 1000 + i, st], "module": "FieldTrace.tla", "cfg": "Field_BNb.cfg"}
              for pr, st, n in (("mix", k(1500, 3000), k(12, 200)), ("pair", k(40, 100), k(4, 40))) for i in range(n)]
        J += [{"name": "java %s seed %d" % (pr, s * 1000 + i), "exe": "java", "args": [pr, s * 1000 + i, st], "module": "FieldTrace.tla", "cfg": "Field_BNb.cfg"}
              for pr, st, n in (("mix", k(1500, 3000), k(6, 100)), ("pair", k(80, 200), k(2, 20))) for i in range(n)]
    elif pid == "P20":
        J += [model("MC_Threads", "MC_Threads_shared.cfg", violated="NoInterference")] + threads(k(150, 300), k(200, 1000), k(1, 12), k(4, 8), s)
    else:
        raise SystemExit("unknown property " + pid)
    return J, NOTES.get(pid, "")
NOTES = {}
