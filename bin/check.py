#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree:
  * builds the drivers against /repo's sources (into /verif/build),
  * runs them to record traces of the real code,
  * lets TLC decide whether every trace is a behaviour of the specification in spec/,
  * checks the specification's own models with TLC,
and writes evidence/<PROPERTY>.json.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
TLA = "/opt/veriftools/tla"
T0 = time.time()
sys.path.insert(0, os.path.join(V, "bin"))

class CheckError(Exception):
    pass

# ---------------------------------------------------------------- building
CXX = ["g++", "-std=gnu++14", "-fPIC", "-O3", "-fomit-frame-pointer", "-DNDEBUG", "-msse2", "-mfpmath=sse", "-march=x86-64",
       "-mtune=generic", "-D_FILE_OFFSET_BITS=64", "-DMIE_ATE_USE_GMP", "-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s" % REPO, "-w"]
LIBS = ["-lgmpxx", "-lgmp", "-lpthread"]
EXES = {  # name -> (driver source, extra flags, with library sources)
    "def": ("drv_field.cpp", ["-Wl,--wrap=exit"], True),
    "snark": ("drv_field.cpp", ["-DBN_SUPPORT_SNARK", "-Wl,--wrap=exit"], True),
    "int": ("drv_int.cpp", ["-Wl,--wrap=exit"], True),
    "int16": ("drv_int.cpp", ["-Wl,--wrap=exit", "-DMIE_ZM_VUINT_BIT_LEN=1024"], True),
    "int32": ("drv_int.cpp", ["-Wl,--wrap=exit", "-include" + os.path.join(V, "harness", "words32.h")], "zm.cpp"),
    "init_def": ("drv_init.cpp", ["-Wl,--wrap=exit"], True),
    "init_snark": ("drv_init.cpp", ["-DBN_SUPPORT_SNARK", "-Wl,--wrap=exit"], True),
    "bind": ("drv_bind.cpp", ["-Wl,--wrap=exit"], True),
    "api_def": ("drv_api.cpp", ["-Wl,--wrap=exit"], True),
    "api_snark": ("drv_api.cpp", ["-DBN_SUPPORT_SNARK", "-Wl,--wrap=exit"], True),
    "thr_def": ("drv_threads.cpp", ["-Wl,--wrap=exit"], True),
    "thr_snark": ("drv_threads.cpp", ["-DBN_SUPPORT_SNARK", "-Wl,--wrap=exit"], True),
}
ASAN = ("-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR")  # a build that faults on the first bad access
for _n in ("def", "snark", "int", "int32", "bind"):
    EXES[_n + "_mem"] = (EXES[_n][0], EXES[_n][1] + list(ASAN), EXES[_n][2])
OPTIONAL = ("int32", "int32_mem", "java")  # builds for another word size and with another compiler front end (swig): left out, with a note in the evidence, where they do not build
def tree_hash():
    h = hashlib.sha256()
    dirs = [os.path.join(REPO, d) for d in ("include", "src", "java")] + [os.path.join(V, "harness")]
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".cpp", ".i", ".hxx", ".java")):
                    p = os.path.join(r, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(" ".join(CXX).encode())
    return h.hexdigest()[:16]
_h = None
_locks = {}
_glock = threading.Lock()
def exe(name):
    """path of an up-to-date driver; concurrent requests for one driver build it once"""
    global _h
    with _glock:
        if _h is None:
            _h = tree_hash()
        lk = _locks.setdefault(name, threading.Lock())
    with lk:
        d = os.path.join(BUILD, "x", _h)
        out = os.path.join(d, name)
        if os.path.exists(out):
            return out
        os.makedirs(d, exist_ok=True)
        if name == "java":
            return javaexe(d, out)
        src, flags, lib = EXES[name]
        fl = tuple(f for f in flags if f.startswith(("-D", "-include")) or f in ASAN)
        objs = [libobj(d, s, fl) for s in (("zm.cpp", "zm2.cpp") if lib is True else (lib,))]
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = CXX + flags + ["-I" + os.path.join(V, "harness"), os.path.join(V, "harness", src)] + objs + ["-o", tmp] + LIBS
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("building %s failed:\n%s" % (name, r.stderr[-3000:]))
        os.replace(tmp, out)
        return out
def javaexe(d, out):
    """the Java classes swig makes of the binding's interface file, with the driver: a script that runs them"""
    jd = out + ".d"
    shutil.rmtree(jd, ignore_errors=True)
    os.makedirs(os.path.join(jd, "mcl", "bn254"))
    jh = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    def run(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=jd)
        if r.returncode:
            raise CheckError("building the java driver failed: %s\n%s" % (cmd[0], (r.stdout + r.stderr)[-3000:]))
    run(["swig", "-java", "-package", "mcl.bn254", "-outdir", "mcl/bn254", "-c++", "-o", "wrap.cxx", "-I%s/java" % REPO, "%s/java/bn254_if.i" % REPO])
    run([c.replace("gnu++14", "gnu++11") for c in CXX] + ["-shared", "-z", "noexecstack", "-I%s/include" % jh, "-I%s/include/linux" % jh, "-I%s/java" % REPO, "wrap.cxx"]
        + [libobj(d, s, ()) for s in ("zm.cpp", "zm2.cpp")] + ["-o", "libbn254_if_wrap.so"] + LIBS + ["-lrt"])
    run(["javac", "-d", ".", os.path.join(V, "harness", "Drv.java")] + ["mcl/bn254/" + f for f in sorted(os.listdir(os.path.join(jd, "mcl", "bn254")))])
    # exit status 1 is the library's: it ends the process on some malformed texts; that event is then the last one
    tmp = out + ".%d.tmp" % os.getpid()
    with open(tmp, "w") as f:
        f.write("#!/bin/bash\nrm -f $1.pend\njava -Xmx256m -XX:+UseSerialGC -XX:ErrorFile=/dev/null -cp %s -Djava.library.path=%s Drv \"$@\"; rc=$?\n"
                "if [ $rc = 1 -a -f $1.pend ]; then cat $1.pend >>$1; rc=0; fi\nrm -f $1.pend\nexit $rc\n" % (jd, jd))
    os.chmod(tmp, 0o755)
    os.replace(tmp, out)
    return out
def libobj(d, s, fl):
    key = "lib" + s + "".join(fl)
    with _glock:
        lk = _locks.setdefault(key, threading.Lock())
    with lk:
        o = os.path.join(d, re.sub("[^A-Za-z0-9_.]", "", key) + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            r = subprocess.run(CXX + list(fl) + ["-c", os.path.join(REPO, "src", s), "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("building %s failed:\n%s" % (s, r.stderr[-3000:]))
            os.replace(tmp, o)
        return o
def classes():
    d = os.path.join(BUILD, "classes")
    src = os.path.join(SPEC, "java", "BigInts.java")
    with _glock:
        lk = _locks.setdefault("javac", threading.Lock())
    with lk:
        c = os.path.join(d, "BigInts.class")
        if not os.path.exists(c) or os.path.getmtime(c) < os.path.getmtime(src):
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d, src], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("javac failed:\n" + r.stderr)
    return d

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, timeout=600, workers=1, mem="2g", extra=(), pure=False):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=SCRATCH)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + meta,
           "-cp", ("" if pure else classes() + ":") + "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA),
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "", -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return rc, out, gen, dist
def tlc_error(out):
    i = out.find("Error:")
    return out[i:i + 1500] if i >= 0 else out[-1500:]
STATS = {"states": 0, "transitions": 0, "traces": 0, "ops": {}, "samples": [], "jobs": [], "models": []}
_slock = threading.Lock()

class Violation(Exception):
    def __init__(self, what, files=(), cmd=""):
        super().__init__(what)
        self.what, self.files, self.cmd = what, list(files), cmd

def run_driver(path, args, timeout=400):
    try:
        r = subprocess.run([path] + [str(a) for a in args], capture_output=True, text=True, errors="replace", timeout=timeout, cwd=SCRATCH,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        return r.returncode, (r.stdout[-2000:] + (r.stderr[-12000:] if "_mem" in path else r.stderr[-2000:]))
    except subprocess.TimeoutExpired:
        return 77, "driver: no end within %d s" % timeout

def trace_once(job, tag):
    """-> ('ok', nevents, gen, dist, file) | ('bad', what, files) ; raises CheckError"""
    f = os.path.join(SCRATCH, "%s.%s.ndjson" % (re.sub(r"[^A-Za-z0-9_]+", "_", job["name"]), tag))
    path = exe(job["exe"])
    rc, log = run_driver(path, [f] + job["args"], job.get("timeout", 400))
    if rc == 3:
        raise CheckError("%s: driver usage error: %s" % (job["name"], log))
    if rc != 0:
        return ("bad", "the library did not survive the program: %s exit %d: %s" % (job["name"], rc, log.strip()[-300:]), [f])
    rc, out, gen, dist = tlc(job["module"], job["cfg"], {"TRACE": f}, job.get("tlc_timeout", 800))
    acc = re.search(r'<<"ACCEPTED", (\d+), "OF", (\d+)>>', out)
    rej = re.findall(r'<<"REJECT".*>>', out)
    if acc and not rej and int(acc.group(1)) == int(acc.group(2)) and rc == 0:
        return ("ok", int(acc.group(2)), gen, dist, f)
    if rej:
        return ("bad", "%s: %s" % (job["name"], "; ".join(rej[:3])), [f])
    if re.search(r"Error: .*(unexpected exception|[Ee]valuat)", out) and not re.search(r"OutOfMemory|StackOverflow|Out of memory", out):
        # the specification does not define the step: not one of its behaviours
        return ("bad", "%s: step outside the specification: %s" % (job["name"], " ".join(tlc_error(out).split())[:300]), [f])
    raise CheckError("%s: TLC gave no verdict (rc %s)\n%s" % (job["name"], rc, tlc_error(out)))

def built(job):
    if job["exe"] in OPTIONAL:
        try:
            exe(job["exe"])
        except CheckError as e:
            with _slock:
                STATS["jobs"].append({"not_built": job["name"], "why": str(e)[-300:]})
            return False
    return True
def trace_job(job):
    if not built(job):
        return
    r = trace_once(job, "1")
    if r[0] == "bad":
        for i in range(6):  # a rejection counts only if it repeats
            r2 = trace_once(job, str(i + 2))
            if r2[0] == "bad":
                break
        else:
            raise CheckError("%s: rejection did not repeat: %s" % (job["name"], r[1]))
        raise Violation(r[1], r[2], "build/x/*/%s TRACE %s" % (job["exe"], " ".join(map(str, job["args"]))))
    _, n, gen, dist, f = r
    with _slock:
        STATS["states"] += dist; STATS["transitions"] += n; STATS["traces"] += 1
        STATS["jobs"].append({"trace": job["name"], "events": n})
        k = 0
        for line in open(f):
            try:
                o = json.loads(line).get("o", "?")
            except ValueError:
                o = "?"
            STATS["ops"][o] = STATS["ops"].get(o, 0) + 1
            k += 1
            if len(STATS["samples"]) < 6 and (k * 7919) % 211 == 5 and len(line) < 1200 and o != "ld":
                STATS["samples"].append(line.strip())
    os.unlink(f)

def model_job(job):
    rc, out, gen, dist = tlc(job["module"], job["cfg"], job.get("env"), job.get("tlc_timeout", 800), job.get("workers", 1), job.get("mem", "4g"), job.get("extra", ()), job.get("pure", False))
    if job.get("violated"):  # the model of a faulty design must be refuted
        if "Invariant %s is violated" % job["violated"] not in out:
            raise CheckError("model %s: %s is not violated\n%s" % (job["name"], job["violated"], out[-2500:]))
    elif rc != 0 or "No error has been found" not in out:
        raise CheckError("model %s: TLC rc %s\n%s" % (job["name"], rc, out[-2500:]))
    with _slock:
        STATS["states"] += dist; STATS["transitions"] += gen
        STATS["models"].append({"model": job["name"], "states": dist, "transitions": gen})

def lockstep_job(job):
    """the same program in several configurations: TLC compares the traces step by step"""
    files = []
    for i, (ex, args) in enumerate(job["runs"]):
        f = os.path.join(SCRATCH, "%s.%d.ndjson" % (re.sub(r"[^A-Za-z0-9_]+", "_", job["name"]), i))
        rc, log = run_driver(exe(ex), [f] + args)
        if rc == 3:
            raise CheckError("%s: driver usage error: %s" % (job["name"], log))
        if rc != 0:
            rc2, log2 = run_driver(exe(ex), [f] + args)
            if rc2 == 0:
                raise CheckError("%s: driver failure did not repeat: %s" % (job["name"], log))
            raise Violation("%s %s: exit %d: %s" % (job["name"], args, rc, log.strip()[-300:]), [f])
        files.append(f)
    def go():
        rc, out, gen, dist = tlc("Lockstep.tla", "Lockstep.cfg", {"TRACE%d" % (i + 1): f for i, f in enumerate(files)}, 800)
        acc = re.search(r'<<"ACCEPTED", (\d+), "OF", (\d+)>>', out)
        rej = re.findall(r'<<"REJECT".*>>', out)
        return rc, out, gen, dist, acc, rej
    rc, out, gen, dist, acc, rej = go()
    if rej:
        if not go()[5]:
            raise CheckError("%s: rejection did not repeat" % job["name"])
        raise Violation("%s: configurations differ: %s" % (job["name"], rej[0]), files, str(job["runs"]))
    if not acc or acc.group(1) != acc.group(2) or rc != 0:
        raise CheckError("%s: TLC gave no verdict (rc %s)\n%s" % (job["name"], rc, tlc_error(out)))
    with _slock:
        STATS["states"] += dist; STATS["transitions"] += int(acc.group(2)) * len(files); STATS["traces"] += len(files)
        STATS["jobs"].append({"lockstep": job["name"], "configurations": len(files), "events": int(acc.group(2))})
    for f in files:
        os.unlink(f)

def decide(job, module, cfg, f):
    """TLC's verdict on one trace file: None when accepted, else what was rejected"""
    rc, out, gen, dist = tlc(module, cfg, {"TRACE": f}, 800)
    acc = re.search(r'<<"ACCEPTED", (\d+), "OF", (\d+)>>', out)
    rej = re.findall(r'<<"(?:REJECT|parameter)".*>>', out)
    if acc and not rej and acc.group(1) == acc.group(2) and rc == 0:
        n = int(acc.group(2))
        with _slock:
            STATS["states"] += dist; STATS["transitions"] += n
            for line in open(f):
                o = json.loads(line).get("o", "?")
                STATS["ops"][o] = STATS["ops"].get(o, 0) + 1
        return None, n
    if rej:
        return "; ".join(rej[:3]), 0
    if re.search(r"Error: .*(unexpected exception|[Ee]valuat)", out) and not re.search(r"OutOfMemory|StackOverflow|Out of memory", out):
        return "step outside the specification: " + " ".join(tlc_error(out).split())[:300], 0
    raise CheckError("%s: TLC gave no verdict (rc %s)\n%s" % (job["name"], rc, tlc_error(out)))

def history_job(job):
    """histories enumerated by TLC from the specification, replayed by the real code in fresh processes, and checked"""
    rc, out, gen, dist = tlc("MC_Init.tla", job["model"])
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("%s: TLC rc %s\n%s" % (job["name"], rc, out[-2000:]))
    hist = sorted(re.findall(r'<<"HISTORY", " ([^"]*)">>', out))
    part, of = job["part"]
    mine = hist[part::of]
    with _slock:
        STATS["states"] += dist; STATS["transitions"] += gen
        STATS["models"].append({"model": job["model"], "states": dist, "transitions": gen, "histories": len(hist)})
    path = exe(job["exe"])
    base = os.path.join(SCRATCH, re.sub(r"[^A-Za-z0-9_]+", "_", job["name"]))
    sel = {}
    def go():
        d = tempfile.mkdtemp(prefix="hist.", dir=SCRATCH)
        files = {}
        todo = [(h, job["seed"] + k, job["steps"]) for k, h in enumerate(mine)]
        if job.get("select"):  # record the programs of those histories after which a program did not do what it does after the others
            digs = []
            for k, h in enumerate(mine):
                f = os.path.join(d, "s%d" % k)
                rc, log = run_driver(path, [f, job["seed"], -job["select"]] + h.split())
                if rc == 3:
                    raise CheckError("%s: driver usage error: %s" % (job["name"], log))
                if rc != 0:
                    return "history [%s]: the library did not survive: exit %d: %s" % (h, rc, log.strip()[-300:]), []
                if os.path.exists(f + ".dig"):
                    digs += [(h, l.split()) for l in open(f + ".dig")]
                    os.unlink(f + ".dig")
                os.unlink(f)
            odd = []
            for b in sorted({x[1] for h, x in digs}):
                ds = [x[2] for h, x in digs if x[1] == b]
                usual = max(sorted(set(ds)), key=ds.count)
                for one in sorted(set(ds)):
                    hs = sorted({h for h, x in digs if x[1] == b and x[2] == one}, key=lambda h: (len(h), h))
                    odd += hs[:2] if one != usual else hs[:1] if len(set(ds)) > 1 else []
            odd = sorted(set(odd))[:6]
            todo += [(h, job["seed"], job["select"]) for h in odd]
            sel.update(programs=len(digs), differing=len(odd))
        for k, (h, sd, st) in enumerate(todo):
            f = os.path.join(d, "h%d" % k)
            rc, log = run_driver(path, [f, sd, st] + h.split())
            if rc == 3:
                raise CheckError("%s: driver usage error: %s" % (job["name"], log))
            if rc != 0:
                return "history [%s]: the library did not survive: exit %d: %s" % (h, rc, log.strip()[-300:]), []
            for g in sorted(os.listdir(d)):
                b = g.split(".")[2] if ".ops." in g else "init"
                with open(base + "." + b + ".ndjson", "a") as o:
                    o.write(open(os.path.join(d, g)).read())
                files[b] = base + "." + b + ".ndjson"
                os.unlink(os.path.join(d, g))
        shutil.rmtree(d)
        for b, f in sorted(files.items()):
            m, c = ("InitTrace.tla", job["cfg"]) if b == "init" else ("FieldTrace.tla", {"2": "Field_BNb.cfg", "3": "Field_SNARK1.cfg", "82": "Field_SNARK2.cfg"}[b])
            bad, n = decide(job, m, c, f)
            if bad:
                return "%s (%s): %s" % (job["name"], b, bad), [f]
        for f in files.values():
            os.unlink(f)
        return None, list(files)
    bad, fs = go()
    if bad:
        keep = []
        for f in fs:
            shutil.move(f, f + ".kept"); keep.append(f + ".kept")
        for f in os.listdir(SCRATCH):
            if f.startswith(os.path.basename(base) + ".") and f.endswith(".ndjson"):
                os.unlink(os.path.join(SCRATCH, f))
        if not go()[0]:
            raise CheckError("%s: rejection did not repeat: %s" % (job["name"], bad))
        raise Violation(bad, keep, "%s: histories of %s, part %d of %d" % (job["exe"], job["model"], part, of))
    with _slock:
        STATS["traces"] += len(mine)
        STATS["jobs"].append(dict(sel, histories=job["name"], replayed=len(mine)))

_cache = {}
def printed(module, cfg, word):
    """the strings a model prints"""
    with _glock:
        lk = _locks.setdefault("model" + cfg, threading.Lock())
    with lk:
        if cfg not in _cache:
            rc, out, gen, dist = tlc(module, cfg)
            if rc != 0 or "No error has been found" not in out:
                raise CheckError("%s: TLC rc %s\n%s" % (cfg, rc, out[-2000:]))
            _cache[cfg] = sorted(set(re.findall(r'<<"%s", "([^"]*)">>' % word, out)))
            with _slock:
                STATS["states"] += dist; STATS["transitions"] += gen
                STATS["models"].append({"model": cfg, "states": dist, "transitions": gen, word.lower() + "s": len(_cache[cfg])})
        return _cache[cfg]
def threads_job(job):
    """concurrent runs: what they do depends on the scheduler, so one rejected trace is enough"""
    f = os.path.join(SCRATCH, re.sub(r"[^A-Za-z0-9_]+", "_", job["name"]) + ".ndjson")
    args = [f] + job["args"]
    if "part" in job:
        i, n = job["part"]
        mine = sorted(printed("MC_Threads.tla", "MC_Threads.cfg", "SCHEDULE"), key=lambda x: hashlib.sha256(x.encode()).digest())[i::n]
        args += mine
    rc, log = run_driver(exe(job["exe"]), args)
    if rc == 3:
        raise CheckError("%s: driver usage error: %s" % (job["name"], log))
    if rc != 0:
        rc2, log2 = run_driver(exe(job["exe"]), args)
        if rc2 == 0:
            rc2, log2 = run_driver(exe(job["exe"]), args)
        if rc2 == 0:
            raise CheckError("%s: driver failure did not repeat: exit %s %s" % (job["name"], rc, log[-300:]))
        raise Violation("%s: the library did not survive: exit %d: %s" % (job["name"], rc, log.strip()[-300:]), [f], str(args))
    bad, n = decide(job, "FieldTrace.tla", job["cfg"], f)
    if bad:
        if not decide(job, "FieldTrace.tla", job["cfg"], f)[0]:
            raise CheckError("%s: rejection did not repeat: %s" % (job["name"], bad))
        raise Violation("%s: %s" % (job["name"], bad), [f], str(args))
    with _slock:
        STATS["traces"] += job["threads"]
        STATS["jobs"].append({"threads": job["name"], "events": n, "schedules": len(mine) if "part" in job else "free running"})
    os.unlink(f)

def hunt_job(job):
    """Selection of programs worth judging.  The driver runs `count` programs in several configurations and leaves
    only a digest of each trace.  Programs whose digests differ between configurations, or that the driver itself
    finds suspicious, are recorded in full and judged by TLC like any other trace; only TLC's verdict counts."""
    drv, profile, seed0, steps, b, cfg = job["drv"], job["profile"], job["first"], job["steps"], job["b"], job["cfg"]
    confs, count = job["confs"], job["count"]
    sums, programs = [], 0
    suspects = []
    for mode, mulx in confs:
        f = os.path.join(SCRATCH, "%s.%d.%d.dig" % (re.sub(r"[^A-Za-z0-9_]+", "_", job["name"]), mode, mulx))
        args = [f, profile, seed0, steps, b, mode, mulx, count, int((mode, mulx) == tuple(confs[0]))]
        rc, log = run_driver(exe(drv), args)
        if rc == 3:
            raise CheckError("%s: driver usage error: %s" % (job["name"], log))
        lines = [l.split() for l in open(f)] if os.path.exists(f) else []
        os.path.exists(f) and os.unlink(f)
        if rc != 0:
            rc2, log2 = run_driver(exe(drv), args)
            os.path.exists(f) and os.unlink(f)
            if rc2 == 0:
                raise CheckError("%s: driver failure did not repeat: %s" % (job["name"], log))
            raise Violation("%s mode %d mulx %d: the library did not survive the program of seed %d: exit %d: %s" %
                            (job["name"], mode, mulx, seed0 + len(lines), rc, log.strip()[-300:]), [], "%s %s" % (drv, args))
        programs += len(lines)
        sums.append({int(l[0]): l[1] for l in lines if l})
        suspects += [(int(l[0]), [(mode, mulx)]) for l in lines if len(l) > 2]
    differ = sorted(k for k in sums[0] if any(x.get(k) != sums[0][k] for x in sums[1:]))
    todo = suspects[:2] + [(k, confs) for k in differ[:2]]
    for k, cs in todo:
        for mode, mulx in cs:
            trace_job({"name": "%s %s mode %d mulx %d seed %d" % (profile, job["cn"], mode, mulx, k), "exe": drv,
                       "args": [profile, k, steps, b, mode, mulx], "module": "FieldTrace.tla", "cfg": cfg})
        if job.get("lockstep") and len(cs) > 1:
            lockstep_job({"name": "lockstep %s %s seed %d" % (profile, job["cn"], k), "runs": [(drv, [profile, k, steps, b, m, x]) for m, x in cs]})
    with _slock:
        STATS["jobs"].append({"selection": job["name"], "programs": programs, "configurations": len(confs), "steps_each": steps,
                              "differing": len(differ), "suspicious": len(suspects), "judged_by_TLC": len(todo)})
def survive_job(job):
    """programs in a build that faults on the first access outside an object; nothing but survival is looked at"""
    if not built(job):
        return
    args = [os.path.join(SCRATCH, re.sub(r"[^A-Za-z0-9_]+", "_", job["name"])) if job.get("keep") else "/dev/null"] + job["args"]
    rc, log = run_driver(exe(job["exe"]), args)
    if rc == 3:
        raise CheckError("%s: driver usage error: %s" % (job["name"], log))
    if rc != 0:
        rc2, log2 = run_driver(exe(job["exe"]), args)
        if rc2 == 0:
            raise CheckError("%s: driver failure did not repeat: exit %d: %s" % (job["name"], rc, log[-300:]))
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*Assertion[^\n]*)", log2)
        raise Violation("%s: the library did not survive: exit %d: %s" % (job["name"], rc, m.group(1) if m else log.strip()[-300:]), [], "%s %s" % (job["exe"], args))
    with _slock:
        STATS["jobs"].append({"memory": job["name"], "programs": job["programs"]})
KINDS = {"trace": trace_job, "survive": survive_job, "hunt": hunt_job, "model": model_job, "lockstep": lockstep_job, "history": history_job, "threads": threads_job}
def run_job(job):
    t = time.time()
    KINDS[job.get("kind", "trace")](job)
    return job["name"], time.time() - t

def main():
    global SCRATCH
    if len(sys.argv) < 2:
        print(__doc__); return 2
    pid = sys.argv[1]
    if pid == "--setup":
        classes()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import plan
    jobs, note = plan.jobs(pid, tier, seed)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    SCRATCH = tempfile.mkdtemp(prefix="run.%s." % pid, dir=BUILD)
    viol, err = [], []
    verbose = os.environ.get("VERIF_VERBOSE")
    try:
        classes()
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            fs = {ex.submit(run_job, j): j for j in jobs}
            for f in cf.as_completed(fs):
                try:
                    n, t = f.result()
                    if verbose:
                        print("  %-40s %.1f s" % (n, t), flush=True)
                except Violation as v:
                    viol.append(v)
                    for g in fs:
                        g.cancel()
                except cf.CancelledError:
                    pass
                except Exception as e:  # noqa
                    err.append(e)
        replay = None
        if viol:
            d = os.path.join(BUILD, "replay", pid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            replay = os.path.join(d, "README")
            with open(replay, "w") as r:
                for v in viol:
                    r.write("%s\ncommand: %s\n" % (v.what, v.cmd))
                    for f in v.files:
                        if os.path.exists(f):
                            shutil.copy(f, d); r.write("trace: %s\n" % os.path.join(d, os.path.basename(f)))
        kf = known_findings(pid)
        write_evidence(pid, tier, seed, note, len(viol), err)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if viol:
            for v in viol:
                print(v.what)
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        if err:
            for e in err:
                print("CHECK ERROR: %s" % e)
            return 2
        print("%s held: %d traces, %d transitions, %d states, %.0f s" % (pid, STATS["traces"], STATS["transitions"], STATS["states"], time.time() - T0))
        return 0
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)

def known_findings(pid):
    p = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out

def write_evidence(pid, tier, seed, note, nviol, err):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": STATS["states"], "transitions": STATS["transitions"], "traces_validated_against_impl": STATS["traces"],
                       "samples": STATS["samples"] or [m["model"] for m in STATS["models"]] or ["none"],
                       "actions_taken": dict(sorted(STATS["ops"].items())), "traces": sorted(STATS["jobs"], key=str), "models": STATS["models"],
                       "what": note, "errors": [str(e)[:300] for e in err]},
          "wall_s": round(time.time() - T0, 1), "violations": nviol}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")

if __name__ == "__main__":
    sys.exit(main())
