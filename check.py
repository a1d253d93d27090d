#!/usr/bin/env python3
"""Build and run the model checking harnesses for one property.

  check.py Cnn [--tier quick|thorough] [--workers N] [--suite NAME]
  check.py --setup            pre-builds what does not depend on /repo
  check.py --replay FILE      re-runs one recorded execution, verbosely
  check.py --all              every claimed property, one after another

Exit 0: held on everything explored (known findings are printed). Exit 1: a
VIOLATION line was printed. Exit 2: the machinery itself failed.
"""
import glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
JOBS = os.cpu_count() or 4

WRAP_FILES = ["fopen", "fclose", "fileno", "remove", "unlink", "rmdir", "rename", "mkdir", "opendir", "readdir", "closedir", "rand"]
WRAP_SCHED = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
              "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast",
              "pthread_create", "pthread_join", "pthread_self", "sched_yield", "usleep", "nanosleep",
              "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign",
              "memcpy", "memset", "memmove", "memcmp", "strlen", "strcpy", "strncpy", "strcmp", "strncmp",
              "fopen", "fclose", "fread", "fseek", "ftell", "fwrite", "feof", "ferror", "clearerr", "rewind"]
WRAP = {"asan": WRAP_FILES, "sched": WRAP_SCHED, "schedx": WRAP_SCHED}

COMMON = ["-O1", "-fwrapv", "-g", "-w", "-fno-omit-frame-pointer", "-fexceptions"]
CFLAGS = {
    "asan": COMMON + ["-fsanitize=address", "-fno-common"],
    # every memory access of the library calls the explorer's __tsan_ runtime; not optimised, so that every access written is one
    "sched": COMMON + ["-O0", "-fsanitize=thread", "-fno-builtin", "-fno-stack-protector", "-no-pie", "-fno-pie", "-U_FORTIFY_SOURCE"],
}
HFLAGS = {
    "asan": ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address", "-std=gnu++17"],
    "sched": ["-O2", "-g", "-w", "-std=gnu++17", "-no-pie", "-fno-pie", "-fno-stack-protector"],
}
LFLAGS = {
    "asan": ["-fsanitize=address", "-static-libasan", "-latomic", "-lpthread", "-lm"],
    "sched": ["-no-pie", "-lpthread", "-lm"],
}
RT = {"asan": ["mc/mc.cpp", "mc/env.cpp"], "sched": ["mc/mc.cpp", "mc/sched.cpp"]}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print(msg)
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def key(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_repo_hdr = None


def repo_headers():
    """One key over everything a translation unit of the library can include."""
    global _repo_hdr
    if _repo_hdr is None:
        fs = sorted(glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.hpp") + glob.glob(REPO + "/*.inc") + glob.glob(REPO + "/*.def"))
        _repo_hdr = key(*[x for f in fs for x in (os.path.basename(f), read(f))])
    return _repo_hdr


def verif_headers():
    fs = sorted(glob.glob(V + "/mc/*.hpp") + glob.glob(V + "/h/*.hpp"))
    return key(*[x for f in fs for x in (os.path.basename(f), read(f))])


def compile_one(src, out, cmd, post=None):
    if os.path.exists(out):
        return None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp.o" % (out, os.getpid())
    r = sh(cmd + ["-c", src, "-o", tmp])
    if r.returncode:
        return "compile of %s failed:\n%s" % (src, r.stdout[-6000:])
    if post:
        r = sh(post + [tmp])
        if r.returncode:
            return "objcopy failed: " + r.stdout
    os.rename(tmp, out)
    return None


# the library's own variables, so that each execution can start with them as they were
STATICS = ["--rename-section", ".bss=mcbss,alloc,load,data,contents", "--rename-section", ".data=mcdata", "--rename-section", ".data.rel=mcdatr", "--rename-section", ".data.rel.local=mcdatl"]


def redefine(names):
    a = ["objcopy"]
    for n in names:
        a += ["--redefine-sym", "%s=__wrap_%s" % (n, n)]
    return a


def meta(path):
    m = {"FLAVOR": "asan", "PROPS": "", "CXX": "no", "DEFS": ""}
    for line in open(path):
        g = re.match(r"//\s*(FLAVOR|PROPS|CXX|DEFS):\s*(.*)", line)
        if g:
            m[g.group(1)] = g.group(2).strip()
        elif not line.startswith("//"):
            break
    return m


def harnesses():
    r = {}
    for f in sorted(glob.glob(V + "/h/*.cpp")):
        r[f] = meta(f)
    return r


def plan(harness, m):
    """The compilations a harness needs, its objects and the program they make."""
    fl = m["FLAVOR"]
    defs = ["-D" + d for d in m["DEFS"].split()]
    cxx = m["CXX"] == "yes"
    hdr, vh = repo_headers(), verif_headers()
    objs, jobs = [], []
    csrc = sorted(glob.glob(REPO + "/*.c"))
    for s in csrc:
        cmd = ["gcc", "-std=gnu11"] + CFLAGS[fl] + defs + ["-iquote", REPO]
        o = "%s/%s-%s-%s.o" % (BUILD, fl, os.path.basename(s), key(read(s), hdr, " ".join(cmd), ",".join(WRAP[fl]), *STATICS))
        jobs.append((s, o, cmd, redefine(WRAP[fl]) + (STATICS if fl == "sched" else [])))
        objs.append(o)
    if cxx:
        for s in sorted(glob.glob(REPO + "/*.cpp")):
            cmd = ["g++", "-std=gnu++17"] + CFLAGS[fl] + defs + ["-iquote", REPO]
            o = "%s/%s-%s-%s.o" % (BUILD, fl, os.path.basename(s), key(read(s), hdr, " ".join(cmd), ",".join(WRAP[fl])))
            jobs.append((s, o, cmd, redefine(WRAP[fl])))
            objs.append(o)
    for s in RT[fl]:
        cmd = ["g++"] + HFLAGS[fl] + ["-iquote", V + "/mc"]
        o = "%s/%s-%s-%s.o" % (BUILD, fl, os.path.basename(s), key(read(V + "/" + s), vh, " ".join(cmd)))
        jobs.append((V + "/" + s, o, cmd, None))
        objs.append(o)
    cmd = ["g++"] + HFLAGS[fl] + defs + ["-iquote", V + "/mc", "-iquote", V + "/h", "-iquote", REPO]
    inc = b"".join(read(V + "/h/" + n.decode()) for n in re.findall(rb'#include "(\w+\.cpp)"', read(harness)))
    ho = "%s/h-%s-%s.o" % (BUILD, os.path.basename(harness), key(read(harness), inc, vh, hdr, " ".join(cmd)))
    jobs.append((harness, ho, cmd, None))
    objs.append(ho)
    exe = "%s/%s-%s" % (BUILD, os.path.basename(harness)[:-4], key(*objs))
    return jobs, objs, exe, fl


def link_one(harness, objs, exe, fl):
    tmp = exe + ".%d.tmp" % os.getpid()
    r = sh(["g++"] + objs + LFLAGS[fl] + ["-o", tmp])
    if r.returncode:
        return "link of %s failed:\n%s" % (harness, r.stdout[-6000:])
    os.rename(tmp, exe)
    return None


def build(hs):
    """Builds several harnesses at once. Returns their programs and the first error."""
    with ThreadPoolExecutor(JOBS) as ex:
        plans = list(ex.map(lambda x: plan(*x), hs))
        jobs = {}
        for js, _, exe, _ in plans:
            if not os.path.exists(exe):
                for j in js:
                    jobs[j[1]] = j
        # the harnesses take longest
        order = sorted(jobs.values(), key=lambda j: 0 if j[0].startswith(V + "/h/") else 1)
        errs = [e for e in ex.map(lambda j: compile_one(*j), order) if e]
        if not errs:
            todo = [(h[0], p[1], p[2], p[3]) for h, p in zip(hs, plans) if not os.path.exists(p[2])]
            errs = [e for e in ex.map(lambda j: link_one(*j), todo) if e]
    return [p[2] for p in plans], errs[0] if errs else None


def known_findings():
    r = {}
    p = V + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for line in open(p):
            g = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if g:
                r[(g.group(1), g.group(2))] = g.group(3)
    return r


def manifest():
    p = V + "/MANIFEST.json"
    return json.load(open(p)) if os.path.exists(p) else {"checks": []}


def run(prop, tier, workers, only=None, budget=None):
    t0 = time.time()
    hs = [(f, m) for f, m in harnesses().items() if prop in m["PROPS"].split()]
    if not hs:
        die("no harness for " + prop)
    os.makedirs(BUILD, exist_ok=True)
    suites = []
    total_budget = budget or (700 if tier == "quick" else 6 * 3600)
    exes, err = build(hs)
    if err:
        die(err)
    for (f, m), exe in zip(hs, exes):
        out = "%s/result.%s.%s.%d.json" % (BUILD, prop, os.path.basename(f), os.getpid())
        b = max(20, total_budget - (time.time() - t0))
        cmd = [exe, "--prop", prop, "--out", out, "--workers", str(workers), "--budget", str(b)]
        if tier == "thorough":
            cmd.append("--thorough")
        if only:
            cmd += ["--suite", only]
        sys.stdout.flush()
        r = subprocess.run(cmd)
        if only and r.returncode == 2:
            continue
        if r.returncode or not os.path.exists(out):
            die("harness %s ended with %d" % (f, r.returncode))
        for s in json.load(open(out)):
            s["harness"] = os.path.basename(f)
            suites.append(s)
        os.unlink(out)
    known = known_findings()
    viol, found = [], {}
    os.makedirs(V + "/replay", exist_ok=True)
    for s in suites:
        for x in s["violations"]:
            k = (prop, x["sig"])
            if k in known:
                found[k] = known[k]
                continue
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", x["sig"])[:60]
            rp = "%s/replay/%s-%s-%s.txt" % (V, prop, s["suite"], name)
            with open(rp, "w") as f:
                f.write("property %s\nharness %s\nsuite %s\ntier %s\nsig %s\nmessage %s\ntrace %s\nchoices %s\n" % (
                    prop, s["harness"], s["suite"], tier, x["sig"], x["msg"].replace("\n", " | "), x["trace"],
                    " ".join(map(str, x["choices"]))))
            viol.append((x, s, rp))
    for k, d in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s" % (k[0], d))
    for x, s, rp in viol:
        print("violated in suite %s: %s: %s" % (s["suite"], x["sig"], x["msg"][:600]))
        print("  trace: " + x["trace"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    wall = time.time() - t0
    write_evidence(prop, tier, suites, viol, found, wall)
    for s in [] if viol else suites:
        if s["internal_error"]:
            die("explorer lost determinism in suite " + s["suite"])
        if s["executions"] + s["aborted"] == 0:
            die("vacuous suite " + s["suite"])
    print("%s %s: %d suites, %d executions, %.1fs, %s" % (prop, tier, len(suites), sum(s["executions"] for s in suites), wall,
                                                        "VIOLATED" if viol else "held"))
    return 1 if viol else 0


def write_evidence(prop, tier, suites, viol, found, wall):
    level = "model_checking"
    for c in manifest()["checks"]:
        if c["property"] == prop:
            level = c["level"]
    ex = sum(s["executions"] for s in suites)
    tr = sum(s["transitions"] for s in suites)
    st = sum(s["states"] for s in suites)
    oc = sum(s["outcomes"] for s in suites)
    samples = []
    for s in suites:
        for x in s["samples"][:2]:
            samples.append("%s: %s" % (s["suite"], x))
    cov = {
        "suites": [{k: s[k] for k in ("suite", "harness", "what", "executions", "aborted", "transitions", "states", "outcomes", "capped", "wall_s")} for s in suites],
        "samples": samples[:24] or ["(no trace recorded)"],
        "exhaustive": not any(s["capped"] for s in suites),
        "distinct_outcomes": oc,
    }
    if level == "model_checking":
        cov.update({"states": st, "transitions": tr, "traces_validated_against_impl": ex})
    else:
        cov.update({"evaluations": ex, "distinct_nontrivial": st if st else oc,
                    "rule": "one evaluation is one complete execution of the real code for one sequence of choices; the choice tree of every suite is enumerated to the end. Distinct and non-trivial counts the distinct canonical cases (configuration, input and fault point, or state reached) noted by the harnesses."})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": ["bounds are those named per suite", "sequentially consistent memory for interleavings", "gcc x86-64 build of the working tree"],
          "wall_s": round(wall, 2), "violations": len(viol)}
    if found:
        ev["coverage"]["known_findings_seen"] = sorted(k[1] for k in found)
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    workers, only, prop, budget = JOBS, None, None, None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--workers":
            workers = int(a.pop(0))
        elif x == "--suite":
            only = a.pop(0)
        elif x == "--budget":
            budget = float(a.pop(0))
        elif x == "--replay":
            p = a.pop(0)
            t = open(p).read()
            h = re.search(r"^harness (.*)$", t, re.M).group(1)
            pr = re.search(r"^property (.*)$", t, re.M).group(1)
            exes, err = build([(V + "/h/" + h, meta(V + "/h/" + h))])
            if err:
                die(err)
            sys.exit(subprocess.run([exes[0], "--prop", pr, "--replay", p]).returncode)
        elif x == "--setup":
            os.makedirs(BUILD, exist_ok=True)
            _, err = build(list(harnesses().items()))
            if err:
                die(err)
            sys.exit(0)
        elif x == "--all":
            rc = 0
            for c in manifest()["checks"]:
                r = subprocess.run([sys.executable, os.path.abspath(__file__), c["property"], "--tier", tier]).returncode
                if r:
                    print("!! %s exited %d" % (c["property"], r))
                    rc = 1
            sys.exit(rc)
        else:
            prop = x
    if not prop:
        die(__doc__)
    sys.exit(run(prop, tier, workers, only, budget))


if __name__ == "__main__":
    main()
