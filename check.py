#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property by seeded simulation of /repo's current working tree
   check.py --build                     build all simulator variants
   check.py --replay FILE               replay one file, printing what it shows

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check itself failed."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IIR1_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
WORKERS = 8

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

# ---- building ---------------------------------------------------------------------------------------------------------
FAMS = [("BW", "Butterworth"), ("C1", "ChebyshevI"), ("C2", "ChebyshevII")]
TOPOS = ["DF1", "DF2", "TDF2"]
BASE = ["-std=c++17", "-DNDEBUG", "-w", "-I" + REPO, "-I" + SIM]
VARIANTS = {
    "exc": BASE + ["-O2"],
    "noexc": BASE + ["-O2", "-DIIR1_NO_EXCEPTIONS", "-DNOEXC"],
    "thr": BASE + ["-O1", "-DTHREADS"],
}

SRC = (".h", ".hpp", ".hh", ".cpp", ".cc", ".inl", ".ipp")

def sources():
    out = []
    for f in sorted(os.listdir(REPO)):
        if f.endswith(SRC):
            out.append(os.path.join(REPO, f))
    for root, dirs, files in os.walk(os.path.join(REPO, "iir")):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(SRC)]
    return out

def digest(variant):
    h = hashlib.sha256()
    for f in sources() + sorted(os.path.join(SIM, f) for f in os.listdir(SIM)):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(repr(VARIANTS[variant]).encode())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]

def build(variant):
    d = os.path.join(HERE, "build", variant + "-" + digest(variant))
    exe = os.path.join(d, "sim")
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    for old in os.listdir(os.path.join(HERE, "build")):      # results of earlier trees
        if old.startswith(variant + "-"):
            shutil.rmtree(os.path.join(HERE, "build", old), ignore_errors=True)
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    flags = VARIANTS[variant]
    # only code of the library (its sources and the templates instantiated by the adapters) is instrumented
    sut = flags + (["-fsanitize=thread", "-fsanitize-coverage=trace-pc"] if variant == "thr" else [])
    har = flags + (["-fno-threadsafe-statics"] if variant == "thr" else [])
    jobs = []
    for fam, ns in FAMS:
        for i, t in enumerate(TOPOS):
            jobs.append(sut + ["-DFAM_=" + fam, "-DNS_=" + ns, "-DTOPO_=" + t, "-DCAT_=reg%s%d" % (fam, i), "-c", os.path.join(SIM, "adapters_pole.cpp"), "-o", os.path.join(tmp, "pole_%s%d.o" % (fam, i))])
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".cpp") and f != "adapters_pole.cpp":
            jobs.append((sut if f.startswith("adapters") else har) + ["-c", os.path.join(SIM, f), "-o", os.path.join(tmp, f[:-4] + ".o")])
    for f in sources():
        if f.startswith(os.path.join(REPO, "iir") + "/") and f.endswith((".cpp", ".cc")):
            jobs.append(sut + ["-c", f, "-o", os.path.join(tmp, "iir_" + os.path.relpath(f, REPO).replace("/", "_").rsplit(".", 1)[0] + ".o")])
    def one(j):
        return subprocess.run(["g++"] + j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(WORKERS) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                die("cannot compile %s\n%s" % (j[-3], r.stdout[-3000:]))
    link = ["g++"] + sorted(os.path.join(tmp, o) for o in os.listdir(tmp) if o.endswith(".o"))
    if variant == "thr":
        link.append("-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset")
    r = subprocess.run(link + ["-o", os.path.join(tmp, "sim"), "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        die("cannot link\n" + r.stdout[-3000:])
    for o in os.listdir(tmp):
        if o.endswith(".o"):
            os.unlink(os.path.join(tmp, o))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)      # somebody else was faster
    return exe

def variant_of(prop):
    return "thr" if prop in ("C07", "C08", "C17", "C18", "C19") else "exc"

# ---- running ----------------------------------------------------------------------------------------------------------
def env_for(noexc):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin")}
    if noexc:
        e["IIR1_SIM_NOEXC"] = noexc
    return e

def replay(exe, noexc, path):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env_for(noexc), timeout=300)
    m = re.search(r"^VIOL tag=(\S+) op=(-?\d+) hash=(\w+) msg=(.*)$", r.stdout, re.M)
    return (r.returncode, m.group(1), m.group(3), m.group(4)) if m else (r.returncode, None, None, r.stdout.strip())

PLAN = json.load(open(os.path.join(HERE, "plan.json")))

def main():
    args = sys.argv[1:]
    if args[:1] == ["--build"]:
        for v in VARIANTS:
            build(v)
        return 0
    if args[:1] == ["--replay"]:
        prop = re.search(r"^prop (\S+)", open(args[1]).read(), re.M).group(1)
        exe = build(variant_of(prop)); noexc = build("noexc") if prop == "C11" else None
        rc, tag, h, msg = replay(exe, noexc, args[1])
        print("%s: %s" % (tag, msg) if tag else msg)
        return rc
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    count = plan[tier]["runs"]; wall = plan[tier]["wall_s"]
    t0 = time.time()
    print("property %s, tier %s, VERIF_SEED=%d" % (prop, tier, seed), flush=True)
    exe = build(variant_of(prop)); noexc = build("noexc") if prop == "C11" else None
    built = time.time()
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    base = seed * 100000000
    procs = []
    for w in range(WORKERS):
        n = count // WORKERS + (1 if w < count % WORKERS else 0)
        procs.append(subprocess.Popen([exe, "run", prop, str(base + w), str(WORKERS), str(n), str(wall * 1000), rdir], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env_for(noexc)))
    outs = []
    with ThreadPoolExecutor(WORKERS) as ex:
        def fin(p):
            try:
                o, e = p.communicate(timeout=wall + 400)
            except subprocess.TimeoutExpired:
                p.kill(); o, e = p.communicate(); return (99, o, e)
            return (p.returncode, o, e)
        outs = list(ex.map(fin, procs))
    stat, cnt, runsw, hist, states, found, nondet = {}, {}, {}, set(), set(), [], []
    for rc, o, e in outs:
        if rc not in (0, 1, 4):
            die("worker ended with %s: %s %s" % (rc, o[-500:], e[-1500:]))
        for l in o.splitlines():
            p = l.split()
            if not p: continue
            if p[0] == "STAT" and p[1] != "hash": stat[p[1]] = stat.get(p[1], 0) + int(p[2])
            elif p[0] == "CNT": cnt[p[1]] = cnt.get(p[1], 0) + int(p[2]); runsw[p[1]] = runsw.get(p[1], 0) + int(p[3])
            elif p[0] == "HIST": hist.update(p[1:])
            elif p[0] == "STATES": states.update(p[1:])
            elif p[0] == "FOUND":
                m = re.match(r"FOUND seed=(\d+) path=(\S+) VIOL tag=(\S+) op=(-?\d+) hash=(\w+) msg=(.*)", l)
                found.append((int(m.group(1)), m.group(2), m.group(3), m.group(5), m.group(6)))
            elif p[0] == "NONDET": nondet.append(l)
    ran = time.time()
    rc = 0
    confirmed = []
    for f in sorted(found):
        r = [replay(exe, noexc, f[1]) for _ in range(2)]
        if all(x[0] == 1 and x[1] == f[2] for x in r):
            confirmed.append(f)
            print("violation of %s: %s: %s" % (prop, f[2], f[4]))
            print("  seed %d, replayed twice in new processes: %s" % (f[0], "identical" if all(x[2] == f[3] for x in r) else "same violation, other values"))
            break
        nondet.append("replay of %s gives %s" % (f[1], r))
    if confirmed:
        rc = 1
    elif found or nondet:
        # determinism of the simulator is a precondition of everything else
        print("ERROR: a run could not be repeated exactly: " + "; ".join(nondet)[:1500]); rc = 2
    # the same seeds in two further processes must give the same observations
    same = 0
    if rc == 0:
        k = 40
        def again(step):
            hs = []
            for w in range(step):
                r = subprocess.run([exe, "run", prop, str(base + w), str(step), str(k // step), "300000", rdir], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env_for(noexc))
                if r.returncode: die("repetition failed: " + r.stdout[-500:] + r.stderr[-500:])
                hs.append(re.findall(r"^SEEDHASH (\S+)", r.stdout, re.M))
            return sorted(x for h in hs for x in h)
        with ThreadPoolExecutor(3) as ex:
            a, b, c = ex.map(again, (1, 1, 4))
        if not (a == b == c): print("ERROR: the same seeds gave different observations in other processes"); rc = 2
        same = 3 * k
    end = time.time()
    samples = []
    for i in range(2):
        r = subprocess.run([exe, "show", prop, str(base + i * 7)], stdout=subprocess.PIPE, text=True, env=env_for(noexc))
        samples.append(r.stdout.splitlines()[:40])
    hours = max(ran - built, 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stat.get("executions", 0),
            "distinct_nontrivial": len(hist),
            "rule": plan["rule"],
            "samples": samples,
            "seeds": stat.get("runs", 0),
            "seeds_per_hour": int(stat.get("runs", 0) / hours),
            "runs_per_hour": int(stat.get("executions", 0) / hours),
            "operations": stat.get("ops", 0),
            "simulated_samples": stat.get("samples", 0),
            "simulated_time": "the library has no clock; simulated time is counted in processed samples (above), at 1 kHz %.1f hours" % (stat.get("samples", 0) / 3.6e6),
            "events_and_faults_fired": {k: v for k, v in cnt.items() if v},
            "runs_with_event": {k: v for k, v in runsw.items() if v},
            "distinct_states": len(states),
            "state_measure": "hash of (class of filter, requested order, ran/outlier/configured/rejected/retuned flags, previous and current kind of operation, outcome)" if not prop in ("C07", "C08", "C17", "C18") else "distinct interleavings, by the hash of all switches (thread, yield point, next thread): %d" % len(hist),
            "repeated_for_determinism": {"inside_workers": stat.get("reruns", 0), "in_other_processes": same},
            "components": plan["components"],
            "build_s": round(built - t0, 1), "search_s": round(ran - built, 1),
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(end - t0, 1), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%d executions of %d seeds (%d distinct non-trivial), %d samples, built in %.1f s, searched %.1f s" % (stat.get("executions", 0), stat.get("runs", 0), len(hist), stat.get("samples", 0), built - t0, ran - built))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][1]))
    return rc

if __name__ == "__main__":
    sys.exit(main())
