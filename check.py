#!/usr/bin/env python3
"""check.py PROPERTY - builds RaftLib from /repo's working tree with the instrumentation
that the property's monitors need, runs the workloads, and reports.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: no answer."""
import sys, os, json, time, hashlib, subprocess, glob, re, shutil, shlex
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, LEVEL

NCPU = min(8, os.cpu_count() or 1)
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")

BASE = ["-w", "-include", "cstdint", "-std=gnu++17", "-DSTRING_NAMES=1", "-DL1D_CACHE_LINE_SIZE=64",
        "-DLIBCOMPILE=1", "-DRDTSCP=1", "-I" + HERE + "/shim", "-I" + REPO, "-I" + REPO + "/raftinc",
        "-I" + HERE + "/harness"]
INSTR = ["-DVH_CHAOS", "-DNICE=1", "-finstrument-functions",
         "-finstrument-functions-exclude-file-list=/usr/," + HERE + "/harness"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
ASAN = ["-fsanitize=address"]
TSAN = ["-fsanitize=thread"]
VARIANTS = {
    "asan": ["-O1", "-g1"] + ASAN,
    "ubsan": ["-O1", "-g1"] + SAN,
    "plain": ["-O2", "-g1"],
    "chaos": ["-O1", "-g1"] + INSTR,
    "scotch": ["-O1", "-g1", "-DUSE_PARTITION"] + ASAN,
    "chaosasan": ["-O1", "-g1", "-fsanitize=address"] + INSTR,
    "tsan": ["-O1", "-g1", "-DNICE=1", "-DVH_TSAN", "-DRAFT_VERIF_SHARED", "-include", HERE + "/harness/shared.hpp"] + TSAN + ["--param", "tsan-distinguish-volatile=1"],
}
# for trees on which the detector's types do not compile, see shared.hpp
PLAIN = "-DVH_SHARED_PLAIN"
# elsewhere: the accesses to what orders the two ends of a stream stay in the order of the source
ORDER = ["-DRAFT_VERIF_SHARED", "-DVH_SHARED_ORDER", "-include", HERE + "/harness/shared.hpp"]
for _v in VARIANTS:
    if _v != "tsan":
        VARIANTS[_v] += ORDER
# variants that run another variant's build under a tool
UNDER = {"vg": ("plain", ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--fair-sched=yes", "--vgdb=no", "--num-callers=20"])}
LINK = {"asan": ASAN, "ubsan": SAN, "plain": [], "scotch": ASAN, "chaos": [], "chaosasan": ["-fsanitize=address"], "tsan": TSAN}
# does not compile on any tree (inline function defined twice); nothing in it is used
NOT_BUILT = {"sysschedutil.cpp"}


class NoAnswer(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for pat in ("raft*", "raftinc/*", "src/*"):
        files += [f for f in glob.glob(os.path.join(REPO, pat)) if os.path.isfile(f)]
    for d in ("shim", "harness"):
        for r, _, fs in os.walk(os.path.join(HERE, d)):
            files += [os.path.join(r, f) for f in fs if f.endswith((".hpp", ".tcc")) or d == "shim"]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    h.update(repr((BASE, VARIANTS)).encode())
    return h.hexdigest()[:20]


def compile_one(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return None
    tmp = "%s.%d.o" % (obj, os.getpid())
    p = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return "%s: %s" % (src, p.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, obj)
    return None


def tsan_rt(d, todo=None, seen=None):
    src = os.path.join(HERE, "harness", "tsan_rt.cpp")
    o = os.path.join(d, "tsan_rt_%s.o" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:12])
    if todo is not None and o not in seen:
        seen.add(o)
        todo.append((src, o, ["-O2", "-std=gnu++17"] + [f for f in VARIANTS["tsan"] if f == PLAIN], 1))
    return o


def parts_of(src):
    m = re.search(r"^// PARTS: (\d+)", open(src).read(), re.M)
    return int(m.group(1)) if m else 1


def build(jobs):
    """compiles what the jobs need; returns {(harness, variant): binary}"""
    H = tree_hash()
    top = os.path.join(BUILD, H)
    os.makedirs(top, exist_ok=True)
    for d in os.listdir(BUILD):
        if d != H:
            p = os.path.join(BUILD, d)
            if time.time() - os.path.getmtime(p) > 3600 or len(os.listdir(BUILD)) > 3:
                shutil.rmtree(p, ignore_errors=True)
    todo, links = [], []
    libsrc = [s for s in sorted(glob.glob(REPO + "/src/*.cpp")) if os.path.basename(s) not in NOT_BUILT]
    seen = set()
    for harness, variant in sorted(set(jobs)):
        d = os.path.join(top, variant)
        os.makedirs(d, exist_ok=True)
        flags = BASE + VARIANTS[variant]
        libobjs = []
        for s in libsrc:
            o = os.path.join(d, "lib_" + os.path.basename(s)[:-4] + ".o")
            libobjs.append(o)
            if o not in seen:
                seen.add(o)
                todo.append((s, o, flags, 1))
        src = os.path.join(HERE, "harness", harness + ".cpp")
        hh = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
        n = parts_of(src)
        hobjs = []
        for k in range(n):
            o = os.path.join(d, "h_%s_%d_%s.o" % (harness, k, hh))
            hobjs.append(o)
            # the harness sees the library as a user does
            todo.append((src, o, [f for f in flags if f != "-DLIBCOMPILE=1"] + ["-DPART=%d" % k], 0))
        extra = []
        if "chaos" in variant:
            o = os.path.join(d, "chaos_rt.o")
            extra.append(o)
            if o not in seen:
                seen.add(o)
                todo.append((HERE + "/harness/chaos.cpp", o, ["-O2", "-std=gnu++17"], 1))
        if variant == "tsan":
            extra.append(tsan_rt(d, todo, seen))
        exe = os.path.join(d, "%s_%s" % (harness, hh))
        links.append((harness, variant, exe, hobjs + libobjs + extra))
    todo.sort(key=lambda t: t[3])
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, [t[:3] for t in todo]) if e]
    if errs and any(v == "tsan" for _, v in jobs) and PLAIN not in VARIANTS["tsan"]:
        VARIANTS["tsan"].append(PLAIN)
        return build(jobs)
    if errs and ORDER[1] in VARIANTS["plain"]:
        for v in VARIANTS:
            VARIANTS[v] = [f for f in VARIANTS[v] if v == "tsan" or f not in ORDER]
        return build(jobs)
    if errs:
        raise NoAnswer("build failed: " + errs[0])
    out = {}

    def link(l):
        harness, variant, exe, objs = l
        if not os.path.exists(exe):
            tmp = "%s.%d" % (exe, os.getpid())
            p = subprocess.run(["g++"] + LINK[variant] + objs + ["-pthread", "-ldl", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise NoAnswer("link failed: " + p.stdout.decode(errors="replace")[-3000:])
            os.replace(tmp, exe)
        return (harness, variant), exe
    with ThreadPoolExecutor(NCPU) as ex:
        for k, v in ex.map(link, links):
            out[k] = v
    return out


# programs of the tree that M01 runs under the sanitizers (sums and products in the other
# examples overflow in the example itself; the random-number ones are not built upstream either)
EXAMPLES = ["examples/general/simple/simple", "examples/general/simple/simple2", "examples/general/readfile/readtest", "examples/cppalgo/search/bmh"]


def programs(variant, workroot):
    """builds the tree's own programs, as they are, against the instrumented library and runs each
    once; one that does not compile (some never did) or does not end in time is left out"""
    d = os.path.join(BUILD, tree_hash(), variant)
    libobjs = sorted(glob.glob(d + "/lib_*.o")) + ([tsan_rt(d)] if variant == "tsan" else [])
    flags = [f for f in BASE if f != "-DLIBCOMPILE=1" and not f.endswith("/harness")] + VARIANTS[variant]
    srcs = sorted(glob.glob(REPO + "/testsuite/*.cpp")) + [os.path.join(REPO, e + ".cpp") for e in EXAMPLES]

    def one(src):
        b = os.path.basename(src)[:-4]
        text = open(src, "rb").read()
        exe = os.path.join(d, "prog_%s_%s" % (b, hashlib.sha256(src.encode() + text).hexdigest()[:12]))
        if not os.path.exists(exe):
            if os.path.exists(exe + ".not"):
                return None
            p = subprocess.run(["g++"] + flags + [src] + libobjs + ["-pthread", "-ldl", "-o", exe + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                open(exe + ".not", "wb").write(p.stdout)
                return None
            os.replace(exe + ".tmp", exe)
        work = os.path.join(workroot, "prog-" + b)
        os.makedirs(work, exist_ok=True)
        alice = os.path.join(REPO, "testsuite", "alice.txt")
        shutil.copy(alice, work)
        cmd = [exe] + ([alice, "Alice"] if "/examples/" in src else [])
        r = run_shard(dict(cmd=cmd, work=work, out=os.path.join(work, "stats.json"), timeout=90, harness="programs", variant=variant, noleak=True))
        if r["rc"] == "timeout":
            return None
        return r

    def settle(r):
        # what a program of the tree answers is the business of the test suite; here only what the sanitizers saw counts
        saw = re.search(r"AddressSanitizer|runtime error|UndefinedBehaviorSanitizer", r["text"]) or (isinstance(r["rc"], int) and r["rc"] < 0)
        if not saw:
            r["rc"] = 0
        r["stats"] = dict(cases=1, distinct=[os.path.basename(r["job"]["work"])], interleavings=0, counters={"programs_of_the_tree": 1}, samples=[])
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        rs = [r for r in ex.map(one, srcs) if r]
    if variant == "tsan":
        confirm(rs, [r["job"] for r in rs])
    return [settle(r) for r in rs if r["rc"] != "timeout"]


def known_findings(prop):
    r = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(/.*/) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((re.compile(m.group(2)[1:-1]), m.group(3)))
    except FileNotFoundError:
        pass
    return r


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "exitcode=96:detect_leaks=1:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=205"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"
ENV["LSAN_OPTIONS"] = "max_leaks=5"
# goes on after a report, all of them are looked at in the end
ENV["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:history_size=7:report_thread_leaks=0:report_signal_unsafe=0"
ENV.pop("GEN_DOT", None)


def run_shard(job):
    env = dict(ENV)
    if job.get("noleak"):
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
    work = job["work"]
    os.makedirs(work, exist_ok=True)
    env["TMPDIR"] = work
    log = os.path.join(work, "log")
    with open(log, "wb") as f:
        p = subprocess.Popen(job["cmd"], stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=env, cwd=work)
        try:
            rc = p.wait(timeout=job["timeout"])
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    if job["variant"] == "tsan" and not job.get("fixed") and b"ThreadSanitizer: unexpected memory mapping" in open(log, "rb").read():
        # the detector needs its part of the address space free of random mappings
        return run_shard(dict(job, cmd=["setarch", "-R"] + job["cmd"], fixed=True))
    text = open(log, "rb").read()[-400000:].decode(errors="replace")
    stats = None
    try:
        stats = json.load(open(job["out"]))
    except Exception:
        pass
    races = race_reports(log) if job["variant"] == "tsan" else {}
    return dict(job=job, rc=rc, text=text, stats=stats, races=races)


def frame(f):
    """function, file and line of a frame of a report, without template arguments"""
    m = re.match(r"\s+#\d+ (.*) ([^ ]+):(\d+) \(", f) or re.match(r"\s+#\d+ (.*) (\S+) \(", f)
    if not m:
        return None
    fn, n = "", 0
    for c in m.group(1):
        n += (c == "<") - (c == ">" and n > 0)
        if n == 0 and c != ">":
            fn += c
    return fn.split("(")[0].strip().split(" ")[-1], os.path.basename(m.group(2)), m.group(3) if m.lastindex > 2 else ""


def race_reports(log):
    """{the two places of a race: [number of reports, the first of them]}"""
    out = {}
    text = open(log, "rb").read()[:40000000].decode(errors="replace")
    for rep in re.findall(r"^WARNING: ThreadSanitizer: ([^\n]*\n.*?)^SUMMARY", text, re.M | re.S):
        kind = rep.split(" (pid")[0]
        if not kind.startswith(("data race", "heap-use-after-free", "destroy of a locked", "unlock of an unlocked", "double lock")):
            continue
        places = []
        for st in rep.split("\n\n")[:2]:
            fr = [f for f in map(frame, st.splitlines()[1:] if st else []) if f]
            own = [f for f in fr if os.path.exists(os.path.join(REPO, "src", f[1])) or os.path.exists(os.path.join(REPO, "raftinc", f[1]))]
            places.append("%s (%s)" % ((own or fr or [("?", "?", "?")])[0][0], (own or fr or [("?", "?", "?")])[0][1]))
        key = kind.split(" (")[0] + ": " + " and ".join(sorted(places))
        e = out.setdefault(key, [0, rep[:6000]])
        e[0] += 1
    return out


def confirm(rs, batch):
    """a race counts once it was seen in two processes or more often than once; if there is none such, but others, all is run again"""
    for again in (True, False):
        seen = {}
        for r in rs:
            for k, (n, rep) in r["races"].items():
                seen.setdefault(k, []).append((n, rep, r))
        good = [(k, l) for k, l in seen.items() if sum(n for n, _, _ in l) > 1]
        if good or not seen or not again:
            break
        with ThreadPoolExecutor(len(batch)) as ex:
            rs += [r for r in ex.map(run_shard, batch)]
    for k, l in good:
        r = l[0][2]
        if not r.get("confirmed"):
            r["confirmed"] = (k, l[0][1])


def classify(r):
    """None: fine. Otherwise (kind, key, message); kind is 'violation' or 'error'"""
    rc, text = r["rc"], r["text"]
    if r["job"]["variant"] == "vg":
        # some 30 times slower than life: only what valgrind itself reports counts here
        m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Invalid|Syscall param|Mismatched|Source and dest|Argument|Process terminating)([^\n]*)", text, re.M)
        if m and not (rc == 97 or (isinstance(rc, int) and rc < 0)):
            m = None
        if m is None or rc == -9:
            return None
        fr = [f for f in re.findall(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: ([^\n]*)", text)][:4]
        return ("violation", "valgrind:" + re.sub(r"[^A-Za-z0-9-]+", "-", m.group(1)), (m.group(1) + m.group(2) + "; " + " <- ".join(fr))[:1500], -1)
    m = re.search(r"VH-VIOLATION key=(\S+) case=(-?\d+) :: (.*)", text)
    if m:
        return ("violation", m.group(1), m.group(3)[:1500], int(m.group(2)))
    if r.get("confirmed"):
        key, rep = r["confirmed"]
        return ("violation", "race", key + " :: " + re.sub(r"\s+", " ", rep)[:900], -1)
    if r["job"]["variant"] == "tsan" and r["rc"] == "timeout" and r["races"]:
        return None
    m = re.search(r"VH-HANG key=(\S+) case=(-?\d+) :: (.*)", text)
    if m:
        return ("violation", "no-progress", m.group(3)[:1500], int(m.group(2)))
    cur = -1
    try:
        cur = int(open(r["job"]["out"] + ".cur").read().split()[0])
    except Exception:
        pass
    m = re.search(r"(AddressSanitizer|LeakSanitizer|runtime error|UndefinedBehaviorSanitizer):? ([^\n]*)", text)
    if rc == 0 and r["stats"] is not None:
        return None
    if "Flag parsing failed" in text:
        return ("error", "flags", "sanitizer flags rejected", cur)
    if "LeakSanitizer has encountered a fatal error" in text:
        return ("error", "lsan", "LeakSanitizer cannot run here", cur)
    if m and rc != 0:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", text)
        fr = [f for f in fr if "/repo/" in f or "raftinc" in f or "harness" in f][:3]
        key = re.sub(r"[^A-Za-z0-9-]+", "-", m.group(2))[:40]
        return ("violation", "sanitizer:" + key, "%s %s; %s" % (m.group(1), m.group(2)[:300], " <- ".join(fr)), cur)
    if rc == "timeout":
        return ("error", "timeout", "the harness did not stop in time", cur)
    if rc == -9:
        return ("error", "killed", "killed (out of memory?)", cur)
    if isinstance(rc, int) and rc < 0:
        tail = text.strip().splitlines()[-3:]
        return ("violation", "signal-%d" % -rc, "died of signal %d: %s" % (-rc, " | ".join(tail)[:600]), cur)
    if isinstance(rc, int) and rc != 0:
        tail = text.strip().splitlines()[-3:]
        return ("violation", "exit-%d" % rc, "ended with exit code %d: %s" % (rc, " | ".join(tail)[:600]), cur)
    return ("error", "nostats", "no statistics were written", cur)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    workroot = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(workroot, ignore_errors=True)
    os.makedirs(workroot)
    try:
        return decide(prop, spec, tier, seed, workroot, t0)
    finally:
        shutil.rmtree(workroot, ignore_errors=True)


def decide(prop, spec, tier, seed, workroot, t0):
    jobs = spec["jobs"]
    bins = build([(j["harness"], UNDER.get(v, (v,))[0]) for j in jobs for v in j["variants"] if j["harness"] != "programs"])
    tb = time.time()
    scale = 1.0 if tier == "quick" else 12.0
    results = []
    total_w = sum(j.get("weight", 1) * len(j["variants"]) for j in jobs if j["harness"] != "programs")
    budget = spec.get("secs", 26) * scale
    # a job's shards run at once on all cores, one job after another
    for ji, j in enumerate(jobs):
        for vi, v in enumerate(j["variants"]):
            if j["harness"] == "programs":
                results += programs(v, workroot)
                continue
            built, tool = UNDER.get(v, (v, []))
            exe = bins[(j["harness"], built)]
            secs = max(1.0, budget * j.get("weight", 1) / total_w)
            shards = j.get("shards", NCPU)
            batch = []
            for s in range(shards):
                work = os.path.join(workroot, "%d-%s-%d" % (ji, v, s))
                out = os.path.join(work, "stats.json")
                cmd = tool + [exe, "--seed", str(seed * 1000 + ji * 10 + vi), "--secs", "%.1f" % secs, "--shard", "%d/%d" % (s, shards), "--out", out]
                if tier == "thorough":
                    cmd.append("--thorough")
                for k, val in j.get("opts", {}).items():
                    cmd += ["--" + k, str(val)]
                batch.append(dict(cmd=cmd, work=work, out=out, timeout=secs + 400, harness=j["harness"], variant=v))
            with ThreadPoolExecutor(shards) as ex:
                rs = list(ex.map(run_shard, batch))
            for i, r in enumerate(rs):
                if (classify(r) or ("",))[0] == "error" and "LeakSanitizer has encountered" in r["text"]:
                    batch[i]["noleak"] = True
                    rs[i] = run_shard(batch[i])
            if v == "tsan":
                confirm(rs, batch)
            results += rs
            if any((classify(r) or ("",))[0] == "violation" for r in rs):
                break
        else:
            continue
        break
    known = known_findings(prop)
    viol, errors, seen_known = [], [], {}
    for r in results:
        c = classify(r)
        if c is None:
            continue
        if c[0] == "error":
            errors.append((r, c))
            continue
        for rx, what in known:
            if rx.search(c[1] + " " + c[2]):
                seen_known[what] = True
                break
        else:
            viol.append((r, c))
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=spec["rule"], samples=[], interleavings_observed=0, counters={}, workloads=[])
    distinct = set()
    for r in results:
        s = r["stats"]
        if not s:
            continue
        cov["evaluations"] += s["cases"]
        distinct.update(s["distinct"])
        cov["interleavings_observed"] += s["interleavings"]
        for k, n in s["counters"].items():
            cov["counters"][k] = cov["counters"].get(k, 0) + n
        if len(cov["samples"]) < 6 and s["samples"]:
            cov["samples"].append("%s/%s: %s" % (r["job"]["harness"], r["job"]["variant"], s["samples"][0][:700]))
    cov["distinct_nontrivial"] = len(distinct)
    ran = {}
    for r in results:
        k = "%s/%s" % (r["job"]["harness"], r["job"]["variant"])
        ran.setdefault(k, [0, 0])
        ran[k][0] += 1
        ran[k][1] += (r["stats"] or {}).get("cases", 0)
    cov["workloads"] = ["%s: %d processes, %d cases" % (k, a, b) for k, (a, b) in sorted(ran.items())]
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), build_s=round(tb - t0, 2), violations=len(viol))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viol:
        n = 0
        for r, c in viol[:3]:
            n += 1
            path = os.path.join(EVID, "replay-%s-%d.txt" % (prop, n))
            cmd = list(r["job"]["cmd"])
            if c[3] >= 0:
                cmd += ["--case", str(c[3])]
            with open(path, "w") as f:
                f.write("property %s\nkey %s\nwhat %s\ncase %d\nbuild variant %s of harness/%s.cpp (python3 check.py %s builds it)\ncommand %s\n\n%s\n" % (
                    prop, c[1], c[2], c[3], r["job"]["variant"], r["job"]["harness"], prop, " ".join(map(shlex.quote, cmd)), r["text"][-20000:]))
            print("%s: %s: %s" % (prop, c[1], c[2]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        r, c = errors[0]
        print("no answer: %s (%s)\n%s" % (c[2], " ".join(r["job"]["cmd"]), r["text"][-1500:]), file=sys.stderr)
        return 2
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] < 2:
        print("no answer: nothing was explored", file=sys.stderr)
        return 2
    print("%s: held; %d cases (%d distinct), %.1f s build, %.1f s in all" % (prop, cov["evaluations"], len(distinct), tb - t0, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("no answer: %s" % e, file=sys.stderr)
        sys.exit(2)
