#!/usr/bin/env python3
"""Run the model-checking harness of one property against /repo's working tree.

usage: check.py PROPERTY [quick|thorough] [--only SCENARIO-REGEX] [--keep]
exit 0: held on everything explored; 1: violation (line VIOLATION property=.. replay=..); 2: no answer
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NCPU = 8

INC = [
    "core/modules/core/include", "core/modules/mem_mdlw/include", "core/modules/socket_mdlw/include",
    "core/modules/zmq_mdlw/include", "high_performance/modules/high_performance/include",
    "serialization/modules/serialization/include", "state_machine/modules/state_machine/include",
    "state_machine/modules/json_conf/include",
]
# the sources of the modules; a file that is not listed is new and goes into every harness (only what it needs is linked)
SRC = {os.path.join("core/modules", d, "src", f + ".cpp") for d, fs in (
    ("core", "configuration_environment core_container prop_file_environment version"),
    ("mem_mdlw", "basic_scheduler in_memory_queue_poller mem_env"),
    ("socket_mdlw", "base_socket connect_socket data_socket protocol protocol_simple server_socket"),
    ("zmq_mdlw", "zmq_env")) for f in fs.split()} | {
    "high_performance/modules/high_performance/src/event_loop_scheduler.cpp"} | {
    os.path.join("state_machine/modules", d, "src", f + ".cpp") for d, fs in (
        ("json_conf", "json_config_loader kpsr_state_machine"),
        ("state_machine", "sm_factory_impl state_impl state_machine_impl state_machine_listener transition_impl"))
    for f in fs.split()}
EXTRA_INC = ["/usr/include/concurrentqueue/moodycamel", "/usr/include/concurrentqueue"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_rt():
    """libmc.so: the explorer; depends only on /verif, so it is cached on its own content."""
    src = os.path.join(HERE, "rt/mc.cpp")
    h = hashlib.sha256(open(src, "rb").read() + open(os.path.join(HERE, "rt/mc.h"), "rb").read()).hexdigest()[:16]
    d = os.path.join(BUILD, "rt-" + h)
    so = os.path.join(d, "libmc.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        r = sh(["g++", "-std=c++17", "-O2", "-g1", "-fPIC", "-shared", "-fno-stack-protector", "-fno-builtin",
                "-mfsgsbase", src, "-o", tmp, "-ldl"])
        if r.returncode:
            print(r.stdout)
            sys.exit(2)
        os.rename(tmp, so)
    return d


def directives(path):
    """// @repo: files, // @flags: ..., // @std: ... in the harness source"""
    d = {"repo": [], "flags": [], "std": ["c++17"], "libs": [], "opt": ["-O1"]}
    for line in open(path):
        m = re.match(r"//\s*@(\w+):\s*(.*)", line)
        if m:
            if m.group(1) in ("std", "opt"):
                d[m.group(1)] = m.group(2).split()
            else:
                d[m.group(1)] += m.group(2).split()
    return d


def build_harness(src, out, rtdir):
    d = directives(src)
    inc = ["-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(HERE, "harness")]
    if "--no-sdk" not in d["flags"]:
        inc += ["-I" + os.path.join(HERE, "sdk"), "-include", os.path.join(HERE, "sdk/prelude.h")]
    flags = [f for f in d["flags"] if f != "--no-sdk"]
    inc += ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + i for i in EXTRA_INC]
    cc = ["g++", "-std=" + d["std"][0], "-g1", "-no-pie", "-fno-pie", "-fsanitize=thread", "-Wno-tsan", "-w",
          "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DNDEBUG", "-DVERIF_MC",
          "-fno-inline-functions-called-once"] + d["opt"] + flags + inc
    units = [src] + [u for u in (os.path.join(REPO, r) for r in d["repo"]) if os.path.exists(u)]
    objs = []
    jobs = []
    every = sorted(glob.glob(os.path.join(REPO, "*/modules/**/src/**/*.cpp"), recursive=True))
    new = [u for u in every if os.path.relpath(u, REPO) not in SRC]
    for i, u in enumerate(units):
        o = os.path.join(out, "u%d.o" % i)
        objs.append(o)
        jobs.append(cc + ["-c", u, "-o", o])
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                print(r.stdout[-6000:])
                print("BUILD-ERROR %s" % src)
                return None
    exe = os.path.join(out, os.path.basename(src)[:-4])

    def archive(files):
        ar = os.path.join(out, "a%d.a" % len(files))
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(sh, [cc + ["-c", u, "-o", "%s.%d.o" % (ar, i)] for i, u in enumerate(files)]))
        ok = ["%s.%d.o" % (ar, i) for i, r in enumerate(rs) if not r.returncode]
        return [ar] if ok and not sh(["ar", "rcs", ar] + ok).returncode else []

    def link(objs):
        return sh(["g++", "-no-pie", "-rdynamic"] + objs + ["-o", exe, "-L" + rtdir, "-lmc", "-Wl,-rpath," + rtdir] +
                  d["libs"] + ["-lpthread"])
    r = link(objs + (archive(new) if new else []))
    if r.returncode:  # something has moved to another source file
        r = link(objs + archive([u for u in every if u not in units]))
    if r.returncode:
        print(r.stdout[-6000:])
        print("LINK-ERROR %s" % src)
        return None
    return exe


def load_known():
    """known-findings.txt lines: finding: property=<id> scenario=<regex> key=<regex> what=<text>"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+scenario=(\S+)\s+key=/(.*?)/\s+what=(.*)", line)
            if m:
                out.append(dict(property=m.group(1), scenario=m.group(2), key=m.group(3), what=m.group(4).strip()))
    return out


def short(m):
    for a, b in (("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string"),
                 ("(anonymous namespace)::", "")):
        m = m.replace(a, b)
    m = re.sub(r", std::allocator<[^<>]*>", "", m)
    return m if len(m) < 420 else m[:200] + " ... " + m[-200:]


def main():
    argv = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
        argv = [a for a in argv if a != only]
        tier = argv[1] if len(argv) > 1 else "quick"
    t0 = time.time()
    rtdir = build_rt()
    work = os.path.join(BUILD, "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    hd = os.path.join(HERE, "harness")
    srcs = sorted(f for f in os.listdir(hd) if re.match(re.escape(prop) + r"[a-z_]*\.cpp$", f))
    exes = []
    with ThreadPoolExecutor(4) as ex:
        def b(f):
            o = os.path.join(work, f[:-4] + ".d")
            os.makedirs(o)
            return build_harness(os.path.join(hd, f), o, rtdir)
        exes = list(ex.map(b, srcs))
    if not exes or None in exes:
        print("NO-ANSWER property=%s: the harness does not build against the current tree" % prop)
        return 2
    thor = ["--thorough"] if tier == "thorough" else []
    jobs = []
    for e in exes:
        r = sh([e, "--list"] + thor)
        if r.returncode:
            print(r.stdout)
            return 2
        for line in r.stdout.splitlines():
            n, secs = line.split()
            if only and not re.search(only, n):
                continue
            jobs.append((e, n, float(secs)))
    # wall-clock plan: a check has 900 s in all
    jobs.sort(key=lambda j: -j[2])

    def run(j):
        e, n, secs = j
        js = os.path.join(work, n + ".json")
        cmd = [e, "--scenario", n, "--json", js] + thor
        try:
            r = sh(cmd, timeout=secs * 2 + 120, env=dict(os.environ, LC_ALL="C"))
        except subprocess.TimeoutExpired:
            return j, None, "TIMEOUT"
        if not os.path.exists(js):
            return j, None, "rc=%d\n%s" % (r.returncode, r.stdout[-3000:])
        return j, json.load(open(js))[0], r.stdout

    results = []
    bad = []
    with ThreadPoolExecutor(NCPU) as ex:
        for j, res, out in ex.map(run, jobs):
            if res is None:
                bad.append("scenario %s gave no result: %s" % (j[1], out))
                continue
            results.append((j, res))
            print("  " + out.strip().splitlines()[0] if out.strip() else j[1])
            if res["diverged"]:
                bad.append("scenario %s: replay diverged (nondeterministic harness)" % j[1])
    known = [k for k in load_known() if k["property"] == prop]
    new = []
    knownhit = {}
    repl = os.path.join(HERE, "replays")
    treplay = time.time()
    for j, res in results:
        for v in res["violations"][:8]:
            if len(new) >= 20 or (new and time.time() - treplay > 60):
                break  # enough of them shown
            os.makedirs(repl, exist_ok=True)
            rp = os.path.join(repl, "%s-%s-%s.txt" % (prop, res["scenario"], hashlib.sha256(v["key"].encode()).hexdigest()[:8]))
            b = res["budgets"]
            with open(rp, "w") as f:
                f.write("property %s\nharness %s\nscenario %s\nbudgets %d %d %d %d %d\nkey %s\nmessage %s\n" % (
                    prop, os.path.basename(j[0]), res["scenario"], v["bound"], b[1], b[2], b[3], b[4],
                    v["key"].replace("\n", " "), v["msg"].replace("\n", " ")))
                c = v["choices"]
                first = True
                for i in range(0, max(len(c), 1), 5000):
                    f.write(("choices " if first else "more ") + " ".join(map(str, c[i:i + 5000])) + "\n")
                    first = False
            try:
                rr = sh([j[0], "--replay", rp], timeout=120)
            except subprocess.TimeoutExpired:
                bad.append("violation '%s' in %s: the replay takes too long" % (v["key"], res["scenario"]))
                continue
            if rr.returncode != 1:
                # found again by exploring the scenario anew (the outcome of an access to memory that was never written, say,
                # may depend on what the process did before the schedule in question)
                again = run(j)[1]
                if again and any(w["key"] == v["key"] for w in again["violations"]):
                    with open(rp, "a") as f:
                        f.write("\n# not reproduced by this schedule alone, but by exploring the scenario a second time:\n# %s --scenario %s\n" % (os.path.basename(j[0]), j[1]))
                    rr.returncode = 1
            if rr.returncode != 1:
                bad.append("violation '%s' in %s does not replay (rc %d)" % (v["key"], res["scenario"], rr.returncode))
                continue
            with open(rp, "a") as f:
                f.write("\n# replay with: check.py --replay-file <this file>\n" +
                        "".join("# " + l + "\n" for l in rr.stdout.splitlines()))
            hit = None
            for k in known:
                if re.fullmatch(k["scenario"], res["scenario"]) and re.search(k["key"], v["key"]):
                    hit = k
                    break
            if hit:
                knownhit.setdefault(hit["what"], []).append(v["key"])
            else:
                new.append((res["scenario"], v, rp))
    tot = lambda k: sum(r[k] for _, r in results)
    capped = [r["scenario"] for _, r in results if r["capped"]]
    execs = tot("executions")
    ev = {
        "property": prop, "tier": "thorough" if tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": max(tot("states") + tot("cases"), 1), "transitions": max(tot("transitions"), 1),
            "traces_validated_against_impl": max(execs + tot("cases"), 1),
            "samples": [{"scenario": r["scenario"], "executions": r["executions"], "sequences_in_body": r["cases"], "distinct_outcomes": r["outcomes"],
                         "preemption_bound": r["bound"], "delay_bounded": r["delays"], "completed_bound": r["completed_bound"],
                         "exhaustive_unbounded": r["exhaustive"], "wall_cap_hit": r["capped"],
                         "timer_budget": r["budgets"][1], "spurious_budget": r["budgets"][2],
                         "stale_load_budget": r["budgets"][3], "max_steps": r["max_steps"],
                         "pruned_equivalent": r["pruned"]} for _, r in results],
            "scenarios": len(results), "scenarios_wall_capped": capped,
            "binding": "no separate model: every trace is an execution of the code compiled from the working tree "
                       "under the controlled scheduler; violations are re-executed from their schedule before being reported",
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"scenario": s, "key": v["key"], "replay": rp} for s, v, rp in new],
    }
    if knownhit:
        ev["coverage"]["known_findings_hit"] = sorted(knownhit)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for s, v, rp in new:
        print("  %s: %s" % (s, short(v["msg"])))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for b in bad:
        print("PROBLEM " + b)
    print("%s %s: scenarios=%d executions=%d sequences=%d states=%d transitions=%d capped=%d %.1fs" % (
        prop, tier, len(results), execs, tot("cases"), tot("states"), tot("transitions"), len(capped), time.time() - t0))
    if "--keep" not in sys.argv:
        shutil.rmtree(work, ignore_errors=True)
    if new:
        return 1
    return 2 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build_rt()
        sys.exit(0)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay-file":
        h = [l.split()[1] for l in open(sys.argv[2]) if l.startswith("harness ")][0]
        rtd = build_rt()
        o = os.path.join(BUILD, "replay")
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        exe = build_harness(os.path.join(HERE, "harness", h + ".cpp"), o, rtd)
        r = subprocess.run([exe, "--replay", sys.argv[2]])
        sys.exit(r.returncode)
    sys.exit(main())
