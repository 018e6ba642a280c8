"""X01: runs hostile workloads and the other monitors under tools that watch for undefined behaviour.
Only the tools' reports decide; what the other monitors say about their own properties is ignored here."""
import concurrent.futures, json, os, re, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
GROUPS = ["neighbours", "networks", "clusters", "shuffles", "long shuffles", "threads", "rest", "components"]
DEADLY = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}
ASAN_KINDS = ("heap-buffer-overflow", "stack-buffer-overflow", "stack-buffer-underflow", "dynamic-stack-buffer-overflow", "global-buffer-overflow",
              "heap-use-after-free", "stack-use-after", "use-after-poison", "attempting double-free", "attempting free on address", "SEGV", "BUS",
              "alloc-dealloc-mismatch", "new-delete-type-mismatch", "container-overflow", "negative-size-param", "memcpy-param-overlap", "unknown-crash")
# What a user's release build runs: no debug assertions that would stop a call before the unchecked access.
RELEASE_LIKE = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}


def main(prop, extra):
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replays = os.path.join(VERIF, "replays")
    work = os.path.join(replays, "memory-%d" % os.getpid())
    for d in (os.path.join(VERIF, "evidence"), replays, work):
        os.makedirs(d, exist_ok=True)
    start = time.time()
    base = dict(os.environ, CARGO_NET_OFFLINE="true", MON_KNOWN=os.path.join(VERIF, "KNOWN_FINDINGS"))
    base.pop("RUSTFLAGS", None)
    target = os.environ.get("MON_TARGET", os.path.join(VERIF, "target"))
    only = extra[extra.index("--only") + 1] if "--only" in extra else None
    tool_only = extra[extra.index("--tool") + 1] if "--tool" in extra else None

    def copy(src, name):
        dst = os.path.join(work, name)
        subprocess.run(["cp", src, dst], check=True)
        return dst

    builds = {
        "native": (["cargo", "build", "--features", "memory"], dict(CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints allow"), "debug/monitors"),
        "memcheck": (["cargo", "build", "--features", "all"], dict(RELEASE_LIKE, CARGO_TARGET_DIR=os.path.join(target, "plain"), RUSTFLAGS="--cap-lints allow"), "debug/monitors"),
        "asan": (["cargo", "+nightly", "build", "--features", "all", "--target", TRIPLE],
                 dict(RELEASE_LIKE, CARGO_TARGET_DIR=os.path.join(target, "asan"), RUSTFLAGS="--cap-lints allow -Zsanitizer=address"), TRIPLE + "/debug/monitors"),
        "miri": (["cargo", "+nightly", "miri", "run", "--features", "all"],
                 dict(RELEASE_LIKE, CARGO_TARGET_DIR=os.path.join(target, "miri"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"), None),
    }
    exe, broken = {}, {}

    def build(tool):
        cmd, env, out = builds[tool]
        cmd = cmd + ["--offline", "--quiet"]
        if tool == "miri":
            cmd += ["--", prop, "--only", "none:0"]
        p = subprocess.run(cmd, cwd=HARNESS, env=dict(base, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            broken[tool] = p.stdout[-1500:]
        else:
            exe[tool] = copy(os.path.join(env["CARGO_TARGET_DIR"], out), tool) if out else "miri"

    tools = [t for t in builds if tool_only in (None, t)]
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(build, tools))
    if "native" in broken:
        print(broken["native"])
        print("ERROR: the monitors do not build against /repo's working tree")
        sys.exit(2)

    sys.path.insert(0, os.path.join(VERIF, "tools"))
    from modules import MODULE_OF
    others = sorted(p for p in MODULE_OF if p != prop)
    jobs = []  # (tool, property, seed, arguments, seconds after which it is stopped)
    if only:
        for t in exe:
            jobs.append((t, prop, seed, ["--only", only], 800))
    elif thorough:
        for k in range(3):
            jobs.append(("native", prop, seed + k, [], 300))
        for i, g in enumerate(GROUPS):
            jobs.append(("miri", prop, seed, ["--group", g, "--seconds", "330"], 500))
        jobs.append(("miri-tree", prop, seed + 1, ["--group", "networks", "--seconds", "200"], 400))
        jobs.append(("miri-tree", prop, seed + 1, ["--group", "shuffles", "--seconds", "200"], 400))
        for i, g in enumerate(GROUPS):
            jobs.append(("memcheck", prop, seed + i, ["--group", g, "--seconds", "90"], 300))
        for k in range(4):
            jobs.append(("asan", prop, seed + k, ["--seconds", "60"], 300))
        jobs += [("asan", p, seed, ["--scale", "0.3", "--seconds", "40"], 200) for p in others]
        jobs += [("memcheck", p, seed, ["--scale", "0.01", "--seconds", "20"], 120) for p in others]
    else:
        for i, g in enumerate(GROUPS):
            jobs.append(("miri", prop, seed, ["--group", g, "--seconds", "60"], 200))
        jobs.append(("native", prop, seed, ["--scale", "4"], 300))
        jobs.append(("asan", prop, seed, ["--scale", "3", "--seconds", "30"], 200))
        jobs.append(("memcheck", prop, seed, ["--seconds", "40"], 200))
        jobs += [("asan", p, seed, ["--scale", "0.1", "--seconds", "10"], 100) for p in others]
        jobs.append(("asan", "R03", seed, ["--group", "every length", "--seconds", "20"], 100))
        jobs.append(("asan", "R01", seed, ["--group", "every small size", "--seconds", "20"], 100))
    jobs = [j for j in jobs if j[0].split("-")[0] in exe]

    lock = threading.Lock()
    found, odd, totals, samples = [], [], {}, []

    def run(i):
        tool, p, sd, args, limit = jobs[i]
        crumb = os.path.join(work, "crumb-%d" % i)
        env = dict(base, MON_CRUMB=crumb)
        rest = [p, "--tier", tier, "--seed", str(sd), "--replays", work] + args
        cwd = HARNESS
        ev = None
        if tool == "native":
            ev = os.path.join(work, "ev-%d.json" % i)
            cmd = [exe[tool]] + rest + ["--out", ev]
        elif tool == "asan":
            env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1"
            cmd = [exe[tool]] + rest
        elif tool == "memcheck":
            cmd = ["valgrind", "--tool=memcheck", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--main-stacksize=8388608", exe[tool]] + rest
        else:
            env.update(builds["miri"][1])
            if tool == "miri-tree":
                env["MIRIFLAGS"] += " -Zmiri-tree-borrows"
            cmd = ["cargo", "+nightly", "miri", "run", "--features", "all", "--offline", "--quiet", "--"] + rest
        t = time.time()
        proc = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            text = proc.communicate(timeout=limit)[0]
            rc = proc.returncode
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, signal.SIGKILL)
            text = proc.communicate()[0]
            rc = None
        try:
            line = open(crumb).read()
            where = (line[8:68].strip(), line[68:88].strip())
        except OSError:
            where = ("", "")
        what = None
        if tool.startswith("miri"):
            m = re.search(r"error: Undefined Behavior: .*", text)
            if m:
                at = re.search(r"--> (/repo/[^\s]+)", text[m.start():])
                what = "Miri: %s%s" % (m.group(0)[7:], " at " + at.group(1) if at else "")
        elif tool == "asan":
            m = re.search(r"ERROR: AddressSanitizer: .*", text)
            if m and any(k in m.group(0) for k in ASAN_KINDS):
                at = re.search(r"in .* (/repo/[^\s]+)", text[m.start():])
                what = "%s%s" % (m.group(0)[7:], " at " + at.group(1) if at else "")
        elif tool == "memcheck":
            if rc == 99:
                m = re.search(r"==\d+== (Conditional jump.*|Use of uninit.*|Invalid .*|Syscall param.*|Source and dest.*|.*illegal.*|Mismatched.*|Argument .*)", text)
                if m:
                    at = re.search(r"\(((?:[a-z_]+\.rs):\d+)\)", text[m.start():])
                    what = "memcheck: %s%s" % (m.group(1), " at " + at.group(1) if at else "")
        elif rc is not None and rc < 0 and signal.Signals(-rc) in DEADLY:
            m = re.search(r"unsafe precondition.*", text)
            what = "the process died of %s%s" % (signal.Signals(-rc).name, ": " + m.group(0) if m else "")
        elif rc == 1:
            m = re.search(r"VIOLATION property=\S+ replay=\S+\n\s*(.*)", text)
            if m and p == prop:
                what = m.group(1)
        m = re.search(r"HELD property=\S+ on (\d+) executions \((\d+) distinct non-trivial\)[^;]*; (.*)", text)
        with lock:
            tt = totals.setdefault(tool, {"processes": 0, "executions": 0, "distinct": 0, "calls that returned": 0, "calls that panicked": 0, "seconds": 0.0})
            tt["processes"] += 1
            tt["seconds"] = round(tt["seconds"] + time.time() - t, 1)
            if m:
                tt["executions"] += int(m.group(1))
                tt["distinct"] += int(m.group(2))
                for k in ("calls that returned", "calls that panicked"):
                    c = re.search(re.escape(k) + r"=(\d+)", m.group(3))
                    tt[k] += int(c.group(1)) if c else 0
            if ev and os.path.exists(ev):
                try:
                    samples.extend(json.load(open(ev))["coverage"]["samples"])
                except (ValueError, KeyError):
                    pass
            if what:
                found.append((tool, p, sd, args, where, what, text[-4000:]))
            elif not m and p == prop:
                odd.append("%s %s: ended with %s in %s" % (tool, " ".join(rest[:1] + args), "a timeout" if rc is None else rc, ":".join(where)))

    # the long ones first
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(run, range(len(jobs))))
    for t, why in broken.items():
        odd.append("%s could not be built: %s" % (t, why[-400:]))

    ran = sum(t["executions"] for t in totals.values())
    rc = 0
    for k, (tool, p, sd, args, where, what, text) in enumerate(found[:6]):
        replay = os.path.join(replays, "X01-%s-%s-%s-%s.json" % (tool, p, re.sub(r"\W", "_", where[0]), where[1]))
        with open(replay, "w") as f:
            json.dump({"property": prop, "tool": tool, "monitor": p, "seed": sd, "workload": where[0], "case": where[1], "observed": what, "output": text,
                       "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh X01 --tool %s --only '%s:%s'" % (sd, tier, tool.split("-")[0], where[0], where[1])}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        print("  %s, %s %s:%s: %s" % (tool, p, where[0], where[1], what))
        rc = 1
    for o in odd:
        print("NOTE: " + o)
    if not only:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": ran, "distinct_nontrivial": sum(t["distinct"] for t in totals.values()),
                           "rule": "An execution is one case of a hostile workload (harness/src/memory.rs) or of another monitor, run under one tool; distinct by random seed and tool. Hostile cases mix empty and mismatched shapes, NaN and infinities, retraining after failures, out-of-range neighbours and indices, layers that lie about their parameters, optimisers that return any number of weights and extreme random words, and read every result in full.",
                           "by_tool": totals, "not_run_or_odd": odd, "samples": (samples or ["(none)"])[:14]},
              "assumptions": ["rulinalg and num are stand-ins (see DESIGN.md); their own unchecked accessors are what the crate's unsafe code calls",
                              "Miri, AddressSanitizer and memcheck run a release-like build (no debug assertions); the native run has debug assertions and std's unsafe-precondition checks"],
              "wall_s": round(time.time() - start, 1), "violations": len(found)}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", work])
    if rc == 0:
        if ran == 0 and not only:
            print("INCONCLUSIVE property=%s nothing was observed" % prop)
            return 3
        print("HELD property=%s in %.0f s: %s" % (prop, time.time() - start, "; ".join("%s: %d executions" % (k, v["executions"]) for k, v in sorted(totals.items()))))
    return rc
