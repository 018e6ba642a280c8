#!/usr/bin/env python3
"""Builds and runs the monitor for one property. See DESIGN.md, 'Running a check'."""
import concurrent.futures, json, os, resource, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from modules import MODULE_OF

DEADLY = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}
AS_LIMIT = 12 << 30
# further processes beside the first one, and the wall-clock seconds after which they start no new round
EXTRA = {"quick": (5, 10), "thorough": (6, 540)}


def build(feature, env):
    cmd = ["cargo", "build", "--offline", "--quiet", "--features", feature]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[:6000])
        print("ERROR: the monitors do not build against /repo's working tree")
        sys.exit(2)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, prop, tier, seed, exe, env):
        self.prop, self.tier, self.exe, self.env = prop, tier, exe, env
        self.replays = os.path.join(VERIF, "replays")
        self.stem = os.path.join(self.replays, "run-%s-%d" % (prop, os.getpid()))
        self.seed = seed
        self.files = []

    def path(self, name):
        p = "%s-%s" % (self.stem, name)
        self.files.append(p)
        return p

    def execute(self, name, seed, args):
        """One process: (exit code, output, the evidence it wrote or None). A process that dies inside a case has found a violation."""
        crumb, out = self.path(name + ".crumb"), self.path(name + ".json")
        env = dict(self.env, MON_CRUMB=crumb)
        base = [self.exe, self.prop, "--tier", self.tier, "--seed", str(seed), "--replays", self.replays]

        def run(a):
            p = subprocess.run(base + a, env=env, preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            return p.returncode, p.stdout
        rc, text = run(["--out", out, "--hashes", self.path(name + ".hashes")] + args)
        if rc >= 0 and rc != 101:
            try:
                return rc, text, json.load(open(out))
            except (OSError, ValueError):
                return rc, text, None
        sig = signal.Signals(-rc) if rc < 0 else None
        try:
            line = open(crumb).read()
            group, case = line[8:68].strip(), line[68:88].strip()
        except OSError:
            group, case = "", ""
        if sig not in DEADLY or not group:
            return 2, text + "ERROR: the monitor process ended with %s\n" % (sig or rc), None
        # it died inside one case: see what that case does alone
        rc2, text2 = run(["--only", "%s:%s" % (group, case)] + [a for a in args if a == "--verbose"]) if "--only" not in args else (rc, text)
        what = "the process died of %s in %s:%s (alone: %s)" % (sig.name, group, case, rc2)
        replay = os.path.join(self.replays, "%s-%s-%s.json" % (self.prop, "".join(c if c.isalnum() else "_" for c in group), case))
        with open(replay, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": seed, "workload": group, "case": case, "observed": what,
                       "output": text[-2000:], "replay": "cd /verif && VERIF_SEED=%s VERIF_TIER=%s ./check.sh %s --only '%s:%s'" % (seed, self.tier, self.prop, group, case)}, f, indent=1)
        evidence = {"property": self.prop, "tier": self.tier, "seed": int(seed), "level": "exploration",
                    "coverage": {"evaluations": int(case or 0) + 1, "distinct_nontrivial": 1, "rule": "the run ended when the process died", "samples": [what]},
                    "wall_s": 0, "violations": 1}
        return 1, "%s\nVIOLATION property=%s replay=%s\n  %s\n" % (text.rstrip(), self.prop, replay, what), evidence

    def explore(self, args):
        """The first process runs the tier as configured; others run it with further seeds until the time is up."""
        start = time.time()
        workers, budget = EXTRA[self.tier]
        first = {}
        stop = threading.Event()

        def main():
            first["result"] = self.execute("0", self.seed, args)
            if first["result"][0] != 0:
                stop.set()

        def more(w):
            done = []
            k = 0
            while not stop.is_set():
                left = budget - (time.time() - start)
                if left < 1 and (k > 0 or self.tier == "thorough"):
                    break
                k += 1
                seed = self.seed + 1000003 * (w + 1) + 7919 * k
                r = self.execute("%d.%d" % (w + 1, k), seed, args + (["--seconds", str(int(left) + 30)] if self.tier == "thorough" else []))
                done.append(r)
                if r[0] != 0:
                    stop.set()
            return done
        with concurrent.futures.ThreadPoolExecutor(workers + 1) as pool:
            f = pool.submit(main)
            rest = [pool.submit(more, w) for w in range(workers)]
            f.result()
            results = [first["result"]] + [r for x in rest for r in x.result()]
        return results, time.time() - start

    def merge(self, results, wall):
        parts = [r[2] for r in results if r[2]]
        if not parts:
            return None
        ev = parts[0]
        cov = ev["coverage"]
        for p in parts[1:]:
            q = p["coverage"]
            cov["evaluations"] += q["evaluations"]
            for key in ("executions_by_workload", "observed"):
                for k, v in q.get(key, {}).items():
                    cov.setdefault(key, {})
                    cov[key][k] = cov[key].get(k, 0) + v
            ev["violations"] += p["violations"]
        hashes = [f for f in self.files if f.endswith(".hashes") and os.path.exists(f)]
        n = subprocess.run([self.exe, "union"] + hashes, stdout=subprocess.PIPE, text=True).stdout.strip()
        if n.isdigit() and int(n) > 0:
            cov["distinct_nontrivial"] = int(n)
        cov.pop("distinct_observations", None)
        cov["processes"] = len(parts)
        cov["seeds"] = "%d processes: VERIF_SEED, and derived seeds for the others" % len(parts)
        ev["wall_s"] = round(wall, 2)
        return ev

    def clean(self):
        for f in self.files + [self.exe]:
            if os.path.exists(f):
                os.remove(f)


def main():
    prop, extra = sys.argv[1], sys.argv[2:]
    module = MODULE_OF.get(prop)
    if module is None:
        print("ERROR: no check for", prop)
        sys.exit(2)
    if module == "memory":
        import memory
        sys.exit(memory.main(prop, extra))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in EXTRA else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    target = os.environ.get("MON_TARGET", os.path.join(VERIF, "target"))
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints allow")
    build(module, env)
    env["MON_KNOWN"] = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = os.path.join(VERIF, "evidence", prop + ".json")
    # started from a copy, so that a concurrent build of another module cannot replace it
    exe = os.path.join(VERIF, "replays", "monitors-%s-%d" % (prop, os.getpid()))
    subprocess.run(["cp", os.path.join(target, "debug", "monitors"), exe], check=True)
    check = Check(prop, tier, seed, exe, env)
    try:
        if "--only" in extra or "--single" in extra:
            rc, text, _ = check.execute("0", seed, [a for a in extra if a != "--single"])
            sys.stdout.write(text)
            sys.exit(rc)
        if os.path.exists(out):
            os.remove(out)
        results, wall = check.explore(extra)
        ev = check.merge(results, wall)
        if ev:
            with open(out, "w") as f:
                json.dump(ev, f, indent=1, ensure_ascii=False)
        codes = [r[0] for r in results]
        if 1 in codes:
            for r in [r for r in results if r[0] == 1][:3]:
                sys.stdout.write(r[1])
            sys.exit(1)
        bad = next((r for r in results if r[0] != 0), None)
        if bad:
            sys.stdout.write(bad[1])
            sys.exit(bad[0])
        for line in results[0][1].splitlines():
            if not line.startswith("HELD"):
                print(line)
        c = ev["coverage"]
        print("HELD property=%s on %d executions (%d distinct non-trivial) in %d processes, %.1f s" % (prop, c["evaluations"], c["distinct_nontrivial"], c["processes"], wall))
    finally:
        check.clean()


main()
