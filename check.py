#!/usr/bin/env python3
"""Decides one property by seeded simulation of /repo's current sources.

usage: check.py PROPERTY [quick|thorough]      exit 0 held / 1 violated (VIOLATION line) / 2 the check itself failed
       check.py --replay FILE                  executes a replay file again"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build  # noqa: E402
from parts import PARTS, META  # noqa: E402

JOBS = min(8, os.cpu_count() or 8)
T0 = time.time()


def known_findings():
    """id -> (property, text) of the listed findings; 'fixed:' lines suppress nothing"""
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                r[m.group(2)] = (m.group(1), m.group(3))
    return r


def die(msg):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(2)


def sim(exe, args, timeout=1200):
    r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, cwd=HERE)
    return r.stdout


def last_json(text):
    i = text.rfind('\n{"outcome"')
    return json.loads(text[i + 1:] if i >= 0 else text)


class Runner:
    def __init__(self, exe, known):
        self.exe, self.known = exe, known
        self.n = 0
        self.dir = os.path.join(HERE, "build", "tmp-%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)

    def run(self, text, tag):
        p = os.path.join(self.dir, "p%s" % tag)
        with open(p, "w") as f:
            f.write(text)
        try:
            return last_json(sim(self.exe, ["run", p, "--known", self.known], 200))
        except (ValueError, subprocess.TimeoutExpired):
            return {"outcome": 2, "class": "HARNESS", "what": "no result", "dev": []}
        finally:
            os.unlink(p)


def minimise(runner, text, klass, deadline):
    """Drops operations, then schedule deviations, while the same class of violation remains."""
    pool = ThreadPoolExecutor(JOBS)

    def split(t):
        lines = t.splitlines()
        return ([x for x in lines if not x.startswith(("op ", "sched ", "dev "))], [x for x in lines if x.startswith("op ")],
                [x for x in lines if x.startswith("sched ")], [x for x in lines if x.startswith("dev ")])

    def join(h, o, s, d):
        return "\n".join(h + o + s + d) + "\n"

    def shrink(items, make):
        n = 2
        while items and time.time() < deadline:
            size = max(1, len(items) // n)
            cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
            hit = None
            for i in range(0, len(cands), JOBS):
                if time.time() > deadline:
                    break
                group = cands[i:i + JOBS]
                res = list(pool.map(lambda x: runner.run(make(x[1]), "m%d" % x[0]), enumerate(group)))
                for c, r in zip(group, res):
                    if r["outcome"] == 1 and r["class"] == klass:
                        hit = c
                        break
                if hit is not None:
                    break
            if hit is not None:
                items = hit
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items

    h, o, s, d = split(text)
    drive = "kind track" in h     # a drive with steps missing is not one the property speaks of: only cut its end

    def shrink_ops(items, make):
        if not drive:
            return shrink(items, make)
        size = len(items) // 2
        while size and time.time() < deadline:
            r = runner.run(make(items[:-size]), "t")
            if r["outcome"] == 1 and r["class"] == klass:
                items = items[:-size]
                size = min(size, len(items) // 2)
            else:
                size //= 2
        return items

    o = shrink_ops(o, lambda x: join(h, x, s, d))
    r = runner.run(join(h, o, s, d), "e")
    if r["outcome"] == 1 and r["class"] == klass and s and " block" not in s[0][:12] and len(r["dev"]) < 6000:
        s2 = ["sched explicit seed=1"]
        d2 = ["dev %d %d" % (a, b) for a, b in r["dev"]]
        q = runner.run(join(h, o, s2, d2), "x")
        if q["outcome"] == 1 and q["class"] == klass:
            d2 = shrink(d2, lambda x: join(h, o, s2, x))
            s, d = s2, d2
            o = shrink_ops(o, lambda x: join(h, x, s, d))
    pool.shutdown()
    return join(h, o, s, d)


def report(prop, part, exe, seed, klass, what, known):
    """Gates a violation and writes its replay file. Returns True when confirmed."""
    runner = Runner(exe, known)
    text = sim(exe, ["gen", "--prop", part["gen"], "--seed", str(seed)])
    a, b = runner.run(text, "g1"), runner.run(text, "g2")
    if not (a["outcome"] == b["outcome"] == 1 and a["log_hash"] == b["log_hash"] and a["sched_hash"] == b["sched_hash"] and a["class"] == klass):
        print("not reproduced: seed %d %s (%s): %s/%s" % (seed, klass, what, a.get("class"), b.get("class")))
        return False
    small = minimise(runner, text, klass, time.time() + 45)
    c, d = runner.run(small, "f1"), runner.run(small, "f2")
    if not (c["outcome"] == d["outcome"] == 1 and c["class"] == klass and c["log_hash"] == d["log_hash"]):
        small, c = text, a
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%d.plan" % (prop, re.sub(r"\W+", "_", klass), seed))
    with open(path, "w") as f:
        f.write("# property %s simulator %s generator %s seed %d\n# %s: %s\n# replay: python3 check.py --replay %s\n" %
                (prop, part["exe"], part["gen"], seed, klass, c["what"].replace("\n", " ")[:900], path) + small)
    e = last_json(sim(exe, ["run", path, "--known", known]))
    if not (e["outcome"] == 1 and e["class"] == klass):
        print("replay file does not reproduce: %s" % path)
        return False
    print("%s (seed %d): %s" % (klass, seed, e["what"][:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return True


def main():
    if sys.argv[1:2] == ["--replay"]:
        text = open(sys.argv[2]).read()
        m = re.match(r"# property (\S+) simulator (\S+)", text)
        if not m:
            die("not a replay file")
        if m.group(2) == "tools":
            import tools_sim
            sys.exit(tools_sim.replay(sys.argv[2]))
        exe = build.build([m.group(2)])[m.group(2)]
        known = ",".join(k for k, v in known_findings().items())
        out = sim(exe, ["run", sys.argv[2], "--log", "--known", known])
        print(out)
        r = last_json(out)
        if r["outcome"] == 1:
            print("VIOLATION property=%s replay=%s" % (m.group(1), sys.argv[2]))
        sys.exit(r["outcome"])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("VERIF_SECS", "14" if tier == "quick" else "1500"))
    print("property %s tier %s seed %d" % (prop, tier, seed), flush=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    if PARTS[prop] == "tools":
        import tools_sim
        sys.exit(tools_sim.check(prop, tier, seed, secs))
    kf = known_findings()
    known = ",".join(k for k, v in kf.items() if v[0] == prop) or "none"
    parts = PARTS[prop]
    try:
        exes = build.build(sorted(set(p["exe"] for p in parts)))
    except RuntimeError as e:
        die(str(e))
    built = time.time() - T0
    total = sum(p.get("w", 1) for p in parts)
    batches, viol, confirmed, errors = [], 0, False, 0
    for i, p in enumerate(parts):
        args = ["batch", "--prop", p["gen"], "--seed0", str(seed * 100000000 + 1), "--secs", str(secs * p.get("w", 1) / total), "--jobs", str(JOBS), "--known", known]
        try:
            b = json.loads(sim(exes[p["exe"]], args, secs + 600))
        except (ValueError, subprocess.TimeoutExpired):
            die("the simulator gave no result for " + p["gen"])
        batches.append((p, b))
        if b["dead_worker"] or not b["runs"]:
            die("a simulator worker died")
        seen = {}
        for x in sorted(b["results"], key=lambda y: y["seed"]):
            if x["r"]["outcome"] == 1:
                seen.setdefault(x["r"]["class"], x)
            else:
                errors += 1
                print("simulator problem (seed %d): %s" % (x["seed"], x["r"]["what"]))
        viol += len(seen)
        for k, x in list(seen.items())[:3]:
            if not confirmed:
                confirmed = report(prop, p, exes[p["exe"]], x["seed"], k, x["r"]["what"], known)
            else:
                print("also: %s (seed %d): %s" % (k, x["seed"], x["r"]["what"][:300]))
        if confirmed:
            break
    runs = sum(b["runs"] for _, b in batches)
    wall = sum(b["wall"] for _, b in batches)
    cnt = {}
    for _, b in batches:
        for k, v in b["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
    findings = {k[6:]: v for k, v in cnt.items() if k.startswith("known_")}
    for k in sorted(findings):
        if k in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[k][1]))
    p0, b0 = batches[0]
    sample = sim(exes[p0["exe"]], ["gen", "--prop", p0["gen"], "--seed", str(b0["seed0"])])
    meta = META.get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(b["distinct_histories"] for _, b in batches),
            "rule": "One evaluation is one simulated run, generated from one seed (configuration, operations, faults, schedule). Runs are distinct "
                    "when the hash of their event log (all messages with content, callbacks, matches, thread switches at logged events) differs, "
                    "and non-trivial when at least one probe of the behaviour under test was hit (probe_* counters).",
            "samples": [{"generator": p0["gen"], "seed": b0["seed0"], "plan": sample[:6000]}],
            "seeds_per_hour": round(runs / max(wall, 1e-9) * 3600),
            "search_wall_s": round(wall, 2), "build_wall_s": round(built, 2),
            "simulated_seconds": round(sum(b["sim_seconds"] for _, b in batches), 1),
            "scheduling_steps": sum(b["steps"] for _, b in batches),
            "context_switches": sum(b["switches"] for _, b in batches),
            "instrumented_memory_accesses": sum(b["accesses"] for _, b in batches),
            "distinct_schedules": sum(b["distinct_schedules"] for _, b in batches),
            "same_seed_reruns_identical": sum(b["det_reruns"] for _, b in batches),
            "faults_injected": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault_")},
            "probes": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("probe_")},
            "other_counters": {k: v for k, v in sorted(cnt.items()) if not k.startswith(("fault_", "probe_", "known_"))},
            "known_findings_seen": findings,
            "parts": [{"simulator": p["exe"], "generator": p["gen"], "seed0": b["seed0"], "runs": b["runs"], "wall_s": round(b["wall"], 2)} for p, b in batches],
            "real_code": meta.get("real", ""), "stubbed": meta.get("stub", ""), "oracle": meta.get("oracle", ""),
            "simulator_problems": errors,
        },
        "assumptions": meta.get("assume", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": viol if confirmed else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%d runs, %d distinct, %.0f simulated seconds, %.1f s" % (runs, ev["coverage"]["distinct_nontrivial"], ev["coverage"]["simulated_seconds"], time.time() - T0))
    subprocess.run(["rm", "-rf", os.path.join(HERE, "build", "tmp-%d" % os.getpid())])
    if confirmed:
        sys.exit(1)
    if viol:
        die("a violation could not be reproduced")
    if errors > max(2, runs // 50):
        die("too many simulator problems")
    sys.exit(0)


if __name__ == "__main__":
    main()
