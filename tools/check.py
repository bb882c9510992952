#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, searches seeded schedules and
fault sequences of the property's scenarios, and reports.
exit 0: the property held on everything explored; 1: violation; 2: no answer.
"""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS

VERIF = B.VERIF
W = int(os.environ.get("VERIF_WORKERS", "8"))


def say(*a):
    print(*a)
    sys.stdout.flush()


def die(msg, code=2):
    say("ERROR:", msg)
    sys.exit(code)


def load_known(prop):
    path = VERIF + "/known_findings.json"
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop and k["status"] == "known"]


def matches_known(f, known):
    for k in known:
        if f["scenario"] == k["scenario"] and re.fullmatch(k["class"], f["class"]) and re.search(k["match"], f["msg"] + " " + f.get("sample", ""), re.S):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    t0 = time.time()
    try:
        exe, nb, nt = B.build("plain")
    except SystemExit as e:
        die("the simulator does not build from /repo: %s" % str(e)[:3000])
    t_build = time.time() - t0
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="verif-check.", dir=shm)
    procs = []

    def cleanup():
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)

    def on_sig(*a):
        cleanup()
        os._exit(2)
    signal.signal(signal.SIGTERM, on_sig)
    signal.signal(signal.SIGINT, on_sig)
    # keep the binary for the whole run even if another build replaces it
    myexe = scratch + "/sim"
    shutil.copy(exe, myexe)
    try:
        rc = run(prop, tier, seed, P, myexe, scratch, procs, t0, t_build)
    finally:
        cleanup()
    sys.exit(rc)


def run(prop, tier, seed, P, exe, scratch, procs, t0, t_build):
    target = P["runs"][0 if tier == "quick" else 1]
    cap = P.get("cap", (45, 1500))[0 if tier == "quick" else 1]
    if os.environ.get("VERIF_RUNS"):
        target = int(os.environ["VERIF_RUNS"])
    if os.environ.get("VERIF_CAP"):
        cap = float(os.environ["VERIF_CAP"])
    env = dict(os.environ)
    env.pop("VERIF_SIM_CHILD", None)
    env["VERIF_SCRATCH"] = scratch
    per = (target + W - 1) // W
    outs = []
    ts = time.time()
    for w in range(W):
        of = open("%s/out%d" % (scratch, w), "wb")
        p = subprocess.Popen([exe, "batch", prop, str(seed), str(w), str(W), str(per), str(cap), "%s/hash%d" % (scratch, w)],
                             stdout=of, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env, start_new_session=True)
        procs.append(p)
        outs.append(of)
    deadline = time.time() + cap + 300
    for p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pass
    search_s = time.time() - ts
    fails, errors, sums = [], [], []
    for w, p in enumerate(procs):
        outs[w].close()
        txt = open("%s/out%d" % (scratch, w), errors="replace").read()
        ok = False
        for line in txt.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("summary"):
                sums.append(j)
                ok = True
            elif "nondeterministic" in j:
                errors.append("the same seed gave two different executions: %s" % json.dumps(j)[:600])
            elif j.get("status") == 2:
                fails.append(j)
            elif j.get("status") == 3:
                errors.append("harness error: %s" % json.dumps(j)[:600])
        if p.poll() is None:
            errors.append("worker %d did not end" % w)
        elif not ok and p.returncode != 0 and not errors:
            errors.append("worker %d ended with %s: %s" % (w, p.returncode, txt[-300:]))
    hashes = set()
    for w in range(W):
        try:
            a = array.array("Q")
            d = open("%s/hash%d" % (scratch, w), "rb").read()
            a.frombytes(d[:len(d) // 8 * 8])
            hashes.update(a)
        except OSError:
            pass
    known = load_known(prop)
    seen_known = {}
    real = []
    for f in fails:
        k = matches_known(f, known)
        if k:
            seen_known[k["id"]] = seen_known.get(k["id"], 0) + 1
        else:
            real.append(f)

    runs = sum(s["runs"] for s in sums)
    stats = {}
    for s in sums:
        for k, v in s["stats"].items():
            stats[k] = stats.get(k, 0) + v
    samples = []
    for s in sums:
        samples += s["samples"][:1]
    scen = {k[9:]: v for k, v in stats.items() if k.startswith("scenario.")}
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    other = {k: v for k, v in stats.items() if not k.startswith(("scenario.", "fault."))}
    rechecks = sum(s["determinism_rechecks"] for s in sums)
    violation = None

    # known findings: replay each recorded one, so that the line is printed whether or not the search met it
    for k in known:
        r = subprocess.run([exe, "replay", prop, k["scenario"], ",".join(str(c) for c in k["choices"]) or "0"],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        try:
            j = json.loads(r.stdout.splitlines()[0])
        except (ValueError, IndexError):
            j = {}
        if j.get("status") == 2 and matches_known(j, [k]):
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif seen_known.get(k["id"]):
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    if real:
        real.sort(key=lambda f: f["nchoices"])
        os.makedirs(VERIF + "/replays", exist_ok=True)
        tried = 0
        inexact = None
        classes = []
        for f in real:
            if (f["scenario"], f["class"]) in classes:
                continue
            classes.append((f["scenario"], f["class"]))
            tried += 1
            if tried > 4:
                break
            rp = "%s/replays/%s-%s-%s.json" % (VERIF, prop, f["scenario"], f["seed"])
            budget = 25 if tier == "quick" else 90
            r = subprocess.run([exe, "shrink", prop, f["scenario"], f["seed"], str(budget), rp],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
            if r.returncode != 0:
                errors.append("violation of seed %s did not reproduce: %s" % (f["seed"], r.stdout[:300]))
                continue
            R = json.load(open(rp))
            same = True
            for _ in range(2):
                q = subprocess.run([exe, "replay", prop, R["scenario"], ",".join(map(str, R["choices"])) or "0"],
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
                try:
                    j = json.loads(q.stdout.splitlines()[0])
                except (ValueError, IndexError):
                    j = {}
                if j.get("class") != R["class"] or j.get("loghash") != R["loghash"]:
                    same = False
            if not same and not (j.get("class") == R["class"]):
                errors.append("replay of %s does not reproduce the violation" % rp)
                continue
            R["exact"] = same
            k = matches_known({"scenario": R["scenario"], "class": R["class"], "msg": R["msg"], "sample": R["run"]}, known)
            if k:
                continue
            if not same and inexact is None:
                inexact = (rp, R, f)     # kept only if no violation replays bit for bit
                continue
            violation = (rp, R, f)
            break
        violation = violation or inexact

    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": "one evaluation is one simulated run of the real library code from one seed; two runs are distinct when the hash of "
                "their full event log (seam operations with contents, faults, results) and scheduling order differ; non-trivial: at "
                "least two seam or API events were logged. " + P["rule"],
        "samples": samples[:6] or ["(none)"],
        "runs_per_scenario": scen,
        "runs_per_hour": int(runs / max(search_s, 0.001) * 3600),
        "simulated_seconds": round(sum(s["simtime_ns"] for s in sums) / 1e9, 6),
        "scheduling_steps": sum(s["steps"] for s in sums),
        "logged_events": sum(s["events"] for s in sums),
        "faults_injected": faults,
        "probes": other,
        "determinism_rechecks": rechecks,
        "seed_base": seed,
        "workers": W,
        "real_components": P["real"],
        "stub_components": P["stub"],
        "build_s": round(t_build, 1),
        "search_s": round(search_s, 1),
        "known_findings_met": seen_known,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P["assume"], "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    if violation:
        ev["coverage"]["violation"] = {"replay": violation[0], "class": violation[1]["class"], "msg": violation[1]["msg"][:1000],
                                       "seed": violation[1]["seed"], "shrunk_choices": len(violation[1]["choices"]),
                                       "original_choices": violation[1]["original_choices"]}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as fo:
        json.dump(ev, fo, indent=1, sort_keys=True)
        fo.write("\n")
    say("%s %s: %d runs (%d distinct) in %.1f s, build %.1f s, %d determinism rechecks, faults %s" %
        (prop, tier, runs, len(hashes), search_s, t_build, rechecks, json.dumps(faults, sort_keys=True)))
    if violation:
        say("%s in scenario %s: %s" % (violation[1]["class"], violation[1]["scenario"], violation[1]["msg"][:1500]))
        say("run: %s" % violation[1]["run"][:800])
        say("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    if errors:
        for e in errors[:5]:
            say("ERROR:", e)
        return 2
    if runs == 0 or len(hashes) == 0:
        say("ERROR: nothing was explored")
        return 2
    # vacuity: every scenario, and every fault kind the property promises, must have been exercised
    if not os.environ.get("VERIF_RUNS"):
        for need in P.get("must", []):
            if not stats.get(need):
                say("ERROR: %s was never exercised" % need)
                return 2
    return 0


if __name__ == "__main__":
    main()
