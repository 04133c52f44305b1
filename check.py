#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, spreads seeded simulated runs
over worker processes, and gates every violation: the same seed must reproduce
in two further processes, is then minimised, and the minimised replay file must
reproduce byte for byte (hash of the whole history) in two fresh processes.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 3: error.
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time, re

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build, props

def die(msg):
    sys.stdout.write("ERROR " + msg + "\n"); sys.stdout.flush(); sys.exit(3)

def load_findings():
    """known-findings.txt: 'finding: property=.. repro=.. args=.. expect=.. | text' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if not l.startswith("finding:"):
            continue
        head, text = l[len("finding:"):].split(" | ", 1)
        d = {"text": text.strip()}
        for m in re.finditer(r'(\w+)=("[^"]*"|\S+)', head):
            d[m.group(1)] = m.group(2).strip('"')
        out.append(d)
    return out

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in props.PROPS:
        die("usage: check.py PROPERTY [quick|thorough]; known: " + " ".join(sorted(props.PROPS)))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    meta = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(build.OUT, exist_ok=True)
    with open(os.path.join(build.OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build.build()
        if exe is None:
            die("the tree does not build")
        # run from a private copy, so that a later rebuild cannot change a running check
        scratch = tempfile.mkdtemp(prefix="ksimcheck.")
        bin_ = os.path.join(scratch, "ksim")
        shutil.copy2(exe, bin_)
    tb = time.time() - t0
    try:
        rc = explore(prop, tier, seed, meta, bin_, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def explore(prop, tier, seed, meta, bin_, scratch, t0, tb):
    nw = int(os.environ.get("KSIM_WORKERS", str(os.cpu_count() or 4)))
    if tier == "quick":
        count, wall = meta["quick"], 55
    else:
        count, wall = meta.get("thorough", 10**7), float(os.environ.get("KSIM_THOROUGH_S", "600"))
    env = dict(os.environ, KSIM_SCRATCH=scratch)
    det = 40 if tier == "quick" else 100
    procs, outs = [], []
    ts = time.time()
    for w in range(nw):
        of = open(os.path.join(scratch, "w%d" % w), "w+")
        per = (count - w + nw - 1) // nw
        procs.append(subprocess.Popen([bin_, "worker", prop, "1" if tier == "thorough" else "0", str(seed), str(w), str(nw), str(per), str(wall), str(det)],
                                      stdout=of, stderr=subprocess.STDOUT, env=env))
        outs.append(of)
    first = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if first is None:
            for w, p in enumerate(procs):
                if p.poll() is not None:
                    outs[w].flush()
                    if '"type":"violation"' in open(outs[w].name).read():
                        first = time.time()
        elif time.time() - first > 20:
            for p in procs:
                if p.poll() is None:
                    p.kill()
        if time.time() - ts > wall + 150:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    tw = time.time() - ts
    viol, errors, nondet, sums, hashes = [], [], [], [], set()
    nonskip = 0
    for w, of in enumerate(outs):
        for l in open(of.name):
            if l.startswith("h "):
                h = l[2:].strip()
                if h != "0" * 16:
                    hashes.add(h); nonskip += 1
                continue
            if not l.startswith("{"):
                continue
            try:
                j = json.loads(l)
            except ValueError:
                continue
            {"violation": viol, "error": errors, "nondeterminism": nondet, "summary": sums}[j["type"]].append(j)
    cnt, scen, skips = {}, {}, {}
    tot = dict(runs=0, held=0, skipped=0, simtime=0, states=0, repeated=0)
    samples = []
    for s in sums:
        for k in tot:
            tot[k] += s[k]
        for src, dst in (("counters", cnt), ("scenarios", scen), ("skips", skips)):
            for k, v in s[src].items():
                dst[k] = dst.get(k, 0) + v
        samples += s["samples"]
    nviol = 0
    line = None
    tier_n = "1" if tier == "thorough" else "0"
    gate_err = None
    if viol:
        viol.sort(key=lambda v: v["index"])
        tried = set()
        for v in viol:
            if v["key"] in tried:
                continue
            tried.add(v["key"])
            # gate 1: two further processes, same seed, same history
            a = [subprocess.run([bin_, "one", prop, tier_n, str(v["seed"])], capture_output=True, text=True, env=env) for _ in range(2)]
            ok = all(x.returncode == 1 and v["hash"] in x.stdout for x in a)
            if not ok:
                gate_err = "violation '%s' (seed %d) does not reproduce identically" % (v["key"], v["seed"])
                continue
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%d.replay" % (prop, v["seed"]))
            m = subprocess.run([bin_, "minimise", prop, tier_n, str(v["seed"]), rp, "45"], capture_output=True, text=True, env=env)
            r = [subprocess.run([bin_, "replay", rp], capture_output=True, text=True, env=env) for _ in range(2)] if m.returncode == 0 else []
            if not r or not all(x.returncode == 1 and ("REPRODUCED property=" + prop) in x.stdout for x in r):
                gate_err = "the replay file of violation '%s' (seed %d) does not reproduce" % (v["key"], v["seed"])
                continue
            nviol += 1
            print("violation [%s] seed %d (index %d of VERIF_SEED %d): %s" % (v["scenario"], v["seed"], v["index"], seed, v["msg"]))
            print(m.stdout.strip())
            print("replay with: %s replay %s" % (os.path.join(build.OUT, "ksim"), rp))
            line = "VIOLATION property=%s replay=%s" % (prop, rp)
            break
    # known findings: shown again on the real code, each by its own input
    known = []
    for f in load_findings():
        if f.get("property") != prop:
            continue
        args = [a.replace("@REPRO@", os.path.join(VERIF, f.get("repro", ""))) for a in f["args"].split()]
        r = subprocess.run([bin_, "kiter"] + args, capture_output=True, text=True, timeout=60, cwd=scratch, stdin=subprocess.DEVNULL)
        got = "rc=%d\n%s" % (r.returncode, r.stdout)
        if re.search(f["expect"], got):
            known.append(f["text"])
            print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    wall_s = time.time() - t0
    faults = {k[4:]: v for k, v in sorted(cnt.items()) if k.startswith("env_")}
    other = {k: v for k, v in sorted(cnt.items()) if not k.startswith("env_")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"] + " A run is non-trivial when its draw was applicable (not skipped) and distinct when the hash of its full history (application, schedule or faults, every answer of the program) differs from that of every other run.",
            "samples": samples[:12],
            "scenarios": scen, "skipped": skips, "held": tot["held"],
            "simulated_time_units": tot["simtime"], "states_or_firings": tot["states"],
            "environment_events_and_faults": faults, "observations": other,
            "runs_repeated_for_determinism": tot["repeated"], "nondeterministic_runs": len(nondet),
            "runs_per_hour": int(tot["runs"] / tw * 3600) if tw > 0 else 0, "seeds_per_hour": int(tot["runs"] / tw * 3600) if tw > 0 else 0,
            "workers": nw, "search_s": round(tw, 2), "build_s": round(tb, 2),
            "real_components": meta["real"], "stubbed_components": props.STUBS,
            "known_findings_shown": known,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall_s, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s seed %d: %d runs (%d held, %d not applicable), %d distinct histories, build %.0f s, search %.0f s" % (prop, tier, seed, tot["runs"], tot["held"], tot["skipped"], len(hashes), tb, tw))
    if line:
        print(line)
        return 1
    if errors:
        die("harness error: " + errors[0]["msg"])
    if nondet:
        die("nondeterminism at seed %s" % nondet[0]["seed"])
    if gate_err:
        die(gate_err)
    if len(sums) != nw:
        die("%d of %d workers gave no summary" % (nw - len(sums), nw))
    if tot["held"] < meta.get("floor", 50):
        die("only %d applicable runs: the exploration is too thin to count" % tot["held"])
    return 0

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        die("internal error of the check")
