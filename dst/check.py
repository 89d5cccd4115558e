#!/usr/bin/env python3
"""Decide one property:  check.py P01 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on every simulated run (known findings are printed).
Exit 1: "VIOLATION property=<id> replay=<path>".
Anything else: the check itself failed.
"""
import json, os, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B          # noqa: E402
import props as P          # noqa: E402


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except OSError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == pid and f.get("status") == "open"]


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    extra = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        else:
            extra.append(a)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = P.PROPS[pid]
    cfg = prop["check"]
    if "python" in cfg:
        return subprocess.call([sys.executable, os.path.join(HERE, cfg["python"]), pid, tier, str(seed)]
                               + (["--replay", replay] if replay else []))
    t0 = time.time()
    exe = B.build([cfg["world"]])[0]
    t_build = time.time() - t0

    if replay:
        rep = json.load(open(replay))
        fd, raw = tempfile.mkstemp()
        os.write(fd, b"".join(struct.pack("<I", c) for c in rep["choices"]))
        os.close(fd)
        out = raw + ".json"
        subprocess.call([exe, "--property", pid, "--replay", raw, "--out", out]
                        + (["--verbose"] if "--verbose" in extra else []))
        res = json.load(open(out))
        os.unlink(raw)
        os.unlink(out)
        same = res["kind"] == rep["kind"] and res["trace_hash"] == rep["trace_hash"]
        if res["status"] == 2:
            print("replay: %s: %s" % (res["kind"], res["message"]))
            print("replay reproduces the recorded execution exactly" if same
                  else "replay fails, but the execution differs from the recorded one")
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("replay: no violation")
        return 0

    runs, limit = cfg[tier]
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    known = load_known(pid)
    kinds = ",".join(f["kind"] for f in known)
    cmd = [exe, "--property", pid, "--seed", str(seed), "--runs", str(runs), "--time", str(limit),
           "--workers", str(os.cpu_count() or 4), "--out", out, "--known", kinds,
           "--cpu", str(cfg.get("cpu", 30)), "--mintime", "40"]
    env = dict(os.environ)
    env.pop("DST_NOASLR", None)
    for k in list(env):
        if k.startswith("CYCLUS_"):
            del env[k]
    env["CYCLUS_RNG_SCHEMA"] = os.path.join(B.REPO, "share", "cyclus.rng.in")
    rc = subprocess.call(cmd, env=env, stdout=subprocess.DEVNULL)
    try:
        res = json.load(open(out))
    except Exception as e:
        print("check error: runner ended with status %s without a result (%s)" % (rc, e))
        return 4
    finally:
        os.unlink(out)
    if rc != 0 or res["runs"] == 0:
        print("check error: runner status %s, %s runs" % (rc, res.get("runs")))
        return 4

    status = 0
    nviol = 0
    lines = []
    for v in res["violations"]:
        hit = [f for f in known if f["kind"] == v["kind"] and f.get("match", "") in v["message"]]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            continue
        nviol += 1
        rdir = os.path.join(os.environ.get("VERIF_OUT", VERIF), "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, "".join(c if c.isalnum() else "_" for c in v["kind"])))
        with open(path, "w") as f:
            json.dump({"property": pid, "world": cfg["world"], "verif_seed": seed, "run": v["run"],
                       "run_seed": v["run_seed"], "kind": v["kind"], "message": v["message"],
                       "reproduces_exactly": v["exact"], "original_choices": v["original_choices"],
                       "minimisation_attempts": v["tries"], "choices": v["choices"],
                       "trace_hash": v["trace_hash"], "trace": v["trace"].split("\n"),
                       "how": "python3 dst/check.py %s --replay <this file>" % pid}, f, indent=1)
        lines.append("violation kind=%s: %s" % (v["kind"], v["message"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["runs"],
            "distinct_nontrivial": res["distinct_histories"],
            "rule": prop["rule"],
            "samples": [s.split("\n")[:40] for s in res["samples"]][:3] or ["(no sample)"],
            "simulated_runs": res["runs"],
            "runs_per_hour": int(res["runs"] / max(res["wall"], 1e-3) * 3600),
            "seeds_per_hour": int(res["runs"] / max(res["wall"], 1e-3) * 3600),
            "simulated_time": {"unit": prop.get("time_unit", "simulation time steps"), "covered": res["steps"]},
            "faults_injected": res["faults"],
            "events": res["counters"],
            "distinct_states": res["distinct_states"],
            "distinct_measure": "distinct_nontrivial counts distinct hashes of the full choice+event trace of a "
                                "non-trivial run; distinct_states counts distinct hashes of the state abstraction "
                                "sampled during runs (2^23-bit set, so a slight under-count)",
            "discarded_runs": res["discards"],
            "rerun_determinism": {"runs_executed_twice": res["rerun_checked"], "mismatches": res["rerun_mismatch"]},
            "components": {"real": prop["real"], "stub": prop["stub"]},
            "build_s": round(t_build, 1), "search_s": round(res["wall"], 1), "workers": res["workers"],
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    edir = os.path.join(os.environ.get("VERIF_OUT", VERIF), "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s: %d runs (%d non-trivial histories), %d states, %d faults, %.1fs build + %.1fs search"
          % (pid, res["runs"], res["distinct_histories"], res["distinct_states"],
             sum(res["faults"].values()), t_build, res["wall"]))
    return status


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 4
    sys.exit(rc)
