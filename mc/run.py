import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def load(pid):
    return importlib.import_module("mc.props." + pid.lower())


def known():
    """known findings: {property: {sig: text}}; 'fixed:' lines suppress nothing."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: property="):
                continue
            head, what = line[len("known: property="):].split(" :: ", 1)
            pid, sig = head.split(" ", 1)
            out.setdefault(pid, {})[sig] = what
    return out


def worker(pid, tier, shard, n, outfile):
    sys.path.insert(0, REPO)
    from mc.core import Ctx

    import logging

    logging.disable(logging.WARNING)
    mod = load(pid)
    ctx = Ctx(pid, tier)
    units = mod.units(tier)
    t0 = time.time()
    times = []
    for i, u in enumerate(units):
        # units are claimed dynamically; which worker explores a unit changes no result
        try:
            os.close(os.open(os.path.join(os.path.dirname(outfile), f"claim{i}"), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        t1 = time.time()
        ctx.run(mod, u)
        times.append((round(time.time() - t1, 2), str(u)[:80]))
    import fortuna

    assert os.path.realpath(fortuna.__file__).startswith(REPO + "/"), fortuna.__file__
    d = ctx.dump()
    d["times"] = sorted(times, reverse=True)[:5]
    d["wall"] = time.time() - t0
    with open(outfile, "w") as f:
        json.dump(d, f)


def replay(path):
    sys.path.insert(0, REPO)
    from mc.core import Ctx

    d = json.load(open(path))
    mod = load(d["property"])
    env = getattr(mod, "ENV", {})
    if any(os.environ.get(k) != v for k, v in env.items()):
        os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "mc.run", "replay", path], {**os.environ, **env})
    ctx = Ctx(d["property"], d["tier"])
    for v in d["violations"][:5]:
        ctx.run(mod, v["unit"])
    for v in ctx.violations:
        print(json.dumps(v, indent=1))
    return 1 if ctx.violations else 0


def main(argv):
    if argv[0] == "--worker":
        _, pid, tier, shard, n, out = argv
        return worker(pid, tier, int(shard), int(n), out)
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "setup":  # nothing to build: python sources only
        import fortuna.conformal  # noqa

        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(pid)
    units = mod.units(tier)
    n = getattr(mod, "SHARDS", {}).get(tier, 6 if tier == "quick" else 8)
    n = max(1, min(n, len(units), 8))
    env = dict(os.environ)
    env.update(getattr(mod, "ENV", {}))
    env["VERIF_TIER"] = tier
    with tempfile.TemporaryDirectory(prefix="mc_") as td:
        env["TMPDIR"] = td
        procs = []
        for s in range(n):
            out = os.path.join(td, f"out{s}.json")
            log = open(os.path.join(td, f"log{s}.txt"), "w")
            procs.append(
                (
                    subprocess.Popen(
                        [sys.executable, "-W", "ignore", "-m", "mc.run", "--worker", pid, tier, str(s), str(n), out],
                        cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT,
                    ),
                    out,
                    log.name,
                )
            )
        res, broken = [], []
        for p, out, log in procs:
            rc = p.wait()
            if rc != 0 or not os.path.exists(out):
                broken.append((rc, open(log).read()[-3000:]))
            else:
                res.append(json.load(open(out)))
    if broken:
        # The worker itself died: an import error of the code under test, or a crash.
        for rc, log in broken[:2]:
            print(f"worker failed rc={rc}\n{log}", file=sys.stderr)
        violations = [{"sig": "worker-crash", "detail": broken[0][1], "unit": units[0], "count": 1}]
    else:
        violations = []
    tot = dict(states=0, transitions=0, evals=0, traces=0)
    nontriv, samples, extra = set(), [], {}
    for r in res:
        for k in tot:
            tot[k] += r[k]
        nontriv |= set(r["nontrivial"])
        samples += r["samples"]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        violations += r["violations"]
    kn = known().get(pid, {})
    found_known = sorted({v["sig"] for v in violations if v["sig"] in kn})
    bad = [v for v in violations if v["sig"] not in kn]
    coverage = {
        "states": tot["states"],
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "evaluations": tot["evals"],
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "exhaustive": True,
        "units": len(units),
        "samples": samples[:4],
        **extra,
    }
    if not getattr(mod, "LEVEL") == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            if not coverage[k]:
                coverage.pop(k)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
        "known_findings": found_known,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in found_known:
        print(f"KNOWN-FINDING: property={pid} {s}: {kn[s]}")
    if os.environ.get("MC_TIMES"):
        for r in res:
            print(r["wall"], r["times"])
    if bad:
        rp = os.path.join(HERE, "evidence", f"{pid}.replay.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "violations": bad[:20]}, f, indent=1)
        for v in bad[:6]:
            print(f"  {v['sig']} x{v['count']}: {str(v['detail'])[-700:]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(
        f"OK property={pid} tier={tier} states={tot['states']} transitions={tot['transitions']} "
        f"evaluations={tot['evals']} nontrivial={len(nontriv)} wall={ev['wall_s']}s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
