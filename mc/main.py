"""Entry point: python -m mc.main C01 --tier quick [--replay FILE]"""
from __future__ import annotations
import argparse, importlib, json, logging, os, sys, time, warnings

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {f["sig"]: f for f in data.get("findings", []) if f["property"] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--job", type=int, default=None, help="debug: run a single job in this process")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from mc import core
    mod = importlib.import_module("mc.props." + a.prop.lower())
    if a.replay:
        rec = json.load(open(a.replay))
        ctx = core.Ctx(a.tier)
        try:
            mod.replay(rec["case"], ctx)
        except core.StopJob:
            pass
        for v in ctx.violations:
            print("REPLAYED:", v["sig"], "-", v["msg"])
        sys.exit(1 if ctx.violations else 0)
    jobs = list(mod.jobs(a.tier))
    budget = getattr(mod, "BUDGET", {}).get(a.tier, 600 if a.tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    njobs = len(jobs)
    if jobs:
        r = seed % len(jobs)
        jobs = jobs[r:] + jobs[:r]
    if a.job is not None:
        jobs = [list(mod.jobs(a.tier))[a.job]]
    packs, errors, died = core.run_jobs(mod, jobs, a.tier, deadline, in_process=a.job is not None)
    if errors:
        for job, tb in errors[:3]:
            sys.stderr.write("HARNESS ERROR in job %r\n%s\n" % (job, tb))
        print("check error: %d jobs failed in the harness" % len(errors))
        sys.exit(2)
    tot = dict(states=set(), transitions=0, traces=0, cases=0, outcomes={}, samples=[], extra={})
    viol, truncated = {}, False
    for p in packs:
        tot["states"] |= p["states"]
        for k in ("transitions", "traces", "cases"):
            tot[k] += p[k]
        for k, v in p["outcomes"].items():
            tot["outcomes"][k] = tot["outcomes"].get(k, 0) + v
        for k, v in p["extra"].items():
            tot["extra"][k] = tot["extra"].get(k, 0) + v
        tot["samples"] += p["samples"][:1]
        truncated |= p["truncated"]
        for v in p["violations"]:
            viol.setdefault(v["sig"], v)
    for job, code in died:
        if code == "deadline":
            truncated = True
            continue
        sig = "worker-died:%r" % (job,)
        viol[sig] = dict(sig=sig, msg="process executing the code under test died (exit %s)" % (code,), case=dict(job=job))
    known = load_known(a.prop)
    new, seen_known = [], []
    for sig in sorted(viol):
        f = known.get(sig)
        if f is not None and f.get("status") == "open":
            seen_known.append((f, viol[sig]))
        else:
            new.append(viol[sig])
    printed = set()
    for f, v in seen_known:
        line = "KNOWN-FINDING: property=%s %s" % (a.prop, f["what"])
        if line not in printed:
            printed.add(line)
            print(line)
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
              coverage=dict(states=len(tot["states"]), transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"], samples=tot["samples"][:6],
                            exhaustive=not truncated, evaluations=tot["cases"], jobs=njobs,
                            rule=getattr(mod, "RULE", ""), outcomes=dict(sorted(tot["outcomes"].items())[:60]),
                            **({"counters": tot["extra"]} if tot["extra"] else {})),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(new))
    evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    print("%s %s: states=%d transitions=%d traces=%d cases=%d exhaustive=%s wall=%.1fs" % (
        a.prop, a.tier, len(tot["states"]), tot["transitions"], tot["traces"], tot["cases"], not truncated, wall))
    if new:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        with open(os.path.join(rdir, a.prop + "-sigs.txt"), "w") as fh:
            fh.write("".join("%s\t%s\n" % (v["sig"], v["msg"].split("\n")[0][:300]) for v in new))
        for i, v in enumerate(new[:8]):
            path = os.path.join(rdir, "%s-%d.json" % (a.prop, i))
            with open(path, "w") as fh:
                json.dump(dict(property=a.prop, sig=v["sig"], msg=v["msg"], case=v["case"]), fh, indent=1, default=repr)
            print("  %s\n    %s" % (v["sig"][:300], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("%d distinct violations (%d known)" % (len(new), len(seen_known)))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
