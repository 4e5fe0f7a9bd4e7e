"""python -m sim check ID [--tier quick|thorough] [--seconds S] [--runs N]   |   replay FILE   |   seed ID SEED"""
import argparse
import os
import sys

from . import runner


def main(argv) -> int:
    cmd = argv[0] if argv else ""
    if cmd == "worker":
        ident, tier, base, shard, shards, count, seconds, hang = argv[1:]
        return runner.worker(ident, tier, int(base), int(shard), int(shards), int(count), float(seconds), int(hang))
    if cmd == "recheck":
        return runner.recheck(argv[1])
    if cmd == "minimise":
        return runner.minimise(argv[1], float(argv[2]))
    if cmd == "replay":
        return runner.replay_command(argv[1])
    if cmd == "seed":
        p, out = runner.child(["plan", argv[1], argv[2], argv[3] if len(argv) > 3 else "quick"])
        sys.stderr.write(p.stderr[-3000:])
        for o in out:
            print("plan:", o["plan"])
            print("\n".join(o["trace"]))
            print({k: o[k] for k in ("ok", "cls", "message", "digest", "faults", "probes")})
            print(o["harness"] or "")
        return 0
    if cmd == "plan":
        runner.prepare()
        check = runner.load_check(argv[1])
        import json
        plan = json.loads(runner.jdump(check.gen(int(argv[2]), argv[3])))
        r = runner.run_plan(check, plan)
        runner.emit({"plan": plan, "trace": r["run"].trace, **{k: r[k] for k in ("ok", "cls", "message", "digest", "harness")},
                     "faults": dict(r["run"].faults), "probes": dict(r["run"].probes)})
        return 0
    if cmd == "check":
        ap = argparse.ArgumentParser(prog="sim check")
        ap.add_argument("ident")
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--seconds", type=float)
        ap.add_argument("--runs", type=int)
        ap.add_argument("--workers", type=int, default=min(8, max(2, len(os.sched_getaffinity(0)))))
        a = ap.parse_args(argv[1:])
        base = int(os.environ.get("VERIF_SEED", "1") or 1)
        return runner.check_command(a.ident.upper(), a.tier, a.seconds, a.runs, a.workers, base)
    if cmd == "selftest":
        p, out = runner.child(["plan", "C01", "5", "quick"])
        ok = bool(out) and out[0]["harness"] is None
        print("simulator ready" if ok else p.stderr[-3000:])
        return 0 if ok else 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
