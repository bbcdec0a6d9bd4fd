import fnmatch
import importlib
import json
import os
import sys
import time as _t

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL = _t.time
START = WALL()


def main(argv):
    prop = argv[0]
    from . import boot
    try:
        boot.install()
    except SystemExit:
        raise
    except BaseException as e:         # the code under test cannot even be imported
        import traceback
        traceback.print_exc()
        return 2
    from . import core
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")

    if len(argv) > 2 and argv[1] == "--replay":
        data = json.load(open(argv[2]))
        tier = data.get("tier", "quick")
        scn = {s.name: s for s in mod.scenarios(tier)}[data["scenario"]]
        o = scn.run_case(data["case"])
        print("replayed:", json.dumps(data["case"])[:2000])
        for k, m in o.violations:
            print(f"VIOLATION property={prop} key={k}\n{m}")
        if not o.violations:
            print("no violation on replay; observed:", o.obs)
        return 1 if o.violations else 0

    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2:]
    if tier == "quick":
        core.DEADLINE = boot.real_monotonic() + float(os.environ.get("VERIF_DEADLINE", "720"))
    known = load_known(prop)
    scns = [s for s in mod.scenarios(tier) if not only or s.name in only]
    accs = []
    for s in scns:
        t = WALL()
        a = core.RUNNERS[s.kind](s, tier)
        a.wall = WALL() - t
        accs.append(a)
        print(f"[{prop}] {s.kind:9s} {s.name:28s} execs={a.execs} states={a.states} transitions={a.transitions} "
              f"outcomes={len(a.obs)} violations={len(a.violations)} {a.wall:.1f}s"
              + (f" CAPPED: {a.capped}" if a.capped else ""), flush=True)

    # confirm, classify and report violations
    bad, seen_known, unconfirmed = [], {}, []
    for a in accs:
        for key, (msg, case) in sorted(a.violations.items(), key=lambda kv: (len(repr(kv[1][1])), kv[0])):
            full = f"{a.scenario.name}/{key}"
            k = match_known(known, full)
            if k is not None:
                seen_known.setdefault(k["key"], k)
                continue
            if len(bad) >= 10:
                bad.append((a.scenario, key, msg, case))
                continue
            jcase = json.loads(json.dumps(case))
            again = [any(kk == key for kk, _ in a.scenario.run_case(jcase).violations) for _ in range(2)]
            if not any(again):
                unconfirmed.append((a.scenario, key, msg, case))
            else:
                bad.append((a.scenario, key, msg, case))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    for n, (scn, key, msg, case) in enumerate(bad[:10]):
        path = os.path.join(rdir, f"{prop}-{n}.json")
        json.dump({"property": prop, "tier": tier, "scenario": scn.name, "key": key, "case": case, "message": msg,
                   "replay_cmd": f"./run {prop} --replay {path}"}, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  scenario={scn.name} key={key}")
        print("  " + msg[-1500:].replace("\n", "\n  "))
    for k in known:
        if k["key"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif tier in k.get("tiers", ["quick", "thorough"]) and not only:
            print(f"note: known finding not observed any more: {k['key']}")
    for scn, key, msg, case in unconfirmed:
        print(f"NONDETERMINISTIC: {scn.name} {key} {core.short(case)}\n{msg[-1500:]}")

    write_evidence(prop, mod, tier, seed, accs, len(bad))
    total = sum(a.execs for a in accs)
    print(f"[{prop}] {tier}: {total} executions, {sum(a.states for a in accs)} states, "
          f"{sum(a.transitions for a in accs)} transitions, {len(bad)} violations, "
          f"{len(seen_known)} known findings, {WALL() - START:.1f}s")
    if bad:
        return 1
    if unconfirmed:
        return 3
    if total == 0 or any(a.execs == 0 and not a.capped for a in accs):
        print("nothing was explored")
        return 4
    return 0


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop]


def match_known(known, full):
    for k in known:
        if k["key"] == full:
            return k
    return None


def write_evidence(prop, mod, tier, seed, accs, nviol):
    level = getattr(mod, "LEVEL", "model_checking")
    samples = [s for a in accs for s in a.samples[:2]][:12]
    cov = {
        "states": sum(a.states for a in accs),
        "transitions": sum(a.transitions for a in accs),
        "traces_validated_against_impl": sum(a.execs for a in accs),
        "evaluations": sum(a.execs for a in accs),
        "distinct_nontrivial": sum(len(a.obs) for a in accs),
        "rule": "distinct observable outcomes over all executions, per scenario; every trace is an execution of the "
                "implementation itself compared step by step with the reference model",
        "exhaustive": all(a.capped is None for a in accs),
        "samples": samples or ["-"],
        "scenarios": [{"name": a.scenario.name, "kind": a.scenario.kind, "bound": a.scenario.note,
                       "executions": a.execs, "states": a.states, "transitions": a.transitions,
                       "distinct_outcomes": len(a.obs), "max_depth": a.max_depth or None,
                       "capped": a.capped, "wall_s": round(a.wall, 2)} for a in accs],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(WALL() - START, 2), "violations": nviol,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
              "asyncio is single threaded: interleavings are decided by the order in which environment awaits complete",
              "values outside the stated alphabets are not covered"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
