#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree.
Environment: VERIF_SEED, VERIF_TIER.  Exit 0 held, 1 violated, 2 tool error.
check.py --replay FILE: runs a recorded violation again."""
import json, os, random, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import log, ToolError
import suites


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(lib.WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(lib.ROOT, "evidence"), exist_ok=True)
    reg = suites.PROPS[prop]
    states = transitions = validated = steps = scripts_n = 0
    samples, violations, knowns, perop, canaries = [], [], {}, {}, [0, 0]
    bins = {}
    known_list = lib.findings()
    notes = {}
    for sname in reg:
        su = suites.SUITES[sname]
        if su.harness not in bins:
            bins[su.harness] = lib.build(su.harness)
    for sname in reg:
        su = suites.SUITES[sname]
        rng = random.Random(f"{seed}/{prop}/{sname}")
        wk = os.path.join(work, sname)
        os.makedirs(wk, exist_ok=True)
        scripts = []
        for k, run in enumerate(su.mc(tier, prop)):
            n, g, sc = lib.mc(wk, sname, run, k)
            states += n
            transitions += g
            if "decorate" in run:
                sc = [run["decorate"](s) for s in sc]
            scripts += sc
        from_model = len(scripts)
        scripts += su.gen(rng, tier, prop)
        log(f"suite {sname}: {from_model} scripts from the model, {len(scripts)-from_model} generated")
        scripts_n += len(scripts)
        traces = su.run(bins[su.harness], sname, scripts, wk)
        can = lib.corrupt(traces, rng)
        nreal = len(traces)
        mis, kn, st = lib.validate(wk, sname, su.module, traces + [c for _, c in can])
        steps += st
        caught = {m["t"] for m in mis if m["t"] >= nreal}
        for k, (sure, _) in enumerate(can):
            if sure and nreal + k not in caught:
                raise ToolError(f"suite {sname}: a corrupted trace was accepted")
        canaries[0] += len(can)
        canaries[1] += len(caught)
        badt = set()
        for m in mis:
            if m["t"] >= nreal:
                continue
            badt.add(m["t"])
            m["trace"] = traces[m["t"]]
            m["suite"] = sname
            if prop in su.owners(m):
                violations.append(m)
            else:
                log(f"note: a mismatch that does not concern {prop}: {brief(m)}")
        for x in kn:
            if x["t"] >= nreal:
                continue
            ps = su.kf_owner(x["kf"])
            if prop != ps:
                continue
            if (prop, x["kf"]) in known_list:
                knowns[x["kf"]] = knowns.get(x["kf"], 0) + 1
            else:
                violations.append(dict(x, trace=traces[x["t"]], suite=sname, want=[], kind="deviation " + x["kf"]))
        validated += nreal - len(badt)
        for t in traces:
            for e in t["ev"]:
                key = f"{e['op']}:{e['obs'].get('r')}"
                perop[key] = perop.get(key, 0) + 1
        for t in rng.sample(traces, min(2, len(traces))):
            samples.append({"suite": sname, "cfg": t["cfg"], "ev": t["ev"][:12]})
        need = su.must_see(prop, tier)
        seen = {f"{e['op']}:{e['obs'].get('r')}" for t in traces for e in t["ev"]}
        missing = [x for x in need if x not in seen]
        if missing:
            notes["unseen"] = missing
            log(f"note: never observed {missing}")
            if not badt:
                raise ToolError(f"suite {sname}: required outcomes never observed: {missing}")
        shutil.rmtree(wk, ignore_errors=True)
    for k, n in sorted(knowns.items()):
        log(f"KNOWN-FINDING: property={prop} {k} {known_list[(prop, k)]} ({n} occurrences)")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions,
                       "traces_validated_against_impl": validated,
                       "events_validated": sum(perop.values()), "scripts": scripts_n,
                       "observed": dict(sorted(perop.items())),
                       "corrupted_traces": canaries[0], "corrupted_traces_rejected": canaries[1],
                       "known_findings_seen": knowns, "samples": samples, **notes},
          "assumptions": suites.ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    json.dump(ev, open(os.path.join(lib.ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if violations:
        violations.sort(key=lambda m: (m["i"], len(json.dumps(m["trace"]["ev"][:m["i"] + 1]))))
        rd = os.path.join(lib.WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        for k, m in enumerate(violations[:5]):
            path = os.path.join(rd, f"{prop}-{k}.json")
            json.dump({"property": prop, "suite": m["suite"], "kind": m["kind"], "cfg": m["trace"]["cfg"],
                       "ev": m["trace"]["ev"][:m["i"] + 1], "allowed": m["want"]}, open(path, "w"), indent=1)
            if k < 3:
                log(brief(m))
        log(f"{len(violations)} violating traces; the shortest:")
        log(f"VIOLATION property={prop} replay={os.path.join(rd, prop + '-0.json')}")
        return 1
    shutil.rmtree(work, ignore_errors=True)
    log(f"OK {prop}: {states} model states, {validated} traces, {sum(perop.values())} events, {time.time()-t0:.1f}s")
    return 0


def brief(m):
    e = m["trace"]["ev"][m["i"]]
    return (f"{m['suite']}: step {m['i']+1}: {json.dumps({k: v for k, v in e.items() if k != 'obs'})[:600]}\n"
            f"   observed {json.dumps(e['obs'])[:600]}\n   allowed  {json.dumps(m['want'])[:900]}  ({m['kind']})")


def replay(path):
    v = json.load(open(path))
    su = suites.SUITES[v["suite"]]
    work = os.path.join(lib.WORK, "replaying")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    b = lib.build(su.harness)
    ev = [{k: x for k, x in e.items() if k != "obs"} for e in v["ev"]]
    tr = su.run(b, v["suite"], [{"cfg": v["cfg"], "ev": ev}], work)
    mis, kn, _ = lib.validate(work, v["suite"], su.module, tr)
    for m in mis:
        m["trace"], m["suite"] = tr[m["t"]], v["suite"]
        log(brief(m))
    if mis:
        log(f"VIOLATION property={v['property']} replay={path}")
        return 1
    log("accepted")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        log(f"TOOL ERROR: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
