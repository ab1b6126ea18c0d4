"""Runs the check of one property: design models, drivers, trace validation, evidence."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc  # noqa: E402

ROOT = os.path.dirname(HERE)
PY = "/usr/local/bin/python3-vt"
NSH = 8

# property -> (driver module, trace module, [design models: (module, cfg, tier)])
from registry import REG  # noqa: E402


def worker_env(shard, seed):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str((seed * 7919 + shard * 104729 + (shard > 0)) % 4294967295 if shard else 0),
             PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


def run_workers(prop, driver, seed, tier, tmp, only=None, shards=None, nsh=NSH, limit=780):
    procs = []
    for s in range(nsh) if shards is None else shards:
        out = os.path.join(tmp, "shard%d.jsonl" % s)
        err = open(out + ".err", "w")
        p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), driver, prop, str(s), str(nsh), tier, str(seed),
                              "-" if only is None else str(only), out], env=worker_env(s, seed), stdout=err, stderr=err, cwd=tmp)
        procs.append((s, out, p))
    t0 = time.time()
    cases, dead, errors = [], [], []
    for s, out, p in procs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            for line in open(out):
                if line.endswith("\n"):
                    cases.append(json.loads(line))
        if not os.path.exists(out + ".done"):
            dead.append((s, p.returncode, open(out + ".err").read()[-3000:]))
        elif json.load(open(out + ".done"))["error"]:
            errors.append((s, json.load(open(out + ".done"))["error"]))
    return cases, dead, errors


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    reg = REG[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        sys.exit(run(prop, tier, seed, reg, tmp, t0, a))
    except tlc.TLCError as e:
        print("MACHINERY ERROR: %s" % e)
        sys.exit(2)
    finally:
        if a.keep:
            shutil.copytree(tmp, a.keep, dirs_exist_ok=True)
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    f = os.path.join(ROOT, "known_findings.json")
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop] if os.path.exists(f) else []


def run(prop, tier, seed, reg, tmp, t0, a):
    only = shards = None
    if a.replay:
        rep = json.load(open(a.replay))
        _, s, sh, i = rep["case"]["id"].split("/")
        seed, shards, only, tier = int(s), None if reg.get("allshards") else [int(sh)], int(i), rep["tier"]
    # 1. the design models
    states = trans = 0
    models = []
    for module, cfg, tiers, extra in reg.get("models", []) if not a.replay else []:
        if tier not in tiers:
            continue
        out, gen_, dist, rc = tlc.run(module, cfg, extra=extra, deadlock="-deadlock" not in extra)
        if rc != 0 or "No error has been found" not in out and "Finished" not in out:
            print(out[-4000:])
            print("MODEL ERROR: the design model %s (%s) does not satisfy its properties" % (module, cfg))
            return 2
        states += dist
        trans += gen_
        models.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen_})
    # 2. behaviours of the model that the driver replays
    os.environ["VERIF_SHARED_SEED"] = str(seed)
    if "gen" in reg:
        module, cfg, extra = reg["gen"][tier] if tier in reg["gen"] else reg["gen"]["quick"]
        out, gen_, dist, rc = tlc.run(module, cfg, extra=extra)
        if rc != 0 or "Error" in out:
            print(out[-4000:])
            return 2
        hs = []
        for m in re.finditer(r'^("GEN .*")$', out, re.M):
            hs.append(json.loads(json.loads(m.group(1))[4:]))
        hs.sort(key=lambda h: json.dumps(h))
        os.environ["VERIF_GEN"] = os.path.join(tmp, "gen.json")
        with open(os.environ["VERIF_GEN"], "w") as fh:
            json.dump(hs, fh)
        states += dist
        trans += gen_
        models.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen_, "behaviours_for_replay": len(hs)})
    # 3. run the code, and validate the recorded histories against the specification, in rounds
    rounds = reg.get("rounds", 1) if tier == "quick" else 1
    nsh = reg.get("shards", NSH) * rounds
    cases, skipped, dead, errors, rejects, nev, spent = [], [], [], [], [], 0, 0.0
    for rnd in range(rounds) if shards is None else [0]:
        t1 = time.time()
        if rnd and t1 - t0 > 300:
            print("note: %d of %d rounds run" % (rnd, rounds))
            break
        mine = shards if shards is not None else list(range(rnd * nsh // rounds, (rnd + 1) * nsh // rounds))
        got, d, er = run_workers(prop, reg["driver"], seed, tier, tmp, only, mine, nsh)
        if reg.get("collate"):
            import importlib

            got = getattr(importlib.import_module(reg["driver"] + "_collate"), prop)(got)
        spent += time.time() - t1
        dead += d
        errors += er
        odd = [c for c in got if any(e.get("out") == "inconclusive" for e in c["case"]["ev"])]
        skipped += odd
        got = [c for c in got if c not in odd] if odd else got
        if not got:
            continue
        nev += sum(len(c["case"]["ev"]) for c in got)
        tr = os.path.join(tmp, "trace.json")
        with open(tr, "w") as fh:
            json.dump([c["case"] for c in got], fh)
        out, gen_, dist, rc = tlc.run(reg["trace"], reg.get("cfg", "Trace.cfg"), env={"TRACE": tr})
        if rc != 0 or "No error has been found" not in out:
            print(out[-5000:])
            print("MACHINERY ERROR: TLC did not complete the validation")
            return 2
        found = []
        for m in re.finditer(r'^"REJECT (\d+) (\d+) ([^"]*)"$', out, re.M):
            found.append((int(m.group(1)) - 1, int(m.group(2)), m.group(3)))
        full = sum(len(c["case"]["ev"]) + 1 for c in got)
        cut = sum(len(got[i]["case"]["ev"]) + 1 - (l + 1) for i, l, _ in found)
        if len(set(map(lambda r: r[0], found))) != len(found) or dist != full - cut:
            print("MACHINERY ERROR: %d states instead of %d: not every event was judged" % (dist, full - cut))
            return 2
        rejects += [(len(cases) + i, l, clause) for i, l, clause in found]
        cases += got
        states += dist
        if found and len(found) > 20:
            break
    trans += nev
    for s, err in errors[:1]:
        print("note: the driver gave up in shard %d (inconclusive):\n%s" % (s, err))
    if dead and not cases and not skipped:
        for d in dead:
            print("worker %d ended with %s\n%s" % d)
        print("MACHINERY ERROR: no worker finished")
        return 2
    for d in dead:
        print("note: worker %d ended early (%s)\n%s" % d)
    if skipped:
        print("note: %d cases inconclusive (a stand-in was asked for something it does not offer), e.g. %s"
              % (len(skipped), [e for e in skipped[0]["case"]["ev"] if e.get("out") == "inconclusive"][0]))
    # 4. verdict
    known = known_findings(prop)
    viol = []
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    shown = set()
    for i, l, clause in sorted(rejects, key=lambda r: (len(json.dumps(cases[r[0]]["case"])))):
        c = cases[i]
        sig = reg["signature"](c, l, clause) if "signature" in reg else clause
        kf = [k for k in known if k["signature"] == sig]
        if kf:
            if sig not in shown:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[0]["what"]))
                shown.add(sig)
            continue
        viol.append((c, l, clause))
    if dead and not viol:
        # a worker that did not come back: the code under test took the process down or never returned
        for s, rc, err in dead:
            if rc in (2, 1) and "Traceback" in err:
                print("MACHINERY ERROR: driver failed")
                return 2
        print("MACHINERY ERROR: worker lost")
        return 2
    for n, (c, l, clause) in enumerate(viol[:3]):
        path = os.path.join("replays", "%s-%s-%d.json" % (prop, tier, n))
        with open(os.path.join(ROOT, path), "w") as fh:
            json.dump({"property": prop, "tier": tier, "clause": clause, "event": l, "case": c["case"], "label": c["label"]}, fh, indent=1)
        ev = c["case"]["ev"][l - 1]
        print("rejected by %s: case %s, event %d of %d, clause %s" % (reg["trace"], c["case"]["id"], l, len(c["case"]["ev"]), clause))
        print("  event: %s" % json.dumps(ev)[:600])
        print("  presented as: %s" % json.dumps(c["label"])[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(viol) > 3:
        print("(%d more rejected histories)" % (len(viol) - 3))
    # 5. evidence
    if not a.replay:
        samples = []
        for c in cases[:: max(1, len(cases) // 4)][:4]:
            s = json.dumps(c)
            samples.append(json.loads(s) if len(s) < 6000 else {"id": c["case"]["id"], "events": len(c["case"]["ev"]), "abridged": s[:1500]})
        ev = {"property": prop, "tier": tier, "seed": seed, "level": reg.get("level", "model_checking"),
              "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": len(cases),
                           "events_validated": nev, "rejected": len(viol), "inconclusive": len(skipped) + len(errors),
                           "evaluations": nev, "distinct_nontrivial": len({json.dumps({k: v for k, v in c["case"].items() if k != "id"}, sort_keys=True) for c in cases}),
                           "rule": reg.get("rule", "a case is one network or object with a history of public calls; distinct as recorded histories"),
                           "models": models, "trace_module": reg["trace"],
                           "event_kinds": kinds(cases), "samples": samples},
              "assumptions": reg.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s: %d histories, %d events, %d model states, %d rejected (driver %.1fs, total %.1fs)"
          % (prop, tier, len(cases), nev, states, len(viol), spent, time.time() - t0))
    return 1 if viol else 0


def kinds(cases):
    out = {}
    for c in cases:
        for e in c["case"]["ev"]:
            k = str(e.get("op", "?")) + ":" + str(e.get("out", ""))
            out[k] = out.get(k, 0) + 1
    return out


if __name__ == "__main__":
    main()
