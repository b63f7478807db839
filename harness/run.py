"""Check runner: model checking + scenario execution on the real library + trace validation by TLC."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import drive  # noqa: E402
import tlc  # noqa: E402
from props import common  # noqa: E402

NPROC = 8
MEMLIMIT = 3 << 30


def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as fh:
        return json.load(fh)


def prop_module(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def execute(prop, scen, limit=20.0):
    mod = prop_module(prop)
    E0 = {"e": "l", "p": {"k": "vd"}, "c": []}
    try:
        return drive.with_timeout(limit, mod.execute, scen)
    except drive.Hang:
        return {"id": scen["id"], "E": E0, "T": {"k": "vd"}, "ev": [{"op": "hang"}]}
    except drive.Rejected:      # judged on its own: was this a definition that must be refused?
        if "T" not in scen:
            return {"id": scen["id"], "E": E0, "T": {"k": "vd"}, "ev": [{"op": "crash", "x": "rejected", "tb": traceback.format_exc()[-1500:]}]}
        return {"id": scen["id"], "E": scen["E"], "T": common.strip(scen["T"]), "ev": [{"op": "load", "ok": False}]}
    except Exception as e:      # the library failed where the specification knows no failure
        return {"id": scen["id"], "E": E0, "T": {"k": "vd"},
                "ev": [{"op": "crash", "x": type(e).__name__, "tb": traceback.format_exc()[-1500:]}]}


def shard_main(args):
    """generate -> execute -> validate one shard; returns a summary dict"""
    prop, shard, nshards, seed, tier, scratch, files = args
    t0 = time.time()
    res = {"shard": shard, "events": 0, "traces": 0, "bads": [], "counts": {}, "states": 0, "samples": [], "error": None,
           "families": {}, "stats": {}}
    try:
        mod = prop_module(prop)
        path = os.path.join(scratch, f"t{shard}.ndjson")
        scens = {}
        ntr = nev = 0
        t1 = time.time()
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)     # a runaway evaluation must not take the sandbox down
        resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT, hard))
        with open(path, "w") as out:
            for scen in mod.scenarios(random.Random(f"{seed}/{prop}/{shard}"), shard, nshards, tier, files):
                scen["id"] = f"{shard}.{ntr}"
                tr = execute(prop, scen)
                if tr is None:
                    continue
                tr["id"] = scen["id"]
                if not tr["ev"]:
                    continue
                out.write(json.dumps(tr, separators=(",", ":"), default=str) + "\n")
                scens[scen["id"]] = scen
                fam = scen.get("fam", "-")
                res["families"][fam] = res["families"].get(fam, 0) + 1
                ntr += 1
                nev += len(tr["ev"])
                if ntr in (1, 7):
                    res["samples"].append({"scenario": _short(scen), "events": _short(tr["ev"])})
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        res["exec_s"] = time.time() - t1
        res["traces"], res["events"] = ntr, nev
        if ntr:
            r = validate(prop, path, scratch, getattr(mod, "TRACE_TIMEOUT", 700 if tier == "quick" else 5000))
            res["states"] = r["states"]
            res["counts"] = r["counts"]
            if r["done"]["traces"] != ntr or r["states"] != nev + ntr + 1:
                raise tlc.TLCError(f"validated {r['done']} / {r['states']} states, expected {ntr} traces, {nev} events")
            bad_ids = {b["id"] for b in r["bads"]}
            traces = {}
            if bad_ids:
                with open(path) as fh:
                    for line in fh:
                        d = json.loads(line)
                        if d["id"] in bad_ids:
                            traces[d["id"]] = d
            for b in r["bads"][:400]:
                res["bads"].append({"clauses": b["cl"], "ei": b["ei"], "op": b["op"], "scen": scens[b["id"]],
                                    "event": traces[b["id"]]["ev"][b["ei"]]})
        os.unlink(path)
    except Exception:
        res["error"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    return res


def validate(prop, path, scratch, timeout, depth=0):
    """TLC over one trace file; a trace the specification cannot even evaluate is isolated and reported as such"""
    try:
        return tlc.finish_trace(tlc.start_trace(prop, path, scratch), timeout=timeout)
    except tlc.TLCError as err:
        if "timed out" in str(err) or depth > 16:
            raise
        with open(path) as fh:
            lines = fh.readlines()
        if len(lines) == 1:
            d = json.loads(lines[0])
            if all(x["op"] in ("inexplicable", "crash", "hang") for x in d["ev"]):
                raise
            print(f"[{prop}] not evaluable: {str(err)[:1500]}")
            return {"bads": [{"id": d["id"], "ei": 0, "op": d["ev"][0]["op"], "cl": ["spec.not-explainable"]}],
                    "counts": {}, "done": {"traces": 1}, "states": len(d["ev"]) + 2}
        mid = len(lines) // 2
        out = {"bads": [], "counts": {}, "done": {"traces": 0}, "states": 1}
        for i, part in enumerate((lines[:mid], lines[mid:])):
            if sum(1 for b in out["bads"] if b["cl"] == ["spec.not-explainable"]) >= 3:
                n = sum(len(json.loads(x)["ev"]) for x in part)     # enough shown; the rest stays unvalidated
                r = {"bads": [], "counts": {}, "done": {"traces": len(part)}, "states": n + len(part) + 1}
            else:
                sub = f"{path}.{depth}{i}"
                with open(sub, "w") as fh:
                    fh.writelines(part)
                r = validate(prop, sub, scratch, timeout, depth + 1)
                os.unlink(sub)
            out["bads"] += r["bads"]
            out["done"]["traces"] += r["done"]["traces"]
            out["states"] += r["states"] - 1
            for c, k in r["counts"].items():
                out["counts"][c] = out["counts"].get(c, 0) + k
        return out


def _short(x, n=1500):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def matches_known(entry, bad):
    """a listed finding is identified by the property module's own label of the failing input"""
    return entry["label"] == bad.get("label")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--no-model", action="store_true")
    ap.add_argument("--shards", type=int, default=NPROC)
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.environ["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    try:
        if a.replay:
            return replay(prop, a.replay, scratch)
        return check(prop, a.tier, a.seed, scratch, t0, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, scratch, t0, a):
    mod = prop_module(prop)
    print(f"[{prop}] tier={tier} seed={seed}")
    models = []
    files = {}
    if hasattr(mod, "prepare"):          # scenarios generated by TLC
        files = mod.prepare(tier, seed, scratch)
    with ProcessPoolExecutor(a.shards, mp_context=mp.get_context("fork")) as pool:      # a lost worker raises
        shards = list(pool.map(shard_main, [(prop, i, a.shards, seed, tier, scratch, files) for i in range(a.shards)]))
    if not a.no_model:
        for m in mod.models(tier):
            r = tlc.run_model(m["module"], m["cfg"], scratch=scratch, timeout=m.get("timeout", 800),
                              workers=m.get("workers", 8))
            print(f"[{prop}] model {m['cfg']}: {r['distinct']} distinct states, {r['states']} transitions, "
                  f"{'ok' if r['ok'] else 'FAILED'} ({r['wall']:.1f}s)")
            if not r["ok"]:
                print(r["out"][-6000:])
                print(f"[{prop}] ERROR: the specification itself does not satisfy the property model {m['cfg']}")
                return 2
            models.append(r)
    for s in shards:
        if s["error"]:
            print(s["error"][:1500], "...", s["error"][-1500:])
            print(f"[{prop}] ERROR: machinery failure in shard {s['shard']}")
            return 2

    known = [k for k in load_known()["findings"] if k["property"] == prop]
    bads = [b for s in shards for b in s["bads"]]
    label = getattr(mod, "label", lambda bad: None)
    unlisted = []
    seen_known = {}
    for b in bads:
        b["label"] = label(b)
        k = next((k for k in known if matches_known(k, b)), None)
        if k is None:
            unlisted.append(b)
        else:
            seen_known[k["label"]] = seen_known.get(k["label"], 0) + 1
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{seen_known.get(k['label'], 0)} occurrences in this run]")

    counts = {}
    fams = {}
    for s in shards:
        for c, n in s["counts"].items():
            counts[c] = counts.get(c, 0) + n
        for c, n in s["families"].items():
            fams[c] = fams.get(c, 0) + n
    ntr = sum(s["traces"] for s in shards)
    nev = sum(s["events"] for s in shards)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct"] for m in models) + sum(s["states"] for s in shards),
            "transitions": sum(m["states"] for m in models) + nev,
            "traces_validated_against_impl": ntr,
            "events_validated_against_impl": nev,
            "clauses_evaluated": dict(sorted(counts.items())),
            "scenario_families": dict(sorted(fams.items())),
            "models": [{"module": m["model"], "distinct_states": m["distinct"], "transitions": m["states"]} for m in models],
            "known_finding_occurrences": seen_known,
            "samples": [x for s in shards[:2] for x in s["samples"]][:4],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unlisted),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"[{prop}] {ntr} traces / {nev} events validated, {sum(counts.values())} clauses, wall {ev['wall_s']}s; "
          f"shards exec {max(s.get('exec_s', 0) for s in shards):.1f}s total {max(s['wall'] for s in shards):.1f}s")
    print(f"[{prop}] families {fams}")
    if not ntr or any(counts.get(c, 0) == 0 for c in getattr(mod, "REQUIRED_CLAUSES", [])):
        if not unlisted:
            print(f"[{prop}] ERROR: vacuous run, required clauses not evaluated: {counts}")
            return 2
    if unlisted:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        unlisted.sort(key=lambda b: len(json.dumps(b["scen"], default=str)))
        by = {}
        for b in unlisted:
            by.setdefault(tuple(b["clauses"]), []).append(b)
        path = os.path.join(rdir, f"{prop}-{seed}.json")
        picks = [v[0] for v in by.values()]
        with open(path, "w") as fh:
            json.dump({"property": prop, "seed": seed, "violations": [
                {"clauses": b["clauses"], "op": b["op"], "event": b["event"], "scen": b["scen"]} for b in picks[:20]]},
                fh, indent=1, default=str)
        for cl, v in sorted(by.items(), key=lambda kv: -len(kv[1]))[:12]:
            print(f"[{prop}] violated {', '.join(cl)} x{len(v)}: {_short(v[0]['scen'].get('text', v[0]['scen']), 600)}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"[{prop}] held on everything explored")
    return 0


def replay(prop, path, scratch):
    with open(path) as fh:
        doc = json.load(fh)
    rc = 0
    for i, v in enumerate(doc["violations"]):
        scen = v["scen"]
        tr = execute(prop, scen)
        tr["id"] = scen["id"]
        p = os.path.join(scratch, f"r{i}.ndjson")
        with open(p, "w") as out:
            out.write(json.dumps(tr, default=str) + "\n")
        r = validate(prop, p, scratch, 600)
        print(f"--- violation {i}: recorded clauses {v['clauses']}")
        if scen.get("text"):
            print(scen["text"])
        for b in r["bads"]:
            print("    reproduced:", b["cl"], "event", b["ei"], _short(tr["ev"][b["ei"]], 3000))
            rc = 1
        if not r["bads"]:
            print("    not reproduced on the current tree")
    if rc:
        print(f"VIOLATION property={prop} replay={path}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
