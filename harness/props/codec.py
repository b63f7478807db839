"""Definition scenarios shared by the codec properties: TLC-enumerated (spec -> code) and random ones."""
from __future__ import annotations

import json
import os
import re
import subprocess

import drive
import model as M
import tlc

from . import common as C

MCNAMES = {"En8": [("X", None), ("Y", None), ("Z", [M.tnum(7)])], "Fl16": [("FA", None), ("FB", None), ("FC", [M.tnum(64)])]}


def fixup(D):
    k = D["k"]
    if k == "int":
        return M.Int(D["n"])
    if k == "flt":
        return M.Flt({2: "float16", 4: "float", 8: "double"}[D["s"]])
    if k == "chr":
        return M.Chr()
    if k == "wch":
        return M.Wch()
    if k == "leb":
        return M.Leb(D["sg"])
    if k == "enm":
        return M.Enm(D["nm"], fixup(D["b"]), MCNAMES[D["nm"]], D["fl"])
    if k == "ptr":
        return M.Ptr(fixup(D["t"]))
    if k == "arr":
        return M.Arr(fixup(D["e"]), D["l"])
    if k in ("st", "un"):
        return M.St(D["nm"], [M.Fld(f["n"], fixup(f["t"]), f["b"], f["o"]) for f in D["f"]], D["a"], False, k)
    raise AssertionError(k)


def prepare_mc(cfg, scratch, name="defs", module="MCDefs.tla", tag="@DEF ", timeout=600, workers=8):
    """run TLC as scenario generator; the printed scenarios go to a file"""
    path = os.path.join(scratch, f"{name}.ndjson")
    r = tlc.run_model(module, cfg, scratch=scratch, timeout=timeout, workers=workers)
    if not r["ok"]:
        raise tlc.TLCError(r["out"][-3000:])
    n = 0
    with open(path, "w") as out:
        for line in sorted(set(x for x in r["out"].splitlines() if x.startswith('"' + tag))):
            out.write(json.loads(line)[len(tag):] + "\n")
            n += 1
    if not n:
        raise tlc.TLCError("no scenarios generated: " + r["out"][-2000:])
    return path


def mc_defs(path, shard, nshards, stride=1, phase=0):
    with open(path) as fh:
        for i, line in enumerate(fh):
            if i % nshards != shard or (i // nshards) % stride != phase % stride:
                continue
            d = json.loads(line)
            yield fixup(d["t"]), d["ok"]


def mc_scens(rng, path, shard, nshards, stride=1, phase=0):
    for T, ok in mc_defs(path, shard, nshards, stride, phase):
        e = rng.choice("lb")
        yield {"fam": "mc", "T": T, "E": C.env(e, "uint16"), "text": M.Render().text(T), "ptr": "uint16", "align": T["a"],
               "compiled": rng.random() < 0.5, "valid": ok}


def rand_scens(rng, n, fam="rand", **kw):
    for _ in range(n):
        s = C.rand_def(rng, **kw)
        s["fam"] = fam
        yield s
