"""The buffer machine on the real library: values of fixed-size types that get their fields assigned (C11, C17)."""
from __future__ import annotations

import json
import random

import drive
import model as M

from . import codec, common as C


def paths(D, pre=(), names=()):
    """[(path, field name or None, bits, type)] of every field, at any depth"""
    out = []
    if D["k"] in ("st", "un"):
        for i, f in enumerate(D["f"], 1):
            p = (*pre, i)
            if f["n"]:
                out.append((p, f["b"], f["t"]))
            if not f["b"]:
                out += paths(f["t"], p)
    elif D["k"] == "arr" and D["l"]["k"] in ("n", "x") and deep(D["e"]):
        n = fixed_len(D)
        for i in sorted({1, 2, n} & set(range(1, n + 1))):
            out += paths(D["e"], (*pre, i))
    return out


def deep(D):
    return D["k"] in ("st", "un") or D["k"] == "arr" and deep(D["e"])


def fixed_len(D):
    return D["n_"] if "n_" in D else max(0, D["l"]["n"]) if D["l"]["k"] == "n" else 0


def at(D, path):
    """(descriptor, bits) at a path"""
    b = 0
    for i in path:
        if D["k"] == "arr":
            D, b = D["e"], 0
        else:
            f = D["f"][i - 1]
            D, b = f["t"], f["b"]
    return D, b


def libtype(T, D, path):
    for i in path:
        if D["k"] == "arr":
            T, D = T.type, D["e"]
        else:
            T, D = list(T.lookup.values())[i - 1].type, D["f"][i - 1]["t"]
    return T


class Walker:
    """reaches the object that holds a field; sometimes through references taken earlier"""

    def __init__(self, obj, D, rng, stale):
        self.obj, self.D, self.rng, self.stale = obj, D, rng, stale
        self.refs = {}

    def holder(self, path):
        obj, D = self.obj, self.D
        inun = D["k"] == "un"
        for j, i in enumerate(path[:-1]):
            key = path[:j + 1]
            if D["k"] == "arr":
                nxt = obj[i - 1]
                D2 = D["e"]
            else:
                f = D["f"][i - 1]
                D2 = f["t"]
                if not f["n"]:      # folded: reached through the parent
                    D = D2
                    continue
                nxt = getattr(obj, f["n"]) if self.rng.random() < 0.8 else obj[f["n"]]
            if key in self.refs and self.stale and self.rng.random() < 0.6:
                nxt = self.refs[key]
            elif D2["k"] in ("st", "un"):
                self.refs.setdefault(key, nxt)
            obj, D = nxt, D2
        return obj, D["f"][path[-1] - 1]["n"]

    def drop(self, path):
        """a value was replaced: references below it are other objects now (inside a union they stay live)"""
        if not self.in_union(path):
            for k in [k for k in self.refs if k[:len(path)] == tuple(path)]:
                del self.refs[k]

    def in_union(self, path):
        D = self.D
        for i in path:
            if D["k"] == "un":
                return True
            D = D["e"] if D["k"] == "arr" else D["f"][i - 1]["t"]
        return False


def observe(T, D, obj, base):
    ev = dict(base, ok=True, v={"k": "v", "v": 0}, w={"ok": False, "x": "", "b": []}, eq=False, z=-1)
    try:
        ev["v"] = drive.enc(D, obj)
    except drive.Hang:
        raise
    except Exception:
        ev["ok"] = False
        return ev
    ev["w"] = drive.run_dump(T, obj)
    if ev["w"]["ok"]:
        try:
            o2 = T(bytes(ev["w"]["b"]))
            ev["eq"] = bool(o2 == obj) and bool(obj == o2) and bytes(obj) == bytes(ev["w"]["b"])
            ev["z"] = len(obj)
        except drive.Hang:
            raise
        except Exception:
            pass
    return ev


def value_for(rng, T, D, b, E, v=None):
    """(real value, encoded value) for a location of type D; v: python value tree"""
    if b:
        n = v if v is not None else rng.choice([0, 1, (1 << b) - 1, rng.randrange(1 << b)])
        return (T(n), {"k": "e", "v": drive.enc_int(n)}) if D["k"] == "enm" else (n, {"k": "i", "v": drive.enc_int(n)})
    if C.has_union(D) or D["k"] == "vd":
        for raw in (M.gen_bytes(rng, T.size), bytes(T.size)):
            try:
                obj = T(raw) if D["k"] != "arr" else T.reads(raw)
                break
            except UnicodeDecodeError:      # not a value of a wchar in it
                continue
        return obj, drive.enc(D, obj)
    if v is None:
        v = C.gen_value(rng, D, E)
    return drive.build(T, D, v), C.enc_tree(D, v)


def dec_tree(D, v):
    k = v["k"]
    if k in ("i", "e", "p"):
        return drive.dec_int(v["v"])
    if k == "c":
        return bytes(v["v"])
    if k == "w":
        return drive.from_units(v["v"])
    if k == "f":
        x = v["v"]
        if x["c"] == "z":
            return -0.0 if x["s"] else 0.0
        if x["c"] in "in":
            return float("nan") if x["c"] == "n" else float("-inf") if x["s"] else float("inf")
        n = sum(bit << i for i, bit in enumerate(x["m"]))
        return (-1 if x["s"] else 1) * n * 2.0 ** x["e"]
    if k == "v":
        return None
    if D["k"] == "arr":
        return [dec_tree(D["e"], x) for x in v["v"]]
    return [dec_tree(f["t"], x) for f, x in zip(D["f"], v["v"])]


def run(s, cs, T, D, E, rng):
    """events of one scenario"""
    e = E["e"]
    ev = []
    if s["by"] == "parse":
        d = bytes.fromhex(s["d"])
        base = {"op": "mnew", "by": "parse", "e": e, "d": list(d), "s": [], "p": -1}
        r, obj = drive.run_parse(T, D, d)
        if obj is None:
            return [dict(base, ok=False, v={"k": "v", "v": 0}, w={"ok": False, "x": r["x"], "b": []}, eq=False, z=-1)]
        base["p"] = r["p"]
        ev.append(observe(T, D, obj, base))
    else:
        sets = []
        kw = {}
        names = [f["n"] for f in D["f"]]
        chosen = [i for i, n in enumerate(names, 1) if n and (D["k"] == "st" and rng.random() < 0.5)]
        if D["k"] == "un" and rng.random() < 0.7:
            chosen = [rng.choice([i for i, n in enumerate(names, 1) if n] or [0])]
            chosen = [c for c in chosen if c]
        positional = s["by"] == "args" and all(names)
        if positional and D["k"] == "st":
            chosen = list(range(1, rng.randint(0, len(names)) + 1))
        if positional and D["k"] == "un":
            chosen = [1]
        for i in chosen:
            t, b = at(D, (i,))
            x, enc = value_for(rng, libtype(T, D, (i,)), t, b, E)
            kw[names[i - 1]] = x
            sets.append({"p": [i], "v": enc})
        if positional and (len(kw) != 1 or isinstance(next(iter(kw.values())), (bytes, bytearray, memoryview)) or hasattr(next(iter(kw.values())), "read")):
            positional = len(kw) != 1
        base = {"op": "mnew", "by": "values", "e": e, "d": [], "s": sets, "p": -1}
        try:
            obj = T(*kw.values()) if positional else T(**kw)
        except drive.Hang:
            raise
        except Exception as ex:
            return [dict(base, ok=False, v={"k": "v", "v": 0}, w={"ok": False, "x": drive.exc_name(ex), "b": []}, eq=False, z=-1)]
        ev.append(observe(T, D, obj, base))
    w = Walker(obj, D, rng, s.get("stale", True))
    locs = paths(D)
    steps = s["steps"] if isinstance(s["steps"], list) else [[list(rng.choice(locs)[0]), None] for _ in range(s["steps"])] if locs else []
    if not isinstance(s["steps"], list) and locs:
        # values that are equal but not the same bytes
        fl = [list(p) for p, *_ in locs if at(D, p)[0]["k"] == "flt"]
        if fl and rng.random() < 0.6:
            p = rng.choice(fl)
            k = rng.randint(0, len(steps))
            order = rng.choice([[0, 1], [1, 0], [0, 1, 0]])
            steps[k:k] = [[p, {"k": "f", "v": {"c": "z", "s": sg, "m": [], "e": 0}}] for sg in order]
    for p, val in steps:
        t, b = at(D, p)
        if val is not None:
            val = None if C.has_union(t) else dec_tree(t, val)
        x, enc = value_for(rng, libtype(T, D, p), t, b, E, val)
        base = {"op": "mset", "e": e, "s": {"p": list(p), "v": enc}}
        try:
            holder, name = w.holder(tuple(p))
            setattr(holder, name, x)
        except drive.Hang:
            raise
        except Exception as ex:
            ev.append(dict(base, ok=False, v={"k": "v", "v": 0}, w={"ok": False, "x": drive.exc_name(ex), "b": []}, eq=False, z=-1))
            break
        w.drop(tuple(p))
        ev.append(observe(T, D, obj, base))
        if not ev[-1]["ok"]:
            break
    return ev


def mc_scens(rng, path, shard, nshards, stride=1):
    """group the TLC-generated assignments per definition; all of them, shuffled, are one history"""
    groups = {}
    with open(path) as fh:
        for line in fh:
            d = json.loads(line)
            groups.setdefault(json.dumps([d["t"], d["a"]], sort_keys=True), [d, []])[1].append(d["h"][0])
    for i, k in enumerate(sorted(groups)):
        if i % nshards != shard or (i // nshards) % stride:
            continue
        d, hs = groups[k]
        D = codec.fixup(d["t"])
        rng.shuffle(hs)
        yield {"fam": "mc", "T": D, "E": C.env(rng.choice("lb"), "uint16"), "text": M.Render().text(D), "ptr": "uint16",
               "align": d["a"], "compiled": rng.random() < 0.5, "by": "parse", "d": bytes(d["b"]).hex(),
               "steps": [[h["p"], h["v"]] for h in hs], "seed": rng.getrandbits(32)}


def resolve_lens(D, E):
    """note the length of constant arrays"""
    if D["k"] == "arr":
        if D["l"]["k"] == "x":
            try:
                D["n_"] = max(0, M.toks_py(D["l"]["x"], {c["n"]: drive.dec_int(c["v"]) for c in E["c"]}))
            except Exception:
                D["n_"] = 0
        resolve_lens(D["e"], E)
    elif D["k"] in ("st", "un"):
        for f in D["f"]:
            resolve_lens(f["t"], E)


def size(D):
    """about the size of a fixed-size type"""
    if D["k"] == "arr":
        return fixed_len(D) * size(D["e"])
    if D["k"] in ("st", "un"):
        z = [2 if f["b"] else size(f["t"]) for f in D["f"]] or [0]
        return sum(z) if D["k"] == "st" else max(z)
    return 4 if D["k"] == "ptr" else M.min_size(D)


def rand_scens(rng, n, fam, union, steps=(3, 9), **kw):
    for _ in range(n):
        for _ in range(20):
            s = C.rand_def(rng, topunion=1.0 if union else 0.0, dyn=False, eof=0, leb=0, **kw)
            resolve_lens(s["T"], s["E"])
            if not M.is_dynamic(s["T"]) and size(s["T"]) <= 150 and not (union == "in" and not C.has_union(s["T"])):
                break
        else:
            continue
        s["fam"] = fam
        s["by"] = rng.choice(["parse", "parse", "parse", "kw", "args"])
        s["d"] = M.gen_bytes(rng, M.min_size(s["T"]) * 2 + 40).hex()
        s["steps"] = rng.randint(*steps)
        s["seed"] = rng.getrandbits(32)
        yield s


def execute(s):
    rng = random.Random(s["seed"])
    cs, T = C.mk(s)
    cs.endian = drive.ENDIAN[s["E"]["e"]]
    ev = run(s, cs, T, s["T"], s["E"], rng)
    return C.trace(s, ev)
