"""Shared scenario construction for the codec properties."""
from __future__ import annotations

import random

import drive
import model as M

PTRS = ["uint8", "uint16", "uint32", "uint64"]


def env(e, ptr, consts=()):
    return {"e": e, "p": M.Int(ptr), "c": [{"n": n, "v": drive.enc_int(v)} for n, v in consts]}


def rand_def(rng, **kw):
    """a random definition scenario: descriptor + text + environment"""
    g = M.Gen(rng, **kw)
    T = g.top(union=rng.random() < kw.get("topunion", 0.08))
    ptr = rng.choice(kw.get("ptrs", PTRS))
    e = rng.choice("lb")
    R = M.Render(rng)
    text = R.text(T, g.consts)
    return {"T": T, "E": env(e, ptr, g.consts), "text": text, "ptr": ptr, "align": g.align,
            "compiled": rng.random() < 0.5}


def mk(scen, compiled=None, e=None):
    cs = drive.make_cs(scen["text"], e or scen["E"]["e"], scen["ptr"],
                       scen["compiled"] if compiled is None else compiled, scen["align"])
    return cs, cs.resolve(scen["T"]["nm"])


def trace(scen, ev):
    return {"id": scen.get("id", ""), "E": scen["E"], "T": strip(scen["T"]), "ev": ev}


def strip(D):
    """only what the specification needs"""
    k = D["k"]
    if k == "arr":
        return {"k": k, "e": strip(D["e"]), "l": {a: b for a, b in D["l"].items()}}
    if k in ("st", "un"):
        return {"k": k, "a": D["a"], "f": [{"n": f["n"], "t": strip(f["t"]), "b": f["b"], "o": f["o"]} for f in D["f"]]}
    if k == "enm":
        return {"k": k, "b": strip(D["b"])}
    if k == "ptr":
        return {"k": k}
    return {a: b for a, b in D.items() if a != "sp"}


def data_len(rng, D):
    ms = M.min_size(D)
    return rng.choice([ms, ms + 3, ms * 2 + 8, ms * 2 + 24, ms * 3 + 60])


def data_for(rng, D, n=None):
    return M.gen_bytes(rng, n if n is not None else M.min_size(D) * 2 + 48)


# --- values -------------------------------------------------------------------------------------------

def gen_int(rng, size, signed, oor=0.0):
    bits = size * 8
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if rng.random() < oor:
        return rng.choice([hi + 1, lo - 1, hi + rng.randint(1, 300), lo - rng.randint(1, 300), 1 << bits, -(1 << bits),
                           hi * 2 + 1, (1 << bits) + 5])
    r = rng.random()
    if r < 0.3:
        return rng.choice([lo, hi, 0, 1, hi - 1, lo + 1, min(hi, 127), min(hi, 128), min(hi, 255), max(lo, -1)])
    if r < 0.6:
        return rng.randint(max(lo, -3), min(hi, 5))
    return rng.randint(lo, hi)


def gen_float(rng, size):
    import struct
    fmt = {2: "e", 4: "f", 8: "d"}[size]
    r = rng.random()
    if r < 0.3:
        return rng.choice([0.0, -0.0, 1.0, -1.5, 0.5, 2.0, float("inf"), float("-inf")])
    return struct.unpack("<" + fmt, bytes(rng.randrange(256) for _ in range(size)))[0]


def gen_wstr(rng, n, nozero=False):
    out = []
    while len(out) < n:
        if n - len(out) >= 2 and rng.random() < 0.1:
            out += [0xD800 + rng.randrange(1024), 0xDC00 + rng.randrange(1024)]
        else:
            u = rng.choice([65, 66, 0, 0x100, 0x4100, 0xFFFF, 0x20AC, rng.randrange(0xD800)])
            if nozero and u == 0:
                u = 1
            out.append(u)
    return drive.from_units(out)


def gen_value(rng, D, E, names=None, oor=0.0, short=0.0, bits=0):
    """python value tree for drive.build"""
    k = D["k"]
    if bits:
        if rng.random() < oor and not (k == "enm" and D["fl"]):
            return rng.choice([1 << bits, (1 << bits) + 1, -1, (1 << bits) * 2 - 1])
        return rng.choice([0, (1 << bits) - 1, 1, rng.randrange(1 << bits)])
    if k == "int":
        return gen_int(rng, D["s"], D["sg"], oor)
    if k == "enm":
        return gen_int(rng, D["b"]["s"], D["b"]["sg"], oor if not D["fl"] else 0)
    if k == "ptr":
        return gen_int(rng, E["p"]["s"], False, oor)
    if k == "leb":
        v = rng.choice([0, 1, 63, 64, 127, 128, 255, 300, 8191, 8192, rng.getrandbits(rng.randint(1, 90))])
        return -v if D["sg"] and rng.random() < 0.5 else v
    if k == "flt":
        return gen_float(rng, D["s"])
    if k == "chr":
        return bytes([rng.choice([0, 65, 255, rng.randrange(256)])])
    if k == "wch":
        return gen_wstr(rng, 1)
    if k == "vd":
        return None
    if k == "arr":
        l = D["l"]
        zt = l["k"] == "z"
        if l["k"] == "n":
            n = max(0, l["n"])
        elif l["k"] == "x":
            env_ = {c["n"]: drive.dec_int(c["v"]) for c in E["c"]}
            env_.update(names or {})
            try:
                n = max(0, M.toks_py(l["x"], env_))
            except Exception:
                n = 0
            n = min(n, 40)
        else:
            n = rng.choice([0, 1, 2, 3, 5])
        ek = D["e"]["k"]
        if ek == "chr":
            return bytes(rng.randrange(1 if zt else 0, 256) for _ in range(n))
        if ek == "wch":
            return gen_wstr(rng, n, zt)
        if l["k"] == "n" and rng.random() < short:
            n = max(0, n + rng.choice([-1, 1, 2]))
        out = []
        for _ in range(n):
            v = gen_value(rng, D["e"], E, names, oor, short)
            if zt:
                for _ in range(5):
                    if not zero_elem(D["e"], v):
                        break
                    v = gen_value(rng, D["e"], E, names, 0, short)
                if zero_elem(D["e"], v):
                    v = 1 if D["e"]["k"] in ("int", "enm", "leb") else v
                if zero_elem(D["e"], v):
                    continue
            out.append(v)
        return out
    if k == "st":
        nm = {}
        out = []
        dynnames = expr_names(D)
        for f in D["f"]:
            v = gen_value(rng, f["t"], E, nm, oor, short, f["b"])
            if f["n"] in dynnames and isinstance(v, int) and oor == 0 and rng.random() < 0.9:
                lim = (1 << f["b"]) - 1 if f["b"] else 7
                v = min(rng.choice([0, 1, 2, 3, 4]), lim)
            if isinstance(v, int) and f["n"]:
                nm[f["n"]] = v
            out.append(v)
        return out
    if k == "un":
        i = rng.randrange(len(D["f"]))
        return (i, gen_value(rng, D["f"][i]["t"], E, names, 0, short, D["f"][i]["b"]))
    raise AssertionError(k)


def zero_elem(D, v):
    if isinstance(v, int):
        return v == 0
    if isinstance(v, list):
        return all(zero_elem(None, x) for x in v)
    return False


def expr_names(D):
    s = set()

    def walk(t):
        if t["k"] == "arr":
            if t["l"]["k"] == "x":
                s.update(x["n"] for x in t["l"]["x"] if x["t"] == "i")
            walk(t["e"])

    for f in D["f"]:
        walk(f["t"])
    return s


def enc_tree(D, v, bits=0):
    """encode a python value tree directly (what the caller intends), without real objects; no unions"""
    k = D["k"]
    if k == "enm":
        return {"k": "e", "v": drive.enc_int(v)}
    if bits or k in ("int", "leb"):
        return {"k": "i", "v": drive.enc_int(v)}
    if k == "ptr":
        return {"k": "p", "v": drive.enc_int(v)}
    if k == "flt":
        return {"k": "f", "v": drive.enc_float(v)}
    if k == "chr":
        return {"k": "c", "v": list(v)}
    if k == "wch":
        return {"k": "w", "v": drive.units(v)}
    if k == "vd":
        return {"k": "v", "v": 0}
    if k == "arr":
        if D["e"]["k"] == "chr":
            return {"k": "c", "v": list(v)}
        if D["e"]["k"] == "wch":
            return {"k": "w", "v": drive.units(v)}
        return {"k": "l", "v": [enc_tree(D["e"], x) for x in v]}
    if k == "st":
        return {"k": "s", "v": [enc_tree(f["t"], x, f["b"]) for f, x in zip(D["f"], v)]}
    raise AssertionError(k)


def has_union(D):
    return M.has(D, lambda d: d["k"] == "un")


def dump_event(T, D, v, e):
    """build the value and dump it; an error while building counts as rejection (None: nothing to judge)"""
    un = has_union(D)
    try:
        obj = drive.build(T, D, v)
    except drive.Hang:
        raise
    except Exception as ex:
        if un:
            return None
        return {"op": "dump", "e": e, "v": enc_tree(D, v), "r": {"ok": False, "x": drive.exc_name(ex), "b": []}}
    enc = drive.enc(D, obj) if un else enc_tree(D, v)
    return {"op": "dump", "e": e, "v": enc, "r": drive.run_dump(T, obj)}
