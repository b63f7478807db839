"""C17 structure values: equality, hash, truth, construction, local assignment."""
import copy
import random

import drive
import model as M

from . import codec, common as C, mem

REQUIRED_CLAUSES = ["mem.views", "mem.bytes", "values.equality", "values.hash", "values.truth", "values.constructed", "values.foreign"]
ASSUMPTIONS = ["values with a NaN are not judged (a NaN is equal to nothing), nor zeroes of both signs inside unions",
               "fields named _values, _sizes or _buf collide with internal attributes and are not generated"]


def prepare(tier, seed, scratch):
    return {"mem": codec.prepare_mc("MCMem_gen.cfg" if tier == "quick" else "MCMem_gent.cfg", scratch, "mem", "MCMem.tla", tag="@MEM "),
            "mc": codec.prepare_mc("MCDefs_gen2.cfg" if tier == "quick" else "MCDefs_gen3.cfg", scratch)}


def models(tier):
    return [{"module": "MCValues.tla", "cfg": "MCValues_q.cfg" if tier == "quick" else "MCValues_t.cfg"}]


def val(s, rng):
    s["kind"] = "val"
    s["seed"] = rng.getrandbits(32)
    return s


def count_scen(rng, n):
    kinds = rng.choice([["uint8"], ["uint8", "int16"], ["int32", "uint8", "char", "uint24"]])
    pick = lambda: M.Chr() if (k := rng.choice(kinds)) == "char" else M.Int(k)
    pre = rng.choice(["f", "a", "_x", "field_"])
    D = M.St("T", [M.Fld(f"{pre}{i}", pick()) for i in range(n)], rng.random() < 0.3)
    return {"fam": "count", "T": D, "E": C.env(rng.choice("lb"), "uint32"), "text": M.Render(rng).text(D), "ptr": "uint32",
            "align": D["a"], "compiled": rng.random() < 0.5}


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for i, s in enumerate(mem.mc_scens(rng, files["mem"], shard, nshards, 1)):
        if s["T"]["k"] == "st" and (i % (4 if q else 5) == 0):
            yield s
    for s in codec.mc_scens(rng, files["mc"], shard, nshards, 4 if q else 12, rng.randrange(12)):
        if s["valid"]:
            yield val(s, rng)
    n = 120 if q else 2500
    yield from mem.rand_scens(rng, n, "struct", False, depth=2)
    yield from mem.rand_scens(rng, n // 2, "struct-bits", False, bits=14, depth=1)
    yield from mem.rand_scens(rng, n // 3, "struct-anon", False, anon=0.95, st=8, un=4, depth=3)
    for s in codec.rand_scens(rng, n, "values", topunion=0.1):
        yield val(s, rng)
    for s in codec.rand_scens(rng, n // 2, "values-anon", anon=0.95, st=8, un=3):
        yield val(s, rng)
    counts = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 260, 300]
    for i, c in enumerate(counts * (1 if q else 6)):
        if i % nshards == shard:
            yield val(count_scen(rng, c), rng)


def tweak(rng, D, E, v):
    """the value with one field at some depth changed"""
    if not D["f"]:
        return v
    v = copy.deepcopy(v)
    if D["k"] == "un":
        i, x = v
        f = D["f"][i]
        return (i, C.gen_value(rng, f["t"], E, None, bits=f["b"]))
    i = rng.choice([0, len(D["f"]) - 1, rng.randrange(len(D["f"]))])
    f = D["f"][i]
    if f["t"]["k"] in ("st", "un") and not f["b"] and rng.random() < 0.7:
        v[i] = tweak(rng, f["t"], E, v[i])
    else:
        v[i] = C.gen_value(rng, f["t"], E, None, bits=f["b"])
    return v


def zero(D, bits=0):
    """python tree of the zero value, None where the default should be used"""
    k = D["k"]
    if bits or k in ("int", "enm", "ptr", "leb"):
        return 0
    return None


def execute(s):
    if s.get("kind") != "val":
        return mem.execute(s)
    # contents that are no text for a wchar member of a union cannot be used: draw again
    for n in range(8):
        try:
            return execute_values(s, random.Random(s["seed"] + n))
        except UnicodeDecodeError:
            pass
    cs, T = C.mk(s)
    return C.trace(s, [])


def execute_values(s, rng):
    D, E = s["T"], s["E"]
    cs, T = C.mk(s)
    ev = []
    # twins: the same definition in another cstruct object, and under another name
    cs2, T2 = C.mk(s)
    twins = [T2]
    if D["k"] == "st":
        try:
            cs.load("struct Twin__ " + M.Render(rng).body(D) + ";\n", compiled=s["compiled"], align=s["align"])
            twins.append(cs.Twin__)
        except Exception:
            pass
    objs = []

    def add(c, obj):
        objs.append((c, obj, drive.enc(D, obj)))

    def build(Tc, v, how):
        if how == "build" or D["k"] == "un":
            return drive.build(Tc, D, v)
        o = Tc()
        raw = list(Tc.lookup.values())
        for i, f in enumerate(D["f"]):
            setattr(o, raw[i]._name, drive.build(raw[i].type, f["t"], v[i]))
        return o

    v = C.gen_value(rng, D, E)
    add(0, build(T, v, "build"))
    add(0, build(T, v, "assign"))
    add(0, T())
    for _ in range(2):
        add(0, build(T, tweak(rng, D, E, v), rng.choice(["build", "assign"])))
    for c, Tc in enumerate(twins, 1):
        add(c, build(Tc, v, "build"))
    if D["k"] == "st" and D["f"]:
        # exactly one field differs from the default
        i = rng.choice([0, len(D["f"]) - 1, rng.randrange(len(D["f"]))])
        f = D["f"][i]
        o = T()
        x = C.gen_value(rng, f["t"], E, None, bits=f["b"])
        setattr(o, list(T.lookup)[i], drive.build(list(T.lookup.values())[i].type, f["t"], x))
        add(0, o)
    try:
        b = T.dumps(objs[0][1])
        add(0, T(b) if not (len(D["f"]) == 1) else T.reads(b))
    except drive.Hang:
        raise
    except Exception:       # dumping is not judged here
        pass
    hs = []
    ids = {}
    for _, o, _ in objs:
        try:
            h = hash(o)
            hs.append([True, ids.setdefault(h, len(ids))])
        except TypeError:
            hs.append([False, -1])
    foreign = [x for x in (5, None, b"", (), "x", [], object())]
    ev.append({"op": "veq", "e": E["e"], "os": [{"c": c, "v": e} for c, _, e in objs],
               "eq": [[(a[1] == b[1]) is True for b in objs] for a in objs],
               "ne": [[(a[1] != b[1]) is True for b in objs] for a in objs],
               "hs": hs, "bo": [bool(o) for _, o, _ in objs],
               "fo": [bool(o == x) or not (o != x) for _, o, _ in objs[:2] for x in foreign]})
    # constructors
    if D["k"] == "st":
        raw = list(T.lookup)
        ft = list(T.lookup.values())
        for _ in range(3):
            how = rng.choice(["kw", "kw", "args", "assign", "mixed"])
            n = len(raw)
            idx = sorted(rng.sample(range(n), rng.randint(0, n))) if how != "args" else list(range(rng.randint(0, n)))
            if how == "args" and len(idx) == 1:
                idx = list(range(min(2, n)))
            vals = {}
            sets = []
            for i in idx:
                f = D["f"][i]
                x, enc = value(rng, ft[i].type, f["t"], f["b"], E)
                vals[i] = x
                sets.append({"p": [i + 1], "v": enc})
            if how == "args" and len(idx) != 1:
                o = T(*vals.values())
            elif how == "mixed" and len(idx) > 2 and idx[:2] == [0, 1]:
                o = T(vals[0], vals[1], **{raw[i]: vals[i] for i in idx[2:]})
            elif how == "assign":
                o = T()
                for i in rng.sample(idx, len(idx)):
                    setattr(o, raw[i], vals[i])
            else:
                order = rng.sample(idx, len(idx))
                o = T(**{raw[i]: vals[i] for i in order})
            ev.append({"op": "vnew", "e": E["e"], "s": sets, "v": drive.enc(D, o), "by": how})
    return C.trace(s, ev)


def value(rng, T, D, b, E):
    if not b and (C.has_union(D) or D["k"] == "vd"):
        x = drive.build(T, D, C.gen_value(rng, D, E))
        return x, drive.enc(D, x)
    v = C.gen_value(rng, D, E, bits=b)
    if b:
        return drive.build(T, D, v) if D["k"] == "enm" else v, {"k": "e" if D["k"] == "enm" else "i", "v": drive.enc_int(v)}
    return drive.build(T, D, v), C.enc_tree(D, v)
