"""C12 enums and flags preserve every underlying value and number members like C."""
import json

import drive
import model as M

from . import codec, common as C
from .c10 import tame

REQUIRED_CLAUSES = ["enum.members", "enum.by-name", "enum.value", "enum.dump", "enum.equality", "enum.hash", "parse.value", "dump.bytes"]
ASSUMPTIONS = ["comparison between an enum and a flag class is not judged (the statement speaks of members of another enum)",
               "member names that the Python enum class itself uses (type, size, cs, dynamic, alignment, mro, _x_) are refused on load",
               "negative members of flags are not judged"]
BASES = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint24", "int24", "uint48", "int48", "uint128", "int128"]
NAMES = ["A", "B", "C", "name", "value", "X1", "_u", "e", "L", "u", "None", "F0", "class", "LAST", "default"]


def models(tier):
    return [{"module": "MCEnums.tla", "cfg": "MCEnums.cfg"}]


def prepare(tier, seed, scratch):
    return {"en": codec.prepare_mc("MCEnums_gen.cfg" if tier == "quick" else "MCEnums_gent.cfg", scratch, "en", "MCEnums.tla")}


def rand_decl(rng, fl):
    ms = []
    ids = []
    for n in rng.sample(NAMES, rng.randint(1, 8)):
        r = rng.random()
        if r < 0.5:
            x = []
        elif r < 0.75:
            x = [M.tnum(rng.choice([0, 1, 2, 3, 4, 7, 8, 16, 31, 64, 100, 128, 255, 256, 1000, 1 << 20, 1 << 31, (1 << 63) - 1]), rng.choice([10, 16, 8, 2]))]
        elif r < 0.9 and ids:
            x = rng.choice([lambda: [M.tid(rng.choice(ids))], lambda: [M.tid(rng.choice(ids)), M.top("|"), M.tid(rng.choice(ids))],
                            lambda: [M.tid(rng.choice(ids)), M.top("+"), M.tnum(rng.randint(0, 3))],
                            lambda: [M.top("("), M.tid(rng.choice(ids)), M.top("&"), M.tnum(255), M.top(")"), M.top("*"), M.tnum(2)],
                            lambda: [M.tnum(1), M.top("<<"), M.tnum(rng.randint(0, 12))],
                            lambda: [M.tid("K"), M.top("-"), M.tnum(1)],
                            lambda: [M.tsz("uint32", 4), M.top("*"), M.tid(rng.choice(ids))]])()
        elif not fl:
            x = [M.top("-"), M.tnum(rng.choice([1, 2, 128]))]
        else:
            x = [M.tnum(1), M.top("<<"), M.tnum(rng.randint(0, 20))]
        ms.append([n, x])
        ids.append(n)
    return ms


def scen(rng, fl, ms, fam):
    b = rng.choice(BASES) if fam != "mc" else rng.choice(["int16", "int32", "int8"])
    sep = rng.choice([", ", ",\n    ", ",\n"])
    body = sep.join(n if not x else f"{n} = {M.toks_text(x, rng)}" for n, x in ms) + rng.choice(["", ","])
    anon = rng.random() < 0.12
    base = M.Int(b)
    D = M.Enm("En", base, [], fl)
    consts = [["K", 9]]
    text = "#define K 9\n" + f"{'flag' if fl else 'enum'} {'' if anon else 'En '}: {b} {{\n    {body}\n}};\n"
    other = "" if anon else f"{'flag' if fl else 'enum'} Ot : {b} {{\n    {body}\n}};\n"
    s = {"fam": fam, "fl": fl, "ms": ms, "anon": anon, "text": text, "other": other, "base": b, "consts": consts, "e": rng.choice("lb"),
         "compiled": rng.random() < 0.5, "align": rng.random() < 0.3}
    w = base["s"]
    vals = [bytes(w), b"\xff" * w, bytes([1]) + bytes(w - 1), bytes(w - 1) + bytes([0x80])]
    if w == 1:
        vals += [bytes([i]) for i in rng.sample(range(256), 24)]
    vals += [C.gen_int(rng, w, False).to_bytes(w, "little") for _ in range(8)]
    s["raw"] = [v.hex() for v in vals]
    s["st"] = [rng.choice(["f", "arr", "zarr", "bits", "arrx"]) for _ in range(4)]
    s["seed"] = rng.getrandbits(32)
    return s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    with open(files["en"]) as fh:
        lines = [x for i, x in enumerate(fh) if i % nshards == shard]
    for x in lines[::(1 if q else 4)]:
        d = json.loads(x)
        yield scen(rng, d["fl"], [[m["n"], m["x"]] for m in d["ms"]], "mc")
    for _ in range(150 if q else 4000):
        fl = rng.random() < 0.5
        ms = rand_decl(rng, fl)
        yield scen(rng, fl, ms, "rand")


def members(T, ms):
    return [{"n": n, "v": drive.enc_int(getattr(T, n).value)} for n, _ in ms]


def execute(s):
    import random
    rng = random.Random(s["seed"])
    base = M.Int(s["base"])
    D = M.Enm("En", base, [], s["fl"])
    E = C.env(s["e"], "uint16", s["consts"])
    decls = [{"n": n, "x": x} for n, x in s["ms"]]
    ev = []
    try:
        cs = drive.make_cs(s["text"] + s["other"], s["e"], "uint16", s["compiled"], s["align"])
    except drive.Rejected:
        return {"E": E, "T": C.strip(D), "ev": [{"op": "enum", "fl": s["fl"], "ms": decls, "ok": False, "got": [], "byname": []}]}
    if s["anon"]:
        got = [{"n": n, "v": drive.enc_int(cs.consts[n].value)} for n, _ in s["ms"]]
        by = [{"n": n, "v": drive.enc_int(int(getattr(cs, n)))} for n, _ in s["ms"]]
        T = type(cs.consts[s["ms"][0][0]])
    else:
        T = cs.En
        got = members(T, s["ms"])
        by = [{"n": n, "v": drive.enc_int(int(T[n]))} for n, _ in s["ms"]]
    ev.append({"op": "enum", "fl": s["fl"], "ms": decls, "ok": True, "got": got, "byname": by})
    # parsing raw values
    os_ = []
    cs.endian = drive.ENDIAN[s["e"]]
    for hx in s["raw"]:
        b = bytes.fromhex(hx)
        o = {"b": list(b), "ok": True, "iv": [0], "vv": [0], "cls": True, "rd": [], "rd2": [], "again": True}
        try:
            x = T(b)
            o.update(iv=drive.enc_int(int.__index__(x)), vv=drive.enc_int(x.value), cls=type(x) is T, rd=list(T.dumps(x)), rd2=list(x.dumps()),
                     again=(x == T(b)) is True and hash(x) == hash(T(b)))
        except drive.Hang:
            raise
        except Exception:
            o["ok"] = False
        os_.append(o)
    ev.append({"op": "eobj", "e": s["e"], "os": os_})
    # equality and hashing between everything there is
    objs = []
    pool = [g["v"] for g in got][:5] + [o["vv"] for o in os_ if o["ok"]][:5]
    for v in pool:
        n = drive.dec_int(v)
        objs.append((0, n, n))
        try:
            objs.append((1, n, T(n)))
        except Exception:
            continue
        if s["other"]:
            objs.append((2, n, cs.Ot(n)))
    for n, _ in s["ms"][:4]:
        m = cs.consts[n] if s["anon"] else T[n]
        objs.append((1, m.value, m))
        if s["other"]:
            objs.append((2, m.value, cs.Ot[n]))
    if not s["anon"] and rng.random() < 0.3:      # the same definition in another cstruct object is another enum
        cs2 = drive.make_cs(s["text"], s["e"], "uint16", s["compiled"], s["align"])
        objs += [(3, cs2.En[n].value, cs2.En[n]) for n, _ in s["ms"][:3]]
    rng.shuffle(objs)
    objs = objs[:16]
    hs = {}
    ev.append({"op": "eq", "os": [{"c": c, "v": drive.enc_int(v)} for c, v, _ in objs],
               "eq": [[(a[2] == b[2]) is True for b in objs] for a in objs],
               "ne": [[(a[2] != b[2]) is True for b in objs] for a in objs],
               "hs": [hs.setdefault(hash(o[2]), len(hs)) for o in objs]})
    tr = [{"E": E, "T": C.strip(D), "ev": ev}]
    if s["anon"]:
        return tr[0]
    # fields of the type
    fs = [M.Fld("n", M.Int("uint8"))]
    for i, k in enumerate(s["st"]):
        t = {"f": D, "arr": M.Arr(D, M.LN(rng.choice([1, 2, 3]))), "zarr": M.Arr(D, M.LZ), "bits": D,
             "arrx": M.Arr(D, M.LX([M.tid("n"), M.top("&"), M.tnum(3)], False))}[k]
        fs.append(M.Fld(f"f{i}", t, rng.choice([1, 3, 8 * base["s"]]) if k == "bits" else 0))
        if k == "bits":
            fs.append(M.Fld(f"g{i}", M.Int("uint8")))
    S = M.St("Q", fs, s["align"])
    R = M.Render(rng)
    body = f"struct Q {R.body(S)};\n"
    cs.load(body, compiled=s["compiled"], align=s["align"])
    Q = cs.Q
    for _ in range(3):
        d = C.data_for(rng, S, M.min_size(S) * 2 + 120)
        e = rng.choice("lb")
        cs.endian = drive.ENDIAN[e]
        r, obj = drive.run_parse(Q, S, d)
        ev.append({"op": "parse", "d": list(d), "at": 0, "e": e, "r": r})
        if r["ok"]:
            ev.append({"op": "dump", "v": r["v"], "e": e, "r": drive.run_dump(Q, obj)})
            ev.append({"op": "ecls", "ok": classes(Q, obj)})
        v = C.gen_value(rng, S, E, oor=rng.choice([0, 0, 0.3]))
        ev.append(C.dump_event(Q, S, v, e))
    for x in ev[3:]:
        x["T2"] = C.strip(S)
    return tr[0]


def classes(Q, obj):
    for n, f in Q.lookup.items():
        v = getattr(obj, n)
        t = f.type
        if hasattr(t, "num_entries"):
            if not all(type(x) is t.type for x in v):
                return False
        elif n.startswith("f") and type(v) is not t:
            return False
    return True
