"""C06 bit-fields partition their storage unit."""
import drive
import model as M

from . import codec, common as C

REQUIRED_CLAUSES = ["load.accept-iff-valid", "parse.value", "parse.position", "dump.bytes", "dump.reject"]
ASSUMPTIONS = ["storage units are integer, char, enum and flag types of fixed width"]


def models(tier):
    return [{"module": "MCDefs.tla", "cfg": "MCDefs_bits.cfg"}]


UNITS = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint24", "int24", "uint48", "int48", "uint128", "int128"]
EN = [M.Enm("En8", M.Int("uint8"), [("X", None), ("Y", None), ("Z", [M.tnum(7)])]),
      M.Enm("Fl16", M.Int("uint16"), [("FA", None), ("FB", None), ("FC", [M.tnum(64)])], True),
      M.Enm("Es32", M.Int("int32"), [("EA", None), ("EB", None)])]


def runs(rng):
    """one structure around runs of bit-fields; may straddle"""
    fs = []
    align = rng.random() < 0.5
    n = 0
    for _ in range(rng.randint(1, 3)):
        pool = rng.sample(UNITS, 2)
        rem = 0
        cur = None
        for _ in range(rng.randint(1, 6)):
            n += 1
            t = rng.choice(EN) if rng.random() < 0.15 else M.Int(rng.choice(pool))
            u = t["b"] if t["k"] == "enm" else t
            if cur != u["n"] or rem == 0:
                rem = 8 * u["s"]
                cur = u["n"]
            b = rng.choice([1, 2, 3, 4, 5, 7, 8, rem, max(1, rem - 1), rng.randint(1, 8 * u["s"])])
            if b > rem and rng.random() < 0.93:
                b = rng.randint(1, rem)
            rem = max(0, rem - b)
            fs.append(M.Fld(f"b{n}", t, b))
        if rng.random() < 0.6:
            n += 1
            t = rng.choice([M.Int("uint8"), M.Int("uint16"), M.Int("uint32"), M.Chr(), M.Arr(M.Chr(), M.LZ),
                            M.Arr(M.Int("uint8"), M.LN(3)), M.Leb(False), M.Flt("float"),
                            M.St(None, [M.Fld("x", M.Int("uint8"), 3), M.Fld("y", M.Int("uint8"), 5)], align, True)])
            fs.append(M.Fld(f"n{n}", t))
    T = M.St("T", fs, align)
    return T, align


def finish(rng, s, n):
    s["ops"] = []
    for _ in range(n):
        e = rng.choice("lb")
        s["ops"].append(["p", e, C.data_for(rng, s["T"], M.min_size(s["T"]) * 2 + 90).hex()])
        s["ops"].append(["d", e, C.gen_value(rng, s["T"], s["E"], oor=rng.choice([0, 0, 0.25]))])
    return s


def widths(total):
    """all ways to fill at most `total` bits with up to 4 fields (spec-sized family)"""
    def go(left, k):
        yield []
        if k and left:
            for b in range(1, left + 1):
                for rest in go(left - b, k - 1):
                    yield [b] + rest
    return [w for w in go(total, 4) if w]


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    # exhaustive: all width sequences over an 8-bit unit (up to 4 fields), both endians, signed and unsigned
    ws = widths(8)
    for i, w in enumerate(ws):
        if i % nshards != shard:
            continue
        t = M.Int("uint8" if i % 2 else "int8")
        T = M.St("T", [M.Fld(f"b{j}", t, b) for j, b in enumerate(w)] + [M.Fld("z", M.Int("uint8"))], False)
        s = {"T": T, "E": C.env("l", "uint32"), "ptr": "uint32", "align": False, "compiled": i % 3 == 0, "fam": "unit8",
             "text": M.Render().text(T)}
        yield finish(rng, s, 2)
    for _ in range(600 if q else 9000):
        T, align = runs(rng)
        s = {"T": T, "E": C.env(rng.choice("lb"), "uint32"), "ptr": "uint32", "align": align, "compiled": rng.random() < 0.5,
             "fam": "runs", "text": M.Render(rng).text(T)}
        yield finish(rng, s, 2)
    for s in codec.rand_scens(rng, 250 if q else 3000, "nested", bits=12, st=4, un=2, arr=4, topunion=0.1):
        yield finish(rng, s, 1)


def execute(s):
    D = s["T"]
    try:
        cs, T = C.mk(s)
    except drive.Hang:
        raise
    except Exception:
        return C.trace(s, [{"op": "load", "ok": False}])
    ev = [{"op": "load", "ok": True}]
    for op, e, x in s["ops"]:
        cs.endian = drive.ENDIAN[e]
        if op == "p":
            d = bytes.fromhex(x)
            r, _ = drive.run_parse(T, D, d)
            ev.append({"op": "parse", "d": list(d), "at": 0, "e": e, "r": r})
        else:
            ev.append(C.dump_event(T, D, x, e))
    return C.trace(s, [x for x in ev if x])
