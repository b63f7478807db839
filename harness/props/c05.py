"""C05 scalar codecs under the current endianness."""
import random

import drive
import model as M

from . import codec, common as C
from .c01 import SCALARS, scalar

REQUIRED_CLAUSES = ["parse.value", "parse.position", "dump.bytes", "dump.reject"]
ASSUMPTIONS = ["a NaN's payload is not compared (Python's float conversion may quieten it)"]


CHARS = {"l": ["<", "<", "<", "@", "="], "b": [">", ">", "!"]}      # @ and =: the native order, little-endian here


def prepare(tier, seed, scratch):
    return {"sca": codec.prepare_mc("MCScalars_gen.cfg", scratch, "sca", "MCScalars.tla", tag="@SCA ")}


def models(tier):
    return [{"module": "MCScalars.tla", "cfg": "MCScalars.cfg"}]


def prog(rng, s, n, oor=(0, 0, 0.6)):
    """a history of endianness switches, reads and writes on one cstruct object"""
    ops = []
    cur = s["E"]["e"]
    for _ in range(n):
        if rng.random() < 0.4:
            cur = rng.choice("lb")
        if rng.random() < 0.5:
            ops.append(["p", cur, C.data_for(rng, s["T"], M.min_size(s["T"]) + rng.choice([0, 3, 20])).hex(), rng.choice(CHARS[cur])])
        else:
            ops.append(["d", cur, C.gen_value(rng, s["T"], s["E"], oor=rng.choice(oor)), rng.choice(CHARS[cur])])
    s["ops"] = ops
    return s


MCTYPES = [M.Int("int8"), M.Int("uint8"), M.Int("int16"), M.Int("uint16"), M.Int("int24"), M.Int("uint24"), M.Int("int32"), M.Int("uint32"),
           M.Int("int48"), M.Int("uint64"), M.Int("int128"), M.Flt("float16"), M.Flt("float"), M.Flt("double"), M.Chr(), M.Wch(),
           M.Leb(False), M.Leb(True), M.Arr(M.Int("int16"), M.LN(2)), M.Arr(M.Int("uint24"), M.LN(2)),
           M.St("S", [M.Fld("a", M.Int("uint16"), 4), M.Fld("b", M.Int("uint16"), 12), M.Fld("c", M.Int("int32")),
                      M.Fld("d", M.Int("int24"), 7)], False)]


def unenc(v):
    """python tree of a value of the specification (mantissas here are palindromes)"""
    k, x = v["k"], v["v"]
    if k == "i":
        return drive.dec_int(x)
    if k == "c":
        return bytes(x)
    if k == "w":
        return drive.from_units(x)
    if k == "f":
        n = int("".join(map(str, x["m"])) or "0", 2) * 2.0 ** x["e"] if x["c"] == "f" else {"z": 0.0, "i": float("inf")}[x["c"]]
        return -n if x["s"] else n
    return [unenc(y) for y in x]


def mc_scens(rng, path, shard, nshards, stride):
    """every operation TLC enumerated, in random order on one cstruct object"""
    import json
    by = {}
    with open(path) as fh:
        for i, line in enumerate(fh):
            d = json.loads(line)
            if i % stride == 0:
                by.setdefault(d["ty"], []).append(d["h"][0])
    j = 0
    for ty, ops in sorted(by.items()):
        random.Random(ty).shuffle(ops)
        for c in range(0, len(ops), 50):
            j += 1
            if j % nshards != shard:
                continue
            D = MCTYPES[ty - 1]
            s = {"E": C.env(rng.choice("lb"), "uint32"), "ptr": "uint32", "align": False, "compiled": rng.random() < 0.5, "fam": "mc", "T": D}
            if D["k"] == "st":
                s.update(text=M.Render().text(D), name="S")
            elif D["k"] == "arr" or rng.random() < 0.4:
                s["T"] = M.St("S", [M.Fld("a", D)], False)
                s.update(text=M.Render().text(s["T"]), name="S")
            else:
                s.update(text="", name=D.get("sp") or {"chr": "char", "wch": "wchar"}[D["k"]])
            wrap = s["T"] is not D
            s["ops"] = [["d", e, [unenc(x)] if wrap else unenc(x), rng.choice(CHARS[e])] if op == "d" else
                        ["p", e, bytes(x).hex(), rng.choice(CHARS[e])] for op, e, x in ops[c:c + 50]]
            yield s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    yield from mc_scens(rng, files["sca"], shard, nshards, 1)
    n = 60 if q else 1200
    # whole structures, with bit-fields, enums, pointers and arrays: everything follows the byte order of now
    for s in codec.rand_scens(rng, n, "whole", bits=6, topunion=0.15):
        s["name"] = s["T"]["nm"]
        s["compiled"] = rng.random() < 0.7
        yield prog(rng, s, 6, (0,))
    for s in codec.rand_scens(rng, n, "whole-bits", bits=14, arr=1, st=1, maxf=6):
        s["name"] = s["T"]["nm"]
        s["compiled"] = rng.random() < 0.7
        yield prog(rng, s, 8, (0,))
    k = 60 if q else 400
    for i, name in enumerate(SCALARS):
        for _ in range(k // nshards + 1):
            D = scalar(name)
            via = rng.choice(["scalar", "scalar", "struct", "array", "zarr", "many", "alias"])
            sp = name
            if via == "alias" and name in M.SYN:
                sp = rng.choice(M.SYN[name])
            E = C.env(rng.choice("lb"), "uint32")
            s = {"E": E, "ptr": "uint32", "align": False, "compiled": rng.random() < 0.6, "fam": via}
            D["sp"] = sp
            if via in ("scalar", "alias"):
                s.update(T=D, text="", name=sp)
            else:
                fs = []
                if via == "struct":
                    fs = [M.Fld("a", D)]
                elif via == "array":
                    fs = [M.Fld("a", M.Arr(D, M.LN(rng.choice([1, 2, 3]))))]
                elif via == "zarr" and name not in M.FLOATS:
                    fs = [M.Fld("a", M.Arr(D, M.LZ)), M.Fld("b", M.Int("uint16"))]
                else:
                    fs = [M.Fld(f"f{j}", scalar(rng.choice(SCALARS))) for j in range(rng.randint(1, 4))] + [M.Fld("a", D)]
                T = M.St("T", fs, False)
                s.update(T=T, text=M.Render(rng).text(T), name="T")
            yield prog(rng, s, 10)
    # LEB128 exhaustive small encodings, wchar strings
    if shard == 0:
        for sg in (False, True):
            for chunk in range(4 if q else 16):
                D = M.Leb(sg)
                s = {"T": D, "E": C.env("l", "uint32"), "text": "", "ptr": "uint32", "align": False, "compiled": True,
                     "fam": "leb", "name": D["sp"]}
                ops = []
                for x in range(chunk * 64, chunk * 64 + 64):
                    ops.append(["d", "l", x if x < 130 else x * 41])
                    if sg:
                        ops.append(["d", "l", -x if x < 130 else -x * 41])
                    b = bytes([128 | (x & 127), (x * 7) & 255, (x * 3) & 127])
                    ops.append(["p", "b", b.hex()])
                s["ops"] = ops
                yield s


def execute(s):
    D = s["T"]
    cs = drive.make_cs(s["text"], s["E"]["e"], s["ptr"], s["compiled"], s["align"])
    T = cs.resolve(s["name"])
    ev = []
    for op, e, x, *ch in s["ops"]:
        ch = ch[0] if ch else drive.ENDIAN[e]
        if cs.endian != ch:
            cs.endian = ch
        if op == "p":
            d = bytes.fromhex(x)
            r, _ = drive.run_parse(T, D, d)
            ev.append({"op": "parse", "d": list(d), "at": 0, "e": e, "r": r})
        else:
            x = C.dump_event(T, D, x, e)
            if x:
                ev.append(x)
    return C.trace(s, ev)
