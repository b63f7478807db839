"""C07 array length semantics."""
import drive
import model as M

from . import codec, common as C

REQUIRED_CLAUSES = ["parse.value", "parse.position", "dump.bytes", "dump.reject"]
ASSUMPTIONS = ["null-terminated arrays of floats and of structures containing non-integers are not judged",
               "the length check on dump is judged for fixed-size element types",
               "position after a to-end-of-stream array with a trailing partial element is not prescribed"]


def models(tier):
    return []


ELEMS = ["int", "odd", "flt", "chr", "wch", "leb", "enm", "ptr", "st", "std", "un"]


def element(rng, kind, align, n):
    if kind == "int":
        return M.Int(rng.choice(["int8", "uint8", "int16", "uint16", "uint32", "int64"]))
    if kind == "odd":
        return M.Int(rng.choice(["int24", "uint24", "int48", "uint48", "int128", "uint128"]))
    if kind == "flt":
        return M.Flt(rng.choice(list(M.FLOATS)))
    if kind == "chr":
        return M.Chr()
    if kind == "wch":
        return M.Wch()
    if kind == "leb":
        return M.Leb(rng.random() < 0.5)
    if kind == "enm":
        b = M.Int(rng.choice(["uint8", "int16", "uint32", "uint24"]))
        return M.Enm(f"En{n}", b, [(f"A{n}", None), (f"B{n}", None)], rng.random() < 0.4)
    if kind == "ptr":
        return M.Ptr(M.Int("uint8"))
    if kind == "st":
        return M.St(f"S{n}", [M.Fld("p", M.Int("uint8")), M.Fld("q", M.Int(rng.choice(["uint16", "uint8", "int24"])))], align)
    if kind == "std":
        return M.St(f"S{n}", [M.Fld("p", M.Int("uint8")), M.Fld("q", M.Arr(M.Chr(), M.LX([M.tid("p"), M.top("&"), M.tnum(3)], False)))], align)
    return M.Un(f"U{n}", [M.Fld("p", M.Int("uint8")), M.Fld("q", M.Int("uint16"))], align)


def arrays(rng):
    align = rng.random() < 0.35
    g = M.Gen(rng, align=align)
    consts = [("CN", rng.randint(0, 4))] if rng.random() < 0.5 else []
    if rng.random() < 0.15:
        consts.append(("n", rng.randint(0, 5)))       # a constant shadowed by a field
    fs = [M.Fld("n", M.Int(rng.choice(["uint8", "int8", "uint8", "uint16"])))]
    if rng.random() < 0.3:
        fs.append(M.Fld("m", M.Int("int8")))
    if rng.random() < 0.2:
        fs.append(M.Fld("k", M.Int("uint8"), 3))
    names = [f.get("n") for f in fs]
    for i in range(rng.randint(1, 3)):
        kind = rng.choice(ELEMS)
        e = element(rng, kind, align, i)
        ms = M.min_size(e)
        last = False
        form = rng.choice(["n", "x", "x", "c", "z", "e", "nn", "xn", "nx", "neg", "zn", "en"])
        if form in ("z", "zn") and not (e["k"] in ("int", "chr", "wch", "enm", "leb") or M.int_only(e)):
            form = "x"
        if form in ("e", "en") and (M.is_dynamic(e) or ms == 0):
            form = "n"
        x = lambda: M.LX(g.expr(names), False)
        nn = lambda: M.LN(rng.choice([0, 1, 2, 3, 5]))
        if form == "n":
            t = M.Arr(e, nn())
        elif form == "x":
            t = M.Arr(e, x())
        elif form == "c":
            t = M.Arr(e, M.LX([M.tid("CN"), M.top("+"), M.tnum(1)], True) if consts and consts[0][0] == "CN"
                      else M.LX([M.tnum(5), M.top("-"), M.tnum(3)], True))
        elif form == "neg":
            t = M.Arr(e, M.LX([M.tnum(2), M.top("-"), M.tnum(rng.choice([2, 3, 9]))], True))
        elif form == "z":
            t = M.Arr(e, M.LZ)
        elif form == "zn":
            t = M.Arr(M.Arr(e, M.LZ), M.LN(rng.choice([1, 2])))
        elif form == "e":
            t, last = M.Arr(e, M.LE), True
        elif form == "en":
            t, last = M.Arr(M.Arr(e, M.LN(rng.choice([1, 2, 3]))), M.LE), True
        elif form == "nn":
            t = M.Arr(M.Arr(e, M.LN(rng.choice([1, 2, 3]))), nn())
        elif form == "xn":
            t = M.Arr(M.Arr(e, x()), M.LN(rng.choice([1, 2])))
        else:
            t = M.Arr(M.Arr(e, M.LN(rng.choice([1, 2]))), x())
        fs.append(M.Fld(f"a{i}", t))
        if last:
            break
        if rng.random() < 0.4:
            nm = f"n{i}"
            fs.append(M.Fld(nm, M.Int("uint8")))
            names.append(nm)
    if names and not any(f["n"] == "n" for f in fs):
        names = []
    T = M.St("T", fs, align)
    # constants that are only named by constant expressions
    R = M.Render(rng)
    return {"T": T, "E": C.env(rng.choice("lb"), "uint16", consts), "text": R.text(T, consts), "ptr": "uint16", "align": align,
            "compiled": rng.random() < 0.5, "fam": "arrays"}


def finish(rng, s, n):
    s["ops"] = []
    for _ in range(n):
        e = rng.choice("lb")
        d = bytearray(C.data_for(rng, s["T"], M.min_size(s["T"]) * 2 + rng.choice([10, 40, 90])))
        if rng.random() < 0.7 and len(d) > 2:
            d[0] = rng.choice([0, 1, 2, 3, 4, 255, 5])
            d[1] = rng.choice([0, d[1]])
        s["ops"].append(["p", e, bytes(d).hex()])
        s["ops"].append(["d", e, C.gen_value(rng, s["T"], s["E"], short=rng.choice([0, 0, 0.5]))])
    return s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for _ in range(900 if q else 12000):
        yield finish(rng, arrays(rng), 2)
    for s in codec.rand_scens(rng, 150 if q else 2000, "rand", arr=14, bits=1, eof=0.4):
        yield finish(rng, s, 2)
    # array types obtained from the API: cs.type[n], cs.type[None], cs.type["EOF"]-like lengths
    for _ in range(60 if q else 800):
        e = element(rng, rng.choice(["int", "odd", "flt", "chr", "wch", "enm", "leb"]), False, 0)
        if e["k"] == "enm":
            text = M.Render().enum(e)
        else:
            text = ""
        l = rng.choice([M.LN(rng.choice([0, 1, 2, 4])), M.LZ if e["k"] != "flt" else M.LN(2)])
        D = M.Arr(e, l)
        s = {"T": D, "E": C.env(rng.choice("lb"), "uint16"), "text": text, "ptr": "uint16", "align": False, "compiled": True,
             "fam": "api", "name": e.get("nm") or e["sp"]}
        yield finish(rng, s, 2)


def execute(s):
    D = s["T"]
    cs = drive.make_cs(s["text"], s["E"]["e"], s["ptr"], s["compiled"], s["align"])
    if s["fam"] == "api":
        T = cs.resolve(s["name"])[None if D["l"]["k"] == "z" else D["l"]["n"]]
    else:
        T = cs.resolve(D["nm"])
    ev = []
    for op, e, x in s["ops"]:
        cs.endian = drive.ENDIAN[e]
        if op == "p":
            d = bytes.fromhex(x)
            r, _ = drive.run_parse(T, D, d)
            ev.append({"op": "parse", "d": list(d), "at": 0, "e": e, "r": r})
        else:
            ev.append(C.dump_event(T, D, x, e))
    return C.trace(s, [x for x in ev if x])
