"""C01 value round-trip."""
import drive
import model as M

from . import codec, common as C

REQUIRED_CLAUSES = ["roundtrip.value", "roundtrip.consumed", "roundtrip.reject", "roundtrip.equal"]
ASSUMPTIONS = ["lone surrogates are not text the wchar types accept",
               "values of unions are those reachable by construction with one member",
               "dynamic (variable-length) unions have no dump operation (documented NotImplementedError)"]

SCALARS = list(M.INTS) + list(M.FLOATS) + ["char", "wchar", "uleb128", "ileb128"]


def prepare(tier, seed, scratch):
    return {"mc": codec.prepare_mc("MCDefs_gen2.cfg" if tier == "quick" else "MCDefs_gen3.cfg", scratch)}


def models(tier):
    return [{"module": "MCDefs.tla", "cfg": "MCDefs_roundtrip.cfg"}]


def vals(rng, s, n, oor):
    out = []
    for i in range(n):
        bad = rng.random() < oor
        out.append({"v": C.gen_value(rng, s["T"], s["E"], oor=0.35 if bad else 0, short=0.2 if bad else 0),
                    "e": rng.choice("lb"), "bad": bad})
    s["vals"] = out
    return s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for s in codec.mc_scens(rng, files["mc"], shard, nshards, 1 if q else 3):
        if s["valid"]:
            yield vals(rng, s, 1, 0.25)
    n = 500 if q else 5000
    for s in codec.rand_scens(rng, n, "rand", topunion=0.12, eof=0.15):
        yield vals(rng, s, 2, 0.25)
    for s in codec.rand_scens(rng, n // 2, "bits", bits=14, arr=2, st=1, maxf=7, topunion=0.1):
        yield vals(rng, s, 3, 0.4)
    # every scalar type at its boundaries, as a value of its own
    for i, name in enumerate(SCALARS):
        if i % nshards == shard:
            for _ in range(6 if q else 60):
                D = scalar(name)
                s = {"fam": "scalar", "T": D, "E": C.env(rng.choice("lb"), "uint32"), "text": "", "ptr": "uint32", "align": False,
                     "compiled": True, "name": name}
                yield vals(rng, s, 8, 0.5)


def scalar(name):
    if name in M.INTS:
        return M.Int(name)
    if name in M.FLOATS:
        return M.Flt(name)
    if name == "char":
        return M.Chr()
    if name == "wchar":
        return M.Wch()
    return M.Leb(name == "ileb128")


def has_union(D):
    return M.has(D, lambda d: d["k"] == "un")


def execute(s):
    D = s["T"]
    cs = drive.make_cs(s["text"], s["E"]["e"], s["ptr"], s["compiled"], s["align"])
    T = cs.resolve(s.get("name") or D["nm"])
    ev = []
    for x in s["vals"]:
        cs.endian = drive.ENDIAN[x["e"]]
        no = {"ok": False, "x": "", "b": []}
        nor = {"ok": False, "x": "", "v": {"k": "v", "v": 0}, "p": 0}
        intended = None if has_union(D) else C.enc_tree(D, x["v"])
        try:
            obj = drive.build(T, D, x["v"])
        except drive.Hang:
            raise
        except Exception as e:
            if has_union(D):      # rejected while constructing: only fine for a value out of the domain
                if not x["bad"]:
                    ev.append({"op": "round", "e": x["e"], "v": {"k": "?", "v": 0}, "w": no, "r": nor, "eq": False, "built": False})
                continue
            ev.append({"op": "round", "e": x["e"], "v": intended, "w": no, "r": nor, "eq": False, "built": False})
            continue
        v = intended if intended is not None else drive.enc(D, obj)
        w = drive.run_dump(T, obj)
        r, eq = nor, False
        if w["ok"]:
            r, back = drive.run_parse(T, D, bytes(w["b"]))
            if r["ok"]:
                try:
                    eq = bool(back == obj) and not bool(back != obj)
                except Exception:
                    eq = False
        ev.append({"op": "round", "e": x["e"], "v": v, "w": w, "r": r, "eq": eq, "built": True})
    return C.trace(s, ev)
