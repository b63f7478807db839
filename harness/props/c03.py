"""C03 compiled reader = interpreted reader."""
import drive
import model as M

from . import codec, common as C

REQUIRED_CLAUSES = ["compiled.value", "compiled.consumed", "compiled.sizes", "compiled.short-input", "compiled.load"]
ASSUMPTIONS = []


def prepare(tier, seed, scratch):
    return {"mc": codec.prepare_mc("MCDefs_gen2.cfg" if tier == "quick" else "MCDefs_gen3.cfg", scratch)}


def models(tier):
    return []


def data(rng, s, n, short=0.3):
    out = []
    for _ in range(n):
        ln = M.min_size(s["T"]) + rng.randint(20, 60)
        if rng.random() < short:
            ln = rng.randint(0, max(1, ln - 20))
        out.append([C.data_for(rng, s["T"], ln).hex(), rng.choice("lb"), rng.choice([0, 0, 0, 16, 32])])
    s["data"] = out
    return s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for s in codec.mc_scens(rng, files["mc"], shard, nshards, 1 if q else 3):
        yield data(rng, s, 2)
    n = 400 if q else 5000
    for s in codec.rand_scens(rng, n, "rand", topunion=0.05, eof=0.2):
        yield data(rng, s, 3)
    for s in codec.rand_scens(rng, n // 2, "bits", bits=10, arr=3, st=2, maxf=8):
        yield data(rng, s, 3)
    for s in codec.rand_scens(rng, n // 2, "aligned", align=True, arr=7, bits=3, st=4, maxf=8):
        yield data(rng, s, 3)
    for s in codec.rand_scens(rng, n // 4, "ptrs", ptr=8, arr=8, ptrs=["uint8", "uint16", "uint24", "uint32", "uint48", "uint64"]):
        yield data(rng, s, 2)


def execute(s):
    D = s["T"]
    out = {}
    for key, comp in (("i", False), ("c", True)):
        try:
            cs, T = C.mk(s, compiled=comp)
            out[key] = (cs, T, {"ok": True, "lay": drive.layout(cs, T, D)})
        except drive.Hang:
            raise
        except Exception as e:
            out[key] = (None, None, {"ok": False, "x": drive.exc_name(e), "lay": {}})
    ev = [{"op": "layeq", "i": out["i"][2], "c": out["c"][2]}]
    if out["i"][1] is not None and out["c"][1] is not None:
        for hx, e, at in s["data"]:
            d = bytes(range(1, at + 1)) + bytes.fromhex(hx)
            rs = {}
            for key in "ic":
                cs, T, _ = out[key]
                cs.endian = drive.ENDIAN[e]
                rs[key], _ = drive.run_parse(T, D, d, at, sizes=True)
            ev.append({"op": "readeq", "d": list(d), "at": at, "e": e, "i": rs["i"], "c": rs["c"]})
    return C.trace(s, ev)
