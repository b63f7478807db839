"""C04 layout follows C rules, one size everywhere."""
import drive
import model as M

from . import codec, common as C

REQUIRED_CLAUSES = ["layout.size", "layout.offsets", "size.consumed", "size.dumped"]
ASSUMPTIONS = ["packed and aligned structures are not mixed in one definition",
               "natural alignment of int24/int48/int128 as declared by the library: 4/8/16"]


def prepare(tier, seed, scratch):
    return {"mc": codec.prepare_mc("MCDefs_gen2.cfg" if tier == "quick" else "MCDefs_gen3.cfg", scratch)}


def models(tier):
    return [{"module": "MCDefs.tla", "cfg": "MCDefs_layout.cfg"}]


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for s in codec.mc_scens(rng, files["mc"], shard, nshards, 1 if q else 2):
        if s["valid"]:
            yield finish(rng, s, 1)
    n = 350 if q else 4000
    for s in codec.rand_scens(rng, n // 2, "static", dyn=False, eof=0, depth=3, maxf=8, topunion=0.15, explicit=0):
        yield finish(rng, s, 2)
    for s in codec.rand_scens(rng, n // 3, "aligned-mixed", dyn=False, eof=0, align=True, bits=2, depth=4, maxf=6, st=6, un=3):
        yield finish(rng, s, 2)
    for s in codec.rand_scens(rng, n // 6, "dynamic", eof=0.1):
        yield finish(rng, s, 1)


def finish(rng, s, n):
    s["data"] = [[C.data_for(rng, s["T"], M.min_size(s["T"]) * 2 + 220).hex(), rng.choice("lb")] for _ in range(n)]
    return s


def execute(s):
    ev = []
    try:
        cs, T = C.mk(s)
    except drive.Hang:
        raise
    except Exception:
        return C.trace(s, [{"op": "load", "ok": False}])
    ev.append(dict(drive.layout(cs, T, s["T"]), op="lay"))
    for hx, e in s["data"]:
        data = bytes.fromhex(hx)
        cs.endian = drive.ENDIAN[e]
        r, obj = drive.run_parse(T, s["T"], data)
        w = drive.run_dump(T, obj) if r["ok"] else {"ok": False, "x": "", "b": []}
        ev.append({"op": "size", "d": list(data), "at": 0, "e": e, "r": r, "w": w})
    return C.trace(s, ev)
