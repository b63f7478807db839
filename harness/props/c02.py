"""C02 byte fidelity: parse then dump."""
import drive
import model as M

from . import codec, common as C

REQUIRED_CLAUSES = ["fidelity.length", "fidelity.bytes", "fidelity.padding-zero"]
ASSUMPTIONS = ["non-minimal LEB128 input is outside the encoding (C05: canonical minimal encoding)",
               "dynamic unions have no dump operation (documented NotImplementedError)"]


def prepare(tier, seed, scratch):
    return {"mc": codec.prepare_mc("MCDefs_gen2.cfg" if tier == "quick" else "MCDefs_gen3.cfg", scratch)}


def models(tier):
    return [{"module": "MCDefs.tla", "cfg": "MCDefs_roundtrip.cfg"}]


def data(rng, s, n, extra=48):
    s["data"] = [[C.data_for(rng, s["T"], M.min_size(s["T"]) + rng.randint(extra // 2, extra)).hex(), rng.choice("lb"), rng.choice([0, 0, 16])]
                 for _ in range(n)]
    return s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for s in codec.mc_scens(rng, files["mc"], shard, nshards, 1 if q else 3):
        if s["valid"]:
            yield data(rng, s, 1)
    n = 500 if q else 5000
    for s in codec.rand_scens(rng, n, "rand", topunion=0.12, eof=0.2):
        yield data(rng, s, 2, 90)
    for s in codec.rand_scens(rng, n // 2, "bits", bits=14, arr=2, st=1, maxf=7):
        yield data(rng, s, 3, 60)
    for s in codec.rand_scens(rng, n // 4, "to-the-end", eof=1.0, depth=1, maxf=3):
        yield data(rng, s, 4, 20)
    for s in codec.rand_scens(rng, n // 4, "aligned-dyn", align=True, arr=8, leb=2, bits=4):
        yield data(rng, s, 2, 90)


def execute(s):
    D = s["T"]
    cs, T = C.mk(s)
    ev = []
    for hx, e, at in s["data"]:
        cs.endian = drive.ENDIAN[e]
        d = bytes(range(1, at + 1)) + bytes.fromhex(hx)
        r, obj = drive.run_parse(T, D, d, at)
        w = drive.run_dump(T, obj) if r["ok"] else {"ok": False, "x": "", "b": []}
        ev.append({"op": "fid", "d": list(d), "at": at, "e": e, "r": r, "w": w})
    return C.trace(s, ev)
