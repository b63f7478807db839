"""C08 truncated or failing input never fabricates data."""
import io

import drive
import model as M
import streams

from . import codec, common as C

REQUIRED_CLAUSES = ["cut.refuses", "cut.eoferror", "cut.no-fabrication", "cut.fault-propagates", "cut.no-residue"]
ASSUMPTIONS = ["a read that delivers fewer bytes than requested may be retried or refused; only a wrong value is a violation",
               "to-end-of-stream arrays are judged against the specification's reading of the shortened input"]


def models(tier):
    return [{"module": "MCDefs.tla", "cfg": "MCDefs_cut.cfg"}]


def prepare(tier, seed, scratch):
    return {"defs": codec.prepare_mc("MCDefs_gen2.cfg" if tier == "quick" else "MCDefs_gen3.cfg", scratch)}


KINDS = ["bytesio", "bytes", "reads", "memoryview", "plain", "csread"]


def finish(rng, s, ncuts):
    T = s["T"]
    ms = M.min_size(T)
    n = rng.choice([ms, ms + 8, ms * 2 + 24])
    d = bytearray(C.data_for(rng, T, n))
    cuts = []
    full = list(range(0, n))
    rng.shuffle(full)
    for c in sorted(full[:ncuts]):
        cuts.append(["trunc", c, rng.choice(KINDS)])
    for _ in range(max(2, ncuts // 3)):
        cuts.append(["short", rng.randrange(0, 8), rng.choice([1, 1, 2, 3, 7])])
        cuts.append(["raise", rng.randrange(0, 8), rng.choice(["read", "read", "read", "seek", "any"]), rng.choice([0, 1, 2])])
    rng.shuffle(cuts)
    s["ops"] = [[rng.choice("lb"), bytes(d).hex(), cuts]]
    return s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for s in codec.mc_scens(rng, files["defs"], shard, nshards, stride=2 if q else 7):
        if s["valid"]:
            yield finish(rng, s, 6 if q else 14)
    for s in codec.rand_scens(rng, 300 if q else 2500, "rand", eof=0.25):
        yield finish(rng, s, 8 if q else 24)
    for s in codec.rand_scens(rng, 100 if q else 1200, "unions", un=6, topunion=0.5, st=3, arr=2):
        yield finish(rng, s, 8 if q else 24)
    for s in codec.rand_scens(rng, 100 if q else 1200, "bits", bits=8):
        yield finish(rng, s, 8 if q else 24)


def cut_call(cs, T, name, data, kind):
    if kind == "bytesio":
        return T(io.BytesIO(data))
    if kind == "bytes":
        return T(bytes(data))
    if kind == "reads":
        return T.reads(data)
    if kind == "memoryview":
        return T.read(memoryview(data))
    if kind == "plain":
        return T.read(streams.Plain(data))
    return cs.read(name, data)


EXC = [streams.Fault, ValueError, RuntimeError]


def execute(s):
    D = s["T"]
    cs, T = C.mk(s)
    ev = []
    for e, x, cuts in s["ops"]:
        cs.endian = drive.ENDIAN[e]
        d = bytes.fromhex(x)
        before, _ = drive.run_parse(T, D, d)
        ev.append({"op": "parse", "d": list(d), "at": 0, "e": e, "r": before})
        if not before["ok"]:
            continue
        out = []
        for c in cuts:
            hit = True
            if c[0] == "trunc":
                r = attempt(D, lambda: cut_call(cs, T, D["nm"], d[:c[1]], c[2]))
            else:
                fh = streams.Short(d, c[1], c[2]) if c[0] == "short" else streams.Raising(d, c[1], c[2], EXC[c[3]])
                r = attempt(D, lambda: T.read(fh))
                hit = fh.hit
            after, _ = drive.run_parse(T, D, d)
            out.append({"mode": c[0], "n": c[1], "hit": hit, "r": r, "after": after})
        ev.append({"op": "cut", "d": list(d), "e": e, "cs": out})
    return C.trace(s, ev)


def attempt(D, fn):
    try:
        return {"ok": True, "x": "", "v": drive.enc(D, fn()), "p": 0}
    except drive.Hang:
        raise
    except Exception as ex:
        return {"ok": False, "x": drive.exc_name(ex), "v": {"k": "v", "v": 0}, "p": 0}
