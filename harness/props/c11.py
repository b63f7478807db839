"""C11 unions are views of one byte buffer."""
from . import codec, mem

REQUIRED_CLAUSES = ["mem.views", "mem.bytes", "mem.consumed", "mem.reparse-equal", "layout.size"]
ASSUMPTIONS = ["unions without a fixed size have no assignment and dump (documented NotImplementedError)",
               "contents that are no value of a member (a lone surrogate in a wchar) and NaN contents are not judged",
               "bits that are padding inside the assigned member may be kept or cleared",
               "elements of plain arrays changed in place are not member assignments"]


def prepare(tier, seed, scratch):
    return {"mem": codec.prepare_mc("MCMem_gen.cfg" if tier == "quick" else "MCMem_gent.cfg", scratch, "mem", "MCMem.tla", tag="@MEM ")}


def models(tier):
    return [{"module": "MCMem.tla", "cfg": "MCMem_q.cfg" if tier == "quick" else "MCMem_t.cfg"}]


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    yield from mem.mc_scens(rng, files["mem"], shard, nshards, 1 if q else 2)
    n = 170 if q else 4000
    yield from mem.rand_scens(rng, n, "union", True, depth=2)
    yield from mem.rand_scens(rng, n // 2, "union-in", "in", depth=3, un=6, st=4)
    yield from mem.rand_scens(rng, n // 4, "union-bits", True, bits=16, depth=2)
    yield from mem.rand_scens(rng, n // 4, "union-arr", True, arr=14, st=6, depth=2)


def execute(s):
    import drive
    from . import common as C
    tr = mem.execute(s)
    cs, T = C.mk(s)
    tr["ev"].insert(0, dict(drive.layout(cs, T, s["T"]), op="lay"))
    return tr
