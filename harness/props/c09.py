"""C09 stream discipline: position independence, consistent input kinds and call forms."""
import io
import os
import tempfile

import drive
import model as M
import streams

from . import codec, common as C

REQUIRED_CLAUSES = ["stream.value", "stream.position", "stream.extent", "stream.accepts", "parse.position"]
ASSUMPTIONS = ["aligned structures are placed at multiples of 16, the largest alignment"]


def models(tier):
    return [{"module": "MCDefs.tla", "cfg": "MCDefs_pos.cfg"}]


def prepare(tier, seed, scratch):
    return {"defs": codec.prepare_mc("MCDefs_gen2.cfg" if tier == "quick" else "MCDefs_gen3.cfg", scratch)}


FORMS = ["T:bytesio", "T:bytes", "T:bytearray", "T:memoryview", "read:bytesio", "read:bytes", "read:memoryview", "reads:bytes",
         "reads:bytearray", "reads:memoryview", "cs:bytesio", "cs:bytes", "cs:plain", "T:plain", "read:plain", "T:file", "T:buffered"]


def finish(rng, s, n, aligned=False):
    T = s["T"]
    ms = M.min_size(T)
    # the stream aligned structures live in is aligned
    step = 16 if s["align"] else 1
    s["ops"] = []
    d = C.data_for(rng, T, rng.choice([ms, ms + 5, ms * 2 + 40]))
    forms = list(FORMS)
    rng.shuffle(forms)
    for f in forms[:n]:
        p = step * rng.choice([0, 1, 1, 2, 3, 7])
        pre = bytes(rng.randrange(256) for _ in range(p))
        suf = bytes(rng.choice([0, 255, 1, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 16, 40])))
        s["ops"].append([f, rng.choice("lb"), d.hex(), pre.hex(), suf.hex()])
    s["seq"] = [rng.choice("lb"), (C.data_for(rng, T, ms * 3 + 64)).hex(), step]
    return s


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for s in codec.mc_scens(rng, files["defs"], shard, nshards, stride=2 if q else 7):
        if s["valid"]:
            yield finish(rng, s, 4 if q else 8)
    for s in codec.rand_scens(rng, 240 if q else 3500, "rand", eof=0.15):
        yield finish(rng, s, 5 if q else 10)
    for s in codec.rand_scens(rng, 80 if q else 1200, "unions", un=6, topunion=0.5, st=3, arr=2):
        yield finish(rng, s, 5 if q else 10)
    for s in codec.rand_scens(rng, 80 if q else 1200, "bits", bits=8):
        yield finish(rng, s, 5 if q else 10)
    for _ in range(60 if q else 900):       # types that are no structures
        D, text, nm = api_type(rng)
        s = {"T": D, "E": C.env("l", "uint16"), "text": text, "ptr": "uint16", "align": False, "compiled": True, "fam": "api", "name": nm}
        yield finish(rng, s, 6 if q else 12)


def api_type(rng):
    k = rng.choice(["int", "int", "flt", "chr", "wch", "leb", "enm", "arr", "arr", "carr", "warr"])
    text = ""
    enm = M.Enm("En", M.Int(rng.choice(["uint8", "int16", "uint32"])), [("A", None), ("B", None)], rng.random() < 0.4)
    base = {"int": lambda: M.Int(rng.choice(["uint8", "int16", "uint24", "int48", "uint64", "int128"])),
            "flt": lambda: M.Flt(rng.choice(list(M.FLOATS))), "chr": M.Chr, "wch": M.Wch,
            "leb": lambda: M.Leb(rng.random() < 0.5), "enm": lambda: enm}
    if k in base:
        D = e = base[k]()
    else:
        e = {"arr": lambda: base[rng.choice(["int", "flt", "leb", "enm"])](), "carr": M.Chr, "warr": M.Wch}[k]()
        l = rng.choice([M.LN(rng.choice([1, 2, 4])), M.LZ])
        if e["k"] in ("flt",):
            l = M.LN(2)
        D = M.Arr(e, l)
    if e["k"] == "enm":
        text = M.Render().enum(e)
    return D, text, e.get("nm") or e["sp"]


def call(cs, T, name, form, data, pos):
    how, kind = form.split(":")
    fh = x = None
    close = []
    if kind == "bytesio":
        fh = x = io.BytesIO(data)
    elif kind == "plain":
        fh = x = streams.Plain(data)
    elif kind in ("file", "buffered"):
        f = tempfile.TemporaryFile()
        f.write(data)
        f.flush()
        close.append(f)
        fh = x = f if kind == "buffered" else f.raw
    if fh is not None:
        fh.seek(pos)
    else:
        x = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[kind](data)
    try:
        if how == "T":
            obj = T(x)
        elif how == "read":
            obj = T.read(x)
        elif how == "reads":
            obj = T.reads(x)
        else:
            obj = cs.read(name, x)
        return obj, (fh.tell() if fh is not None else -1)
    finally:
        for f in close:
            f.close()


def execute(s):
    D = s["T"]
    cs, T = C.mk(s) if s["fam"] != "api" else (None, None)
    if s["fam"] == "api":
        cs = drive.make_cs(s["text"], "l", s["ptr"], True, False)
        T = cs.resolve(s["name"])
        if D["k"] == "arr":
            T = T[None if D["l"]["k"] == "z" else D["l"]["n"]]
        name = s["name"]
    else:
        name = D["nm"]
    eof = M.has(D, lambda d: d["k"] == "arr" and d["l"]["k"] == "e")
    ev = []
    for form, e, x, pre, suf in s["ops"]:
        if form.startswith("cs:") and s["fam"] == "api" and D["k"] == "arr":
            form = form.replace("cs:", "T:")
        cs.endian = drive.ENDIAN[e]
        d = bytes.fromhex(x)
        kind = form.split(":")[1]
        stream = kind in ("bytesio", "plain", "file", "buffered")
        base, _ = drive.run_parse(T, D, d, sizes=True)
        pre_ = bytes.fromhex(pre) if stream else b""
        tail = base["ok"] and not eof
        data = pre_ + (d[:base["p"]] + bytes.fromhex(suf) if tail and base["p"] <= len(d) else d)
        if tail and base["p"] > len(d):
            data = pre_ + d
        try:
            obj, p = call(cs, T, name, form, data, len(pre_))
            alt = {"ok": True, "x": "", "v": drive.enc(D, obj), "p": p, "sz": drive.sizes_of(T, obj) if D["k"] in ("st", "un") else []}
        except drive.Hang:
            raise
        except Exception as ex:
            alt = {"ok": False, "x": drive.exc_name(ex), "v": {"k": "v", "v": 0}, "p": 0, "sz": []}
        ev.append({"op": "pos", "d": list(d), "at": len(pre_), "e": e, "base": base, "alt": alt, "haspos": stream, "form": form})
    # records back to back on one stream
    e, x, step = s["seq"]
    cs.endian = drive.ENDIAN[e]
    d = bytes.fromhex(x)
    fh = io.BytesIO(d)
    for _ in range(4):
        at = fh.tell()
        if at % step or at >= len(d):
            break
        try:
            obj = T(fh) if D["k"] not in ("chr",) else T.read(fh)
            r = {"ok": True, "x": "", "v": drive.enc(D, obj), "p": fh.tell()}
        except drive.Hang:
            raise
        except Exception as ex:
            r = {"ok": False, "x": drive.exc_name(ex), "v": {"k": "v", "v": 0}, "p": 0}
        ev.append({"op": "parse", "d": list(d), "at": at, "e": e, "r": r})
        if not r["ok"] or fh.tell() <= at:
            break
    return C.trace(s, ev)
