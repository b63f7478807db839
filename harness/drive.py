"""Drives the real dissect.cstruct (from /repo) and records observations in the spec's JSON form."""
from __future__ import annotations

import enum
import io
import math
import os
import signal
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Hang(Exception):
    pass


class Rejected(Exception):
    """the library refused to load a definition"""


def _alarm(signum, frame):
    raise Hang("scenario exceeded its time limit")


def with_timeout(seconds, fn, *args):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def lib():
    import dissect.cstruct as m

    return m


# --- value encoding --------------------------------------------------------------------------------

def enc_int(v):
    v = int(v)
    fill = 0 if v >= 0 else 255
    out = []
    n = v
    while n not in (0, -1):
        out.append(n & 255)
        n >>= 8
    if n != (0 if fill == 0 else -1):  # pragma: no cover
        raise AssertionError
    while out and out[-1] == fill:
        out.pop()
    return [fill, *out]


def dec_int(t):
    n = 0 if t[0] == 0 else -1
    for b in reversed(t[1:]):
        n = (n << 8) | b
    return n


def enc_float(x):
    x = float(x)
    if math.isnan(x):
        return {"c": "n", "s": 0, "m": [], "e": 0}
    s = 1 if math.copysign(1.0, x) < 0 else 0
    if math.isinf(x):
        return {"c": "i", "s": s, "m": [], "e": 0}
    if x == 0:
        return {"c": "z", "s": s, "m": [], "e": 0}
    n, d = abs(x).as_integer_ratio()
    e = -(d.bit_length() - 1)
    while n % 2 == 0:
        n //= 2
        e += 1
    m = [(n >> i) & 1 for i in range(n.bit_length())]
    return {"c": "f", "s": s, "m": m, "e": e}


def bad(v):
    return {"k": "?", "v": [0], "why": f"{type(v).__name__}"}


def enc(D, v, bits=0):
    """encode a real value under descriptor D"""
    m = lib()
    k = D["k"]
    if k == "enm" :
        if isinstance(v, int):
            return {"k": "e", "v": enc_int(v.value if isinstance(v, enum.Enum) else v)}
        return bad(v)
    if bits:
        return {"k": "i", "v": enc_int(v)} if isinstance(v, int) else bad(v)
    if k in ("int", "leb"):
        return {"k": "i", "v": enc_int(v)} if isinstance(v, int) and not isinstance(v, enum.Enum) else bad(v)
    if k == "ptr":
        return {"k": "p", "v": enc_int(v)} if isinstance(v, int) else bad(v)
    if k == "flt":
        return {"k": "f", "v": enc_float(v)} if isinstance(v, (float, int)) else bad(v)
    if k == "chr":
        return {"k": "c", "v": list(v)} if isinstance(v, bytes) else bad(v)
    if k == "wch":
        return {"k": "w", "v": units(v)} if isinstance(v, str) else bad(v)
    if k == "vd":
        return {"k": "v", "v": 0} if isinstance(v, m.Void) else bad(v)
    if k == "arr":
        ek = D["e"]["k"]
        if ek == "chr":
            return {"k": "c", "v": list(v)} if isinstance(v, bytes) else bad(v)
        if ek == "wch":
            return {"k": "w", "v": units(v)} if isinstance(v, str) else bad(v)
        if not isinstance(v, list):
            return bad(v)
        return {"k": "l", "v": [enc(D["e"], x) for x in v]}
    if k in ("st", "un"):
        return enc_fields(D, v)
    raise AssertionError(k)


def enc_fields(D, obj):
    out = []
    for f in D["f"]:
        if f["n"]:
            out.append(enc(f["t"], getattr(obj, f["n"]), f["b"]))
        else:
            out.append(enc_fields(f["t"], obj))  # folded anonymous members are read through the parent
    return {"k": "s" if D["k"] == "st" else "u", "v": out}


def units(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def from_units(us):
    return b"".join(bytes((u & 255, u >> 8)) for u in us).decode("utf-16-le", "surrogatepass")


def exc_name(e):
    m = lib()
    if isinstance(e, Hang):
        return "hang"
    if isinstance(e, EOFError):
        return "eof"
    if isinstance(e, RecursionError):
        return "recursion"
    return type(e).__name__


# --- building -----------------------------------------------------------------------------------------

ENDIAN = {"l": "<", "b": ">"}


def make_cs(text, e="l", ptr=None, compiled=True, align=False):
    m = lib()
    cs = m.cstruct(endian=ENDIAN[e], pointer=ptr)
    try:
        cs.load(text, compiled=compiled, align=align)
    except Hang:
        raise
    except Exception as e:
        raise Rejected(f"{type(e).__name__}: {e}") from e
    return cs


def find_type(cs, name):
    return cs.resolve(name)


def build(T, D, v):
    """build a real value from a plain python value tree (see gen_value)"""
    k = D["k"]
    if k == "enm":
        return T(v)
    if k == "arr":
        if D["e"]["k"] in ("chr", "wch"):
            return v
        return [build(T.type, D["e"], x) for x in v]
    if k == "ptr":
        return v
    if k == "st":
        raw = list(T.lookup)
        return T(**{raw[i]: build(T.lookup[raw[i]].type, f["t"], v[i]) for i, f in enumerate(D["f"])})
    if k == "un":
        raw = list(T.lookup)
        i, x = v
        return T(**{raw[i]: build(T.lookup[raw[i]].type, D["f"][i]["t"], x)})
    if k == "vd":
        return T()
    return v


def layout(cs, T, D, E=None):
    m = lib()
    from dissect.cstruct.expression import Expression

    size = T.size if T.size is not None else -1
    try:
        ln = len(T)
    except TypeError:
        ln = -1
    try:
        so = Expression(cs, f"sizeof({D['nm']})").evaluate() if D.get("nm") else size
    except Exception:
        so = -1
    offs = []
    raw = list(T.lookup.values())
    for f in raw:
        offs.append(-1 if f.offset is None else f.offset)
    return {"size": size, "len": ln, "szof": so, "al": T.alignment or 0, "dyn": bool(T.dynamic), "offs": offs}


def sizes_of(T, obj):
    s = getattr(obj, "_sizes", None)
    if s is None:
        return []
    return [s.get(name, -1) for name in T.lookup]


def run_parse(T, D, data, pos=0, call=None, sizes=False):
    """parse at pos in a BytesIO; returns (result record, object or None)"""
    fh = io.BytesIO(data)
    fh.seek(pos)
    try:
        obj = (call or T.read)(fh)
        r = {"ok": True, "x": "", "v": enc(D, obj), "p": fh.tell()}
        if sizes:
            r["sz"] = sizes_of(T, obj)
        return r, obj
    except Hang:
        raise
    except Exception as e:
        return {"ok": False, "x": exc_name(e), "v": {"k": "v", "v": 0}, "p": 0, "sz": []}, None


def run_dump(T, obj):
    try:
        b = T.dumps(obj)
        return {"ok": True, "x": "", "b": list(b)}
    except Hang:
        raise
    except Exception as e:
        return {"ok": False, "x": exc_name(e), "b": []}
