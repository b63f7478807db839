"""Abstract type descriptors (the JSON form the TLA+ spec works on), random generation and C rendering.

Nothing in here is an oracle: it only produces scenarios.
"""
from __future__ import annotations

import random
import re

# canonical integer types: name -> (size, signed, alignment)  (C rules; restated from the documentation)
INTS = {
    "int8": (1, True, 1), "uint8": (1, False, 1),
    "int16": (2, True, 2), "uint16": (2, False, 2),
    "int32": (4, True, 4), "uint32": (4, False, 4),
    "int64": (8, True, 8), "uint64": (8, False, 8),
    "int24": (3, True, 4), "uint24": (3, False, 4),
    "int48": (6, True, 8), "uint48": (6, False, 8),
    "int128": (16, True, 16), "uint128": (16, False, 16),
}
FLOATS = {"float16": 2, "float": 4, "double": 8}

# spelled synonyms -> canonical (documented table)
SYN = {
    "int8": ["signed char", "INT8", "__int8", "int8_t"],
    "uint8": ["BYTE", "UCHAR", "UINT8", "unsigned __int8", "uint8_t", "_BYTE", "u1", "__u8", "uchar"],
    "int16": ["short", "signed short", "SHORT", "INT16", "__int16", "int16_t"],
    "uint16": ["unsigned short", "WORD", "USHORT", "UINT16", "unsigned __int16", "uint16_t", "_WORD", "u2", "__u16", "ushort"],
    "int32": ["int", "signed int", "long", "signed long", "LONG", "LONG32", "INT", "INT32", "__int32", "int32_t"],
    "uint32": ["unsigned int", "unsigned long", "DWORD", "ULONG", "UINT", "UINT32", "unsigned __int32", "uint32_t",
               "_DWORD", "u4", "__u32", "uint", "ulong"],
    "int64": ["long long", "signed long long", "LONG64", "LONGLONG", "INT64", "__int64", "int64_t"],
    "uint64": ["unsigned long long", "QWORD", "ULONG64", "ULONGLONG", "UINT64", "unsigned __int64", "uint64_t",
               "_QWORD", "u8", "__u64"],
    "int128": ["INT128", "__int128", "int128_t"],
    "uint128": ["OWORD", "UINT128", "unsigned __int128", "uint128_t", "_OWORD", "u16"],
    "char": ["unsigned char", "CHAR"],
    "wchar": ["WCHAR", "wchar_t"],
}


def Int(name, sp=None):
    s, sg, al = INTS[name]
    return {"k": "int", "n": name, "s": s, "sg": sg, "al": al, "sp": sp or name}


def Flt(name):
    return {"k": "flt", "s": FLOATS[name], "sp": name}


def Chr(sp="char"):
    return {"k": "chr", "sp": sp}


def Wch(sp="wchar"):
    return {"k": "wch", "sp": sp}


def Leb(sg):
    return {"k": "leb", "sg": sg, "sp": "ileb128" if sg else "uleb128"}


def Void():
    return {"k": "vd", "sp": "void"}


def Enm(name, base, members, flag=False):
    """members: list of (name, None | token list)"""
    return {"k": "enm", "nm": name, "b": base, "fl": flag, "mem": members, "sp": name}


def Ptr(t):
    return {"k": "ptr", "t": t}


def Arr(e, l):
    return {"k": "arr", "e": e, "l": l}


def LN(n):
    return {"k": "n", "n": n}


def LX(toks, const):
    return {"k": "x", "x": toks, "c": const}


LZ = {"k": "z"}
LE = {"k": "e"}


def Fld(n, t, b=0, o=-1):
    return {"n": n, "t": t, "b": b, "o": o}


def St(name, fields, align, inline=False, kind="st"):
    return {"k": kind, "nm": name or "", "a": align, "f": fields, "il": inline}


def Un(name, fields, align, inline=False):
    return St(name, fields, align, inline, "un")


# --- tokens ------------------------------------------------------------------------------------

def tnum(v, base=10):
    ds = []
    n = v
    while True:
        ds.insert(0, n % base)
        n //= base
        if not n:
            break
    return {"t": "n", "b": base, "d": ds}


def tid(n):
    return {"t": "i", "n": n}


def top(n):
    return {"t": "o", "n": n}


def tsz(name, size):
    return {"t": "z", "n": name, "s": size}


DIG = "0123456789abcdef"


def tok_text(t, rng=None):
    if t["t"] == "n":
        ds = "".join(DIG[d] for d in t["d"])
        if rng and rng.random() < 0.3:
            ds = ds.upper()
        s = {10: "", 16: "0x", 8: "0", 2: "0b"}[t["b"]] + ds
        if rng and t["b"] in (2, 16) and rng.random() < 0.3:
            s = s[0] + s[1].upper() + s[2:]
        return s + t.get("x", "")
    if t["t"] == "i":
        return t["n"]
    if t["t"] == "z":
        return f"sizeof({t['n']})"
    return t["n"]


def toks_text(ts, rng=None, tight=False):
    out = []
    prev = None
    for t in ts:
        s = tok_text(t, rng)
        sep = "" if (tight or not rng or rng.random() < 0.5) else " " * rng.choice([1, 1, 2])
        if prev is not None and not sep and re.match(r"\w", s) and re.search(r"\w$", prev):
            sep = " "
        out.append(sep if prev is not None else "")
        out.append(s)
        prev = s
    return "".join(out)


def toks_src(ts, env):
    """python source of an expression (for the generator, never an oracle)"""
    parts = []
    for t in ts:
        if t["t"] == "n":
            v = 0
            for d in t["d"]:
                v = v * t["b"] + d
            parts.append(str(v))
        elif t["t"] == "i":
            parts.append(str(int(env[t["n"]])))
        elif t["t"] == "z":
            parts.append(str(t["s"]))
        else:
            parts.append("//" if t["n"] == "/" else t["n"])
    return " ".join("(%s)" % p if p.lstrip("-").isdigit() else p for p in parts)


def toks_py(ts, env):
    """generator-side evaluation (never an oracle): used to pick consistent array lengths"""
    return eval(toks_src(ts, env), {"__builtins__": {}}, {})


# --- C rendering ----------------------------------------------------------------------------------

class Render:
    def __init__(self, rng=None):
        self.rng = rng
        self.emitted = set()
        self.out = []

    def base_text(self, D):
        k = D["k"]
        if k in ("st", "un"):
            kw = "struct" if k == "st" else "union"
            if D["nm"] and not D["il"]:
                if self.rng and self.rng.random() < 0.2:
                    return f"{kw} {D['nm']}"
                return D["nm"]
            return f"{kw} {D['nm'] + ' ' if D['nm'] else ''}{self.body(D)}"
        return D["sp"]

    def body(self, D):
        return "{\n" + "".join("    " + self.field(f) + "\n" for f in D["f"]) + "}"

    def declarator(self, D, name):
        dims = []
        while D["k"] == "arr":
            l = D["l"]
            dims.append("" if l["k"] == "z" else "EOF" if l["k"] == "e" else str(l["n"]) if l["k"] == "n"
                        else toks_text(l["x"], self.rng))
            D = D["e"]
        stars = ""
        while D["k"] == "ptr":
            stars += "*"
            D = D["t"]
        return D, stars + name + "".join(f"[{d}]" for d in dims)

    def field(self, f):
        base, decl = self.declarator(f["t"], f["n"])
        if not f["n"]:
            return self.base_text(base) + ";"
        bits = f" : {f['b']}" if f["b"] else ""
        return f"{self.base_text(base)} {decl}{bits};"

    def enum(self, D):
        kw = "flag" if D["fl"] else "enum"
        mem = []
        for n, ts in D["mem"]:
            mem.append(n if ts is None else f"{n} = {toks_text(ts, self.rng)}")
        sep = ",\n    " if not self.rng or self.rng.random() < 0.6 else ", "
        ty = "" if D["b"]["sp"] is None else f" : {D['b']['sp']}"
        return f"{kw} {D['nm']}{ty} {{\n    {sep.join(mem)}\n}};"

    def collect(self, D):
        """emit everything D refers to by name, depth first"""
        k = D["k"]
        if k == "arr":
            self.collect(D["e"])
        elif k == "ptr":
            self.collect(D["t"])
        elif k == "enm":
            if D["nm"] not in self.emitted:
                self.emitted.add(D["nm"])
                self.out.append(self.enum(D))
        elif k in ("st", "un"):
            for f in D["f"]:
                self.collect(f["t"])
            if D["nm"] and not D["il"] and D["nm"] not in self.emitted:
                self.emitted.add(D["nm"])
                kw = "struct" if k == "st" else "union"
                if self.rng and self.rng.random() < 0.3:
                    self.out.append(f"typedef {kw} {self.body(D)} {D['nm']};")
                else:
                    self.out.append(f"{kw} {D['nm']} {self.body(D)};")

    def text(self, D, consts=()):
        pre = [f"#define {n} {v}" for n, v in consts]
        self.collect(D)
        return "\n".join(pre + self.out) + "\n"


# --- helpers on descriptors (generation only) --------------------------------------------------------

def is_dynamic(D):
    k = D["k"]
    if k == "leb":
        return True
    if k == "arr":
        l = D["l"]
        if l["k"] in ("z", "e") or (l["k"] == "x" and not l["c"]):
            return True
        return is_dynamic(D["e"])
    if k in ("st", "un"):
        return any(is_dynamic(f["t"]) for f in D["f"])
    return False


def has(D, pred):
    if pred(D):
        return True
    k = D["k"]
    if k == "arr":
        return has(D["e"], pred)
    if k in ("st", "un"):
        return any(has(f["t"], pred) for f in D["f"])
    return False


def int_only(D):
    k = D["k"]
    if k in ("int", "enm"):
        return True
    if k == "st":
        return bool(D["f"]) and all(f["n"] and int_only(f["t"]) for f in D["f"])
    return False


FIELD_NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z", "n", "m", "len0", "size", "type", "value", "name",
               "count", "_x", "A1", "data", "flags", "o", "r", "s", "stream", "buf", "cls", "self_", "off", "u", "l",
               "v1", "key", "Val", "idx", "hdr", "t", "p"]


class Gen:
    """Seeded random definitions."""

    DEFAULT = dict(
        int=10, oddint=3, flt=2, chr=2, wch=1, leb=0.7, vd=0.2, enm=3, ptr=2, arr=6, st=3, un=1.5,
        bits=4, dyn=True, eof=0.3, anon=0.4, depth=3, maxf=6, align=None, synonyms=0.3, consts=True, union_dyn=False,
    )

    def __init__(self, rng: random.Random, **kw):
        self.rng = rng
        self.o = dict(self.DEFAULT)
        self.o.update(kw)
        self.n = 0
        self.align = self.o["align"] if self.o["align"] is not None else rng.random() < 0.5
        self.enums = []
        self.structs = []
        self.consts = []
        if self.o["consts"] and rng.random() < 0.4:
            self.consts = [("CN", rng.randint(0, 4)), ("KK", rng.choice([1, 2, 3, 7]))][: rng.randint(1, 2)]

    def uid(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def pick_int(self, odd=False):
        r = self.rng
        name = r.choice(["int24", "uint24", "int48", "uint48", "int128", "uint128"]) if odd else r.choice(
            ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"])
        sp = None
        if r.random() < self.o["synonyms"] and name in SYN:
            sp = r.choice(SYN[name])
        return Int(name, sp)

    def enum(self):
        r = self.rng
        if self.enums and r.random() < 0.5:
            return r.choice(self.enums)
        base = self.pick_int(odd=r.random() < 0.15)
        flag = r.random() < 0.4
        names = [self.uid("M") for _ in range(r.randint(1, 4))]
        mem = []
        lim = 2 ** (8 * base["s"] - (1 if base["sg"] else 0)) - 1
        for n in names:
            if r.random() < 0.5:
                mem.append((n, None))
            else:
                v = r.choice([0, 1, 2, 4, 8, 5, 64]) & lim
                mem.append((n, [tnum(v, r.choice([10, 16]))]))
        D = Enm(self.uid("En"), base, mem, flag)
        self.enums.append(D)
        return D

    def scalar(self):
        o = self.o
        r = self.rng
        k = r.choices(["int", "oddint", "flt", "chr", "wch", "leb", "enm", "ptr"],
                      [o["int"], o["oddint"], o["flt"], o["chr"], o["wch"], o["leb"] if o["dyn"] else 0, o["enm"], o["ptr"]])[0]
        if k == "int":
            return self.pick_int()
        if k == "oddint":
            return self.pick_int(True)
        if k == "flt":
            return Flt(r.choice(list(FLOATS)))
        if k == "chr":
            return Chr(r.choice(["char", "char", "CHAR", "unsigned char"]))
        if k == "wch":
            return Wch(r.choice(["wchar", "wchar_t", "WCHAR"]))
        if k == "leb":
            return Leb(r.random() < 0.5)
        if k == "enm":
            return self.enum()
        t = r.choice([Int("uint8"), Int("uint32"), Chr(), Void(), Int("int24")])
        if self.structs and r.random() < 0.3:
            t = r.choice(self.structs)
        p = Ptr(t)
        if r.random() < 0.15:
            p = Ptr(p)
        return p

    def expr(self, names):
        r = self.rng
        n = r.choice(names)
        k = r.random()
        if k < 0.35:
            return [tid(n)]
        if k < 0.5:
            return [tid(n), top("&"), tnum(r.choice([1, 3, 7]), r.choice([10, 16]))]
        if k < 0.6:
            return [tid(n), top("-"), tnum(r.randint(1, 3))]
        if k < 0.7:
            return [tid(n), top("+"), tnum(r.randint(0, 2))]
        if k < 0.75:
            return [top("("), tid(n), top("&"), tnum(3), top(")"), top("*"), tnum(2), top("-"), tnum(1)]
        if k < 0.8:
            return [tid(n), top("%"), tnum(4)]
        if k < 0.85:
            return [top("-"), tid(n), top("+"), tnum(4)]
        if k < 0.9 and self.consts:
            return [tid(n), top("%"), tnum(3), top("+"), tid(self.consts[0][0])]
        if k < 0.95:
            return [tid(n), top("&"), top("("), tsz("uint32", 4), top("-"), tnum(1), top(")")]
        return [tid(n), top("&"), tnum(2), top("|"), tid(r.choice(names)), top("&"), tnum(1)]

    def cexpr(self):
        r = self.rng
        if self.consts and r.random() < 0.5:
            n, v = r.choice(self.consts)
            return LX([tid(n)] + ([top("+"), tnum(1)] if r.random() < 0.4 else []), True)
        return LX(r.choice([[tnum(1), top("+"), tnum(1)], [tnum(2), top("*"), tnum(2)], [tsz("uint16", 2)],
                            [tnum(8), top(">>"), tnum(2)], [tnum(3), top("-"), tnum(1)]]), True)

    def array(self, e, names, last):
        """wrap e into an array"""
        r = self.rng
        o = self.o
        dims = 1 if r.random() < 0.8 else r.choice([2, 2, 3])
        D = e
        for i in range(dims):
            inner = i < dims - 1
            k = r.random()
            if o["dyn"] and not inner and k < 0.15 and (
                    e["k"] in ("int", "chr", "wch", "enm", "leb") or int_only(e)) and D is e:
                D = Arr(D, LZ)
            elif o["dyn"] and o["eof"] and not inner and last and k < 0.15 + o["eof"] * 0.5 and not is_dynamic(D) and min_size(D) > 0:
                D = Arr(D, LE)
            elif o["dyn"] and names and k < 0.5 and min_size(D) > 0:
                D = Arr(D, LX(self.expr(names), False))
            elif k < 0.65:
                D = Arr(D, self.cexpr())
            else:
                D = Arr(D, LN(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])))
        return D

    def fields(self, depth, union=False):
        r = self.rng
        o = self.o
        n = r.randint(1, o["maxf"])
        fs = []
        names = []
        used = set()
        counters = []
        i = 0
        while i < n:
            i += 1
            last = i == n

            def name():
                for _ in range(50):
                    x = r.choice(FIELD_NAMES)
                    if x not in used:
                        break
                else:
                    x = self.uid("f")
                used.add(x)
                return x

            if r.random() * 20 < o["bits"] and not (union and r.random() < 0.7):
                # a run of bit-fields
                rem = 0
                prev = None
                for _ in range(r.randint(1, 5) if not union else 1):
                    if prev is None or r.random() < 0.25:
                        if r.random() < 0.2:
                            t = self.enum()
                        elif r.random() < 0.06:
                            t = Chr()
                        else:
                            t = self.pick_int(odd=r.random() < 0.12)
                    else:
                        t = prev
                    u = t["b"] if t["k"] == "enm" else t
                    un, us = (u.get("n", "chr"), u.get("s", 1))
                    pu = None if prev is None else (prev["b"] if prev["k"] == "enm" else prev)
                    if pu is None or rem == 0 or pu.get("n", "chr") != un:
                        rem = 8 * us
                    b = r.choice([1, 2, 3, 4, 5, 7, 8, rem, r.randint(1, max(rem, 1))])
                    if b > rem:
                        b = rem
                    rem -= b
                    nm = name()
                    fs.append(Fld(nm, t, b))
                    if b <= 8:
                        counters.append(nm)
                    prev = t
                continue
            k = r.random()
            tot = o["st"] + o["un"] + 14
            if depth > 0 and k < (o["st"] + o["un"]) / tot:
                isun = k > o["st"] / tot
                t = self.struct(depth - 1, union=isun)
                if not last and r.random() < o["anon"] and t["il"] and not t["nm"]:
                    inner = all_names(t)
                    if not (inner & used):
                        used |= inner
                        fs.append(Fld("", t))
                        continue
                if r.random() < 0.3 and not has(t, lambda d: d["k"] == "arr" and d["l"]["k"] == "e"):
                    t = self.array(t, counters if not union else [], last)
                fs.append(Fld(name(), t))
                continue
            t = self.scalar()
            if not union and not o["dyn"]:
                pass
            if r.random() * 20 < o["arr"]:
                t = self.array(t, counters if not union else [], last and not union)
            elif r.random() * 20 < o["vd"]:
                t = Void()
            nm = name()
            fs.append(Fld(nm, t))
            if t["k"] == "int" and t["s"] <= 2 or t["k"] == "enm" and t["b"]["s"] == 1:
                counters.append(nm)
        return fs

    def struct(self, depth, union=False, top_=False):
        r = self.rng
        reuse = [x for x in self.structs if not is_dynamic(x) or (self.o["dyn"] and (self.o["union_dyn"] or not union))]
        if not top_ and reuse and r.random() < 0.4:
            return r.choice(reuse)
        save = self.o
        if union and not self.o["union_dyn"]:
            self.o = dict(self.o, dyn=False, leb=0)
        maxf = self.o["maxf"]
        self.o = dict(self.o, maxf=max(1, min(maxf, 4)) if not top_ else maxf)
        fs = self.fields(depth, union)
        self.o = save
        inline = not top_ and r.random() < 0.5
        nm = None if inline and r.random() < 0.8 else self.uid("S")
        if inline and any(has(f["t"], lambda d: d["k"] == "arr" and d["l"]["k"] == "e") for f in fs):
            inline = False
            nm = nm or self.uid("S")
        D = St(nm, fs, self.align, inline, "un" if union else "st")
        if nm and not inline:
            # structures containing an x[EOF] tail must not be embedded elsewhere than last; keep them out of reuse
            if not has(D, lambda d: d["k"] == "arr" and d["l"]["k"] == "e") and (
                    self.o["union_dyn"] or not union or not is_dynamic(D)):
                if not (not self.o["dyn"] and is_dynamic(D)):
                    self.structs.append(D)
        return D

    def top(self, union=False):
        # nested definitions never carry x[EOF] (their extent is the end of the input)
        eof = self.o["eof"]
        r = self.rng
        self.o = dict(self.o, eof=0)
        fs = None
        D = self.struct(self.o["depth"], union=union, top_=True)
        self.structs = [x for x in self.structs if x is not D]
        self.o = dict(self.o, eof=eof)
        if not union and self.o["dyn"] and r.random() < eof:
            e = self.scalar()
            if e["k"] == "leb":
                e = Int("uint16")
            D["f"].append(Fld("tail_", Arr(e, LE)))
        if not D["nm"]:
            D["nm"] = self.uid("S")
        return D


def all_names(D):
    s = set()
    for f in D["f"]:
        if f["n"]:
            s.add(f["n"])
        else:
            s |= all_names(f["t"])
    return s


def min_size(D):
    k = D["k"]
    if k == "int":
        return D["s"]
    if k == "flt":
        return D["s"]
    if k == "chr":
        return 1
    if k == "wch":
        return 2
    if k == "enm":
        return D["b"]["s"]
    if k == "ptr":
        return 1
    if k == "leb":
        return 1
    if k == "arr":
        if D["l"]["k"] == "n":
            return D["l"]["n"] * min_size(D["e"])
        return 0
    if k == "st":
        return sum(1 if f["b"] else min_size(f["t"]) for f in D["f"])
    if k == "un":
        return max([min_size(f["t"]) for f in D["f"]] or [0])
    return 0


SPECIAL = [b"\xff\xfe", b"\xfe\xff", b"\x00\x00", b"\x0d\x0a", b"\x20\x20", b"\x00\xd8\x00\xdc", b"\xd8\x00\xdc\x00",
           b"\xef\xbb\xbf", b"\x00\x00\x00\x80", b"\x80\x00\x00\x00", b"\x80\x00", b"\x00\x80", b"\x7f\xff", b"\xff\x7f", b"\x80\x80\x01"]


def gen_bytes(rng, n):
    mode = rng.random()
    if mode < 0.3:
        return bytes(rng.choice([0, 1, 2, 3, 1, 2, 255, rng.randrange(256)]) for _ in range(n))
    if mode < 0.6:
        return bytes(rng.choice([0, 1, 2, 3, 4, 5, 65, 66]) for _ in range(n))
    if mode < 0.8:
        # small numbers, with byte sequences in between that mean something to some type
        out = b""
        while len(out) < n:
            out += rng.choice(SPECIAL) if rng.random() < 0.25 else bytes([rng.choice([1, 2, 3, 65, 0])])
        return out[:n]
    if mode < 0.97:
        return bytes(rng.randrange(256) for _ in range(n))
    return bytes([rng.choice([0, 255, 128, 127])]) * n
