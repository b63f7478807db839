"""C10 expressions evaluate with C precedence and associativity, repeatably."""
import ast
import json
import operator as o

import drive
import model as M

from . import codec, common as C

REQUIRED_CLAUSES = ["expr.value", "expr.repeatable"]
ASSUMPTIONS = ["/ and % with a negative operand, division by zero, negative shift counts and unresolved identifiers have no "
               "prescribed value; only repeatability is judged for them"]
OPS = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.LShift: o.lshift,
       ast.RShift: o.rshift, ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.BitOr: o.or_}
BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"]
IDS = ["a", "b", "K", "u", "L", "x1", "_n", "abc", "len", "sizeofx", "e", "f0"]
TYPES = [("uint8", 1), ("uint16", 2), ("int24", 3), ("uint32", 4), ("unsigned int", 4), ("unsigned long long", 8), ("int128", 16),
         ("S", 6), ("wchar", 2), ("DWORD", 4), ("long", 4), ("Al", 6)]
TEXT = "struct S { uint16 a; uint32 b; };\ntypedef S Al;\n"


def models(tier):
    return [{"module": "MCExprs.tla", "cfg": "MCExprs_q.cfg" if tier == "quick" else "MCExprs_t.cfg"}]


def prepare(tier, seed, scratch):
    return {"ex": codec.prepare_mc("MCExprs_gen.cfg", scratch, "ex", "MCExprs.tla"),
            "ex4": codec.prepare_mc("MCExprs_gent.cfg", scratch, "ex4", "MCExprs.tla")}


def num(rng):
    r = rng.random()
    v = rng.choice([0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 31, 127, 255, 256, 1000]) if r < 0.6 else rng.getrandbits(rng.choice([4, 8, 16, 31, 32, 33, 64, 70]))
    t = M.tnum(v, rng.choice([10, 10, 10, 16, 16, 8, 2]))
    if rng.random() < 0.3:
        t["x"] = rng.choice(["u", "U", "l", "L", "ul", "UL", "ll", "LL", "ull", "ULL", "Lu", "LLU", "llu"])
    return t


def gen(rng, depth, ids, shift=True):
    """tokens of a random well-formed expression with random redundant and missing parentheses"""
    r = rng.random()
    if depth <= 0 or r < 0.15:
        k = rng.random()
        if k < 0.45:
            return [num(rng)]
        if k < 0.85 and ids:
            return [M.tid(rng.choice(ids))]
        return [M.tsz(*rng.choice(TYPES))]
    if r < 0.3:
        return [M.top(rng.choice("-~"))] + gen(rng, depth - 1, ids, shift)
    if r < 0.45:
        return [M.top("(")] + gen(rng, depth - 1, ids, shift) + [M.top(")")]
    if rng.random() < 0.2 and shift:
        # counts stay small however the operand is written, unless the evaluation is wrong
        l = [M.top("("), *gen(rng, depth - 1, ids, False), M.top(")")]
        return l + [M.top(rng.choice(["<<", ">>"])), M.tnum(rng.choice([0, 1, 2, 3, 5, 8, 17]), rng.choice([10, 16]))]
    op = rng.choice(["+", "-", "*", "&", "^", "|", "+", "-", "*", "/", "%"])
    a = gen(rng, depth - 1, ids, shift)
    b = gen(rng, depth - 1, ids, shift)
    if op in "/%":
        b = [M.tnum(rng.choice([1, 2, 3, 7, 10]))]
    return a + [M.top(op)] + b


def ctx(rng, ids):
    big = rng.random() < 0.15
    return [[n, rng.choice([0, 1, 2, 3, 5, 6, -1, -2, 250, 12]) if not big else rng.getrandbits(66)] for n in ids if rng.random() < 0.8]


def scenarios(rng, shard, nshards, tier, files):
    q = tier == "quick"
    for key, stride in (("ex", 3 if q else 1), ("ex4", 3 if q else 1)):
        with open(files[key]) as fh:
            lines = [x for i, x in enumerate(fh) if i % nshards == shard and (i // nshards) % stride == 0]
        for i in range(0, len(lines), 40):
            yield {"fam": key, "consts": [["K", 3], ["a", 100]], "text": "", "ex":
                   [{"t": (t := json.loads(x)["t"]), "s": M.toks_text(t, rng if rng.random() < 0.3 else None), "runs":
                     [[["a", -7], ["b", 6]], [["b", 9], ["K", 1]], [["a", 2], ["b", 1]]]} for x in lines[i:i + 40]]}
    for _ in range(60 if q else 1200):
        ex = []
        consts = [[n, rng.choice([0, 1, 4, -3, 17, 1 << 40])] for n in rng.sample(IDS, rng.randint(0, 4))]
        for _ in range(25):
            ids = rng.sample(IDS, rng.randint(0, 5))
            t = gen(rng, rng.choice([1, 2, 3, 4, 5]), ids)
            if len(t) > 45:
                continue
            runs = [ctx(rng, ids) for _ in range(3)]
            if tame(t, [{**dict.fromkeys(IDS, 1), **dict(consts), **dict(map(tuple, r))} for r in runs]):
                ex.append({"t": t, "s": M.toks_text(t, rng, rng.random() < 0.3), "runs": runs})
        yield {"fam": "rand", "consts": consts, "text": TEXT, "ex": ex}
    for _ in range(60 if q else 1200):       # constants and enum members
        consts = [[n, rng.choice([0, 1, 4, 17, 255])] for n in rng.sample(IDS, rng.randint(1, 4))]
        ids = [n for n, _ in consts]
        ex = []
        for i in range(8):
            t = gen(rng, rng.choice([1, 2, 3, 4]), ids)
            ex.append({"t": t, "s": M.toks_text(t, rng, rng.random() < 0.3), "as": "const"} if tame(t, [dict(consts)]) else {"t": [M.tnum(i)], "s": str(i), "as": "const"})
        for i in range(4):
            t = gen(rng, rng.choice([1, 2, 3]), ids)
            ex.append({"t": t, "s": M.toks_text(t, rng, rng.random() < 0.3), "as": "enum"} if tame(t, [dict(consts)]) else {"t": [M.tnum(i)], "s": str(i), "as": "enum"})
        yield {"fam": "defs", "consts": consts, "text": TEXT, "ex": ex}


def tame(t, envs):
    """generator-side guard (no oracle): no astronomically large intermediate values"""
    def go(n):
        if isinstance(n, ast.Constant):
            v = n.value
        elif isinstance(n, ast.UnaryOp):
            v = -go(n.operand) if isinstance(n.op, ast.USub) else ~go(n.operand)
        else:
            a, b = go(n.left), go(n.right)
            if isinstance(n.op, (ast.LShift, ast.RShift)) and not 0 <= b <= 300:
                raise OverflowError
            v = OPS[type(n.op)](a, b)
        if abs(v) >> 1500:
            raise OverflowError
        return v

    for e in envs:
        try:
            go(ast.parse(M.toks_src(t, e), mode="eval").body)
        except OverflowError:
            return False
        except (ZeroDivisionError, KeyError):
            pass
    return True


def ev1(x, cx):
    try:
        return {"ok": True, "v": drive.enc_int(x.evaluate(cx))}
    except drive.Hang:
        raise
    except Exception:
        return {"ok": False, "v": [0]}


def execute(s):
    from dissect.cstruct.expression import Expression

    cs = drive.make_cs(s["text"], "l")
    for n, v in s["consts"]:
        cs.consts[n] = v
    out = []
    nm = 0
    for x in s["ex"]:
        if "as" in x:
            nm += 1
            if x["as"] == "const":
                try:
                    cs.load(f"#define Q_{nm} {x['s']}\n")
                    v = cs.consts[f"Q_{nm}"]
                    r = {"ok": isinstance(v, int), "v": drive.enc_int(v) if isinstance(v, int) else [0]}
                except drive.Hang:
                    raise
                except Exception:
                    r = {"ok": False, "v": [0]}
            else:
                try:
                    cs.load(f"enum En_{nm} : int128 {{ M0_{nm} = 1, M_{nm} = {x['s']} }};\n")
                    r = {"ok": True, "v": drive.enc_int(getattr(cs, f"En_{nm}")[f"M_{nm}"].value)}
                except drive.Hang:
                    raise
                except Exception:
                    r = {"ok": False, "v": [0]}
            out.append({"op": "const", "t": x["t"], "cx": [], "r": r, "s": x["s"]})
            continue
        try:
            obj = Expression(cs, x["s"])
        except Exception:
            obj = None
        runs = []
        for cx in x["runs"]:
            c = dict(map(tuple, cx))
            try:
                fresh = ev1(Expression(cs, x["s"]), dict(c))
            except Exception:
                fresh = {"ok": False, "v": [0]}
            runs.append({"cx": [{"n": n, "v": drive.enc_int(v)} for n, v in cx],
                         "r": ev1(obj, c) if obj else {"ok": False, "v": [0]}, "f": fresh})
        out.append({"op": "expr", "t": x["t"], "runs": runs, "s": x["s"]})
    return {"E": {"e": "l", "p": {"k": "vd"}, "c": [{"n": n, "v": drive.enc_int(v)} for n, v in s["consts"]]}, "T": {"k": "vd"}, "ev": out}
