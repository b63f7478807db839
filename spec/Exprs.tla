------------------------------- MODULE Exprs --------------------------------
(* Integer expressions of definitions (array lengths, enum values, #define).    *)
(* A token is a record:                                                          *)
(*   [t |-> "n", b |-> base, d |-> <<digits>>]  literal (u/l suffixes: no value) *)
(*   [t |-> "i", n |-> name]                    identifier                       *)
(*   [t |-> "o", n |-> op]   op in + - * / % << >> & ^ | ~ ( )                   *)
(*   [t |-> "z", s |-> size] sizeof(type); size = -1 when the type has none      *)
(* The value is the one of the C grammar (precedence climbing, left assoc.)       *)
(* over unbounded integers.  Result: [ok, v, j]: ok = FALSE when an identifier    *)
(* is unresolved, j = FALSE when C leaves the value open (/ or % with a negative  *)
(* operand, division by zero, negative or absurd shift count).                    *)
EXTENDS Ints

LookupIn(env, name) == SelectInSeq(env, LAMBDA x : x.n = name)   \* 0 if absent
\* later bindings shadow earlier ones (fields: last parsed wins; names unique in practice)

RECURSIVE Digits(_, _, _)
Digits(ds, b, acc) ==
  IF ds = <<>> THEN acc
  ELSE Digits(Tail(ds), b, IAdd(IMul(acc, FromNat(b)), FromNat(Head(ds))))

Lvl(op) == CASE op = "|" -> 1 [] op = "^" -> 2 [] op = "&" -> 3
             [] op \in {"<<", ">>"} -> 4 [] op \in {"+", "-"} -> 5
             [] op \in {"*", "/", "%"} -> 6 [] OTHER -> 0
IsBin(tok) == tok.t = "o" /\ Lvl(tok.n) > 0

EBad(ok, p) == [ok |-> ok, v |-> IZero, j |-> FALSE, p |-> p]
MaxShift == 4096

Apply(op, a, b) ==        \* [v, j]
  CASE op = "|"  -> [v |-> IOr(a, b),  j |-> TRUE]
    [] op = "^"  -> [v |-> IXor(a, b), j |-> TRUE]
    [] op = "&"  -> [v |-> IAnd(a, b), j |-> TRUE]
    [] op = "+"  -> [v |-> IAdd(a, b), j |-> TRUE]
    [] op = "-"  -> [v |-> ISub(a, b), j |-> TRUE]
    [] op = "*"  -> [v |-> IMul(a, b), j |-> TRUE]
    [] op = "<<" -> IF ~IsNeg(b) /\ Small(b) /\ ToInt(b) <= MaxShift
                    THEN [v |-> IShl(a, ToInt(b)), j |-> TRUE] ELSE [v |-> IZero, j |-> FALSE]
    [] op = ">>" -> IF ~IsNeg(b) /\ Small(b) /\ ToInt(b) <= MaxShift
                    THEN [v |-> IShr(a, ToInt(b)), j |-> TRUE] ELSE [v |-> IZero, j |-> FALSE]
    [] op = "/"  -> IF IsNeg(a) \/ IsNeg(b) \/ IsZero(b) THEN [v |-> IZero, j |-> FALSE]
                    ELSE [v |-> IDivMod(a, b)[1], j |-> TRUE]
    [] op = "%"  -> IF IsNeg(a) \/ IsNeg(b) \/ IsZero(b) THEN [v |-> IZero, j |-> FALSE]
                    ELSE [v |-> IDivMod(a, b)[2], j |-> TRUE]

\* PUnary / PBin: parse from token p, return [ok, v, j, p (next token)]
RECURSIVE PUnary(_, _, _, _), PBin(_, _, _, _, _), PRest(_, _, _, _, _)
PUnary(ts, p, ctx, consts) ==
  IF p > Len(ts) THEN EBad(FALSE, p)
  ELSE LET t == ts[p] IN
  CASE t.t = "n" -> [ok |-> TRUE, v |-> Digits(t.d, t.b, IZero), j |-> TRUE, p |-> p + 1]
    [] t.t = "i" ->
         LET i == LookupIn(ctx, t.n)
             c == LookupIn(consts, t.n)
         IN IF i > 0 THEN [ok |-> TRUE, v |-> ctx[i].v, j |-> TRUE, p |-> p + 1]
            ELSE IF c > 0 THEN [ok |-> TRUE, v |-> consts[c].v, j |-> TRUE, p |-> p + 1]
            ELSE EBad(FALSE, p)
    [] t.t = "z" -> IF t.s >= 0 THEN [ok |-> TRUE, v |-> FromNat(t.s), j |-> TRUE, p |-> p + 1]
                    ELSE EBad(FALSE, p)
    [] t.t = "o" ->
         CASE t.n = "-" -> LET r == PUnary(ts, p + 1, ctx, consts) IN
                             IF r.ok THEN [r EXCEPT !.v = INeg(r.v)] ELSE r
           [] t.n = "~" -> LET r == PUnary(ts, p + 1, ctx, consts) IN
                             IF r.ok THEN [r EXCEPT !.v = INot(r.v)] ELSE r
           [] t.n = "(" -> LET r == PBin(ts, p + 1, 1, ctx, consts) IN
                             IF r.ok /\ r.p <= Len(ts) /\ ts[r.p].t = "o" /\ ts[r.p].n = ")"
                             THEN [r EXCEPT !.p = r.p + 1]
                             ELSE EBad(FALSE, p)
           [] OTHER -> EBad(FALSE, p)
PBin(ts, p, lvl, ctx, consts) ==
  IF lvl > 6 THEN PUnary(ts, p, ctx, consts)
  ELSE LET l == PBin(ts, p, lvl + 1, ctx, consts)
       IN IF l.ok THEN PRest(ts, l, lvl, ctx, consts) ELSE l
PRest(ts, l, lvl, ctx, consts) ==        \* left-associative tail at level lvl
  IF l.p <= Len(ts) /\ IsBin(ts[l.p]) /\ Lvl(ts[l.p].n) = lvl
  THEN LET r == PBin(ts, l.p + 1, lvl + 1, ctx, consts) IN
       IF ~r.ok THEN r
       ELSE LET a == Apply(ts[l.p].n, l.v, r.v)
            IN PRest(ts, [ok |-> TRUE, v |-> a.v, j |-> l.j /\ r.j /\ a.j, p |-> r.p], lvl, ctx, consts)
  ELSE l

\* well-formed and fully resolved?  value?
Eval(ts, ctx, consts) ==
  LET r == PBin(ts, 1, 1, ctx, consts)
  IN IF r.ok /\ r.p = Len(ts) + 1 THEN [ok |-> TRUE, v |-> r.v, j |-> r.j]
     ELSE [ok |-> FALSE, v |-> IZero, j |-> FALSE]

\* purely syntactic well-formedness (identifiers count as operands)
RECURSIVE WFOperand(_, _, _), WFOperator(_, _, _)
WFOperand(ts, p, depth) ==
  IF p > Len(ts) THEN FALSE
  ELSE LET t == ts[p] IN
    IF t.t # "o" THEN WFOperator(ts, p + 1, depth)
    ELSE IF t.n \in {"-", "~"} THEN WFOperand(ts, p + 1, depth)
    ELSE IF t.n = "(" THEN WFOperand(ts, p + 1, depth + 1)
    ELSE FALSE
WFOperator(ts, p, depth) ==
  IF p > Len(ts) THEN depth = 0
  ELSE LET t == ts[p] IN
    IF t.t # "o" THEN FALSE
    ELSE IF t.n = ")" THEN depth > 0 /\ WFOperator(ts, p + 1, depth - 1)
    ELSE IF t.n \in {"~", "("} THEN FALSE
    ELSE WFOperand(ts, p + 1, depth)
WellFormed(ts) == WFOperand(ts, 1, 0)
=============================================================================
