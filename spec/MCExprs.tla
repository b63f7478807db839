------------------------------- MODULE MCExprs -------------------------------
(* The expression evaluator as a machine, against the C grammar.                   *)
(*  phase "build": a token sequence grows, any prefix of a well-formed expression   *)
(*  phase "run":   the evaluator consumes it token by token with an operator stack  *)
(*                 and an operand queue (shunting-yard), one transition per step     *)
(*  phase "done":  result                                                            *)
(* Invariant: the result is the value the grammar (Exprs!Eval) prescribes; the       *)
(* machine never gets stuck; running again from "done" gives the same result (all    *)
(* of its state is its own: stack and queue start empty on every run).               *)
(* With Emit every well-formed expression is printed as a scenario.                  *)
EXTENDS Exprs, TLC, Json

CONSTANTS MaxTok, MaxOpnd, Emit, Ops, Full

Opnd(i) == CASE i = 1 -> [t |-> "i", n |-> "a"]
             [] i = 2 -> [t |-> "n", b |-> 16, d |-> <<1, 3>>]
             [] i = 3 -> [t |-> "i", n |-> "b"]
             [] i = 4 -> [t |-> "n", b |-> 8, d |-> <<5>>]
             [] i = 5 -> [t |-> "i", n |-> "K"]
             [] OTHER -> [t |-> "n", b |-> 2, d |-> <<1, 1>>]
Sz == [t |-> "z", n |-> "uint16", s |-> 2]
Op(x) == [t |-> "o", n |-> x]
Ctx == <<[n |-> "a", v |-> FromInt(-7)], [n |-> "b", v |-> FromInt(6)]>>
Consts == <<[n |-> "K", v |-> FromInt(3)], [n |-> "a", v |-> FromInt(100)]>>

VARIABLES ts, no, dep, opd, ph, pc, stk, que, res
vars == <<ts, no, dep, opd, ph, pc, stk, que, res>>
\* no: number of operands so far; dep: open parentheses; opd: an operand is expected next
Init == /\ ts = <<>> /\ no = 0 /\ dep = 0 /\ opd = TRUE /\ ph = "build" /\ pc = 1
        /\ stk = <<>> /\ que = <<>> /\ res = <<>>

Fits(extra) == Len(ts) + 1 + extra <= MaxTok
Push(t) == ts' = Append(ts, t)
Build ==
  /\ ph = "build" /\ UNCHANGED <<ph, pc, stk, que, res>>
  /\ \/ /\ opd /\ no < MaxOpnd /\ Fits(dep)
        /\ \E t \in {Opnd(no + 1), Sz} : (t = Sz => Full) /\ Push(t)
        /\ no' = no + 1 /\ opd' = FALSE /\ dep' = dep
     \/ /\ opd /\ Fits(dep + 1) /\ no < MaxOpnd
        /\ \E u \in {"-", "~"} : Push(Op(u))
        /\ UNCHANGED <<no, opd, dep>>
     \/ /\ opd /\ Fits(dep + 2) /\ no < MaxOpnd
        /\ Push(Op("(")) /\ dep' = dep + 1 /\ UNCHANGED <<no, opd>>
     \/ /\ ~opd /\ dep > 0
        /\ Push(Op(")")) /\ dep' = dep - 1 /\ UNCHANGED <<no, opd>>
     \/ /\ ~opd /\ Fits(dep + 1) /\ no < MaxOpnd
        /\ \E o \in Ops : Push(Op(o))
        /\ opd' = TRUE /\ UNCHANGED <<no, dep>>
Complete == ph = "build" /\ ~opd /\ dep = 0
Start == /\ Complete /\ ph' = "run" /\ pc' = 1 /\ stk' = <<>> /\ que' = <<>>
         /\ UNCHANGED <<ts, no, dep, opd, res>>
         /\ Emit => PrintT("@DEF " \o ToJson([t |-> ts]))

\* -- one step of the evaluator -----------------------------------------------------
Unary(i) == ts[i].t = "o" /\ ts[i].n \in {"-", "~"} /\
            (i = 1 \/ (ts[i - 1].t = "o" /\ ts[i - 1].n # ")"))
Prec(o) == IF o \in {"u-", "~"} THEN 7 ELSE Lvl(o)
Top == stk[Len(stk)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Val(t) == Eval(<<t>>, Ctx, Consts)
App(o, q) ==
  IF o \in {"u-", "~"}
  THEN Append(Pop(q), LET x == q[Len(q)] IN [v |-> IF o = "u-" THEN INeg(x.v) ELSE INot(x.v), j |-> x.j])
  ELSE LET a == q[Len(q) - 1]  b == q[Len(q)]  r == Apply(o, a.v, b.v)
       IN Append(Pop(Pop(q)), [v |-> r.v, j |-> a.j /\ b.j /\ r.j])
Reduce == stk' = Pop(stk) /\ que' = App(Top, que) /\ UNCHANGED <<pc>>
Step ==
  /\ ph = "run" /\ UNCHANGED <<ts, no, dep, opd>>
  /\ IF pc > Len(ts)
     THEN IF stk = <<>>
          THEN ph' = "done" /\ res' = Append(res, que) /\ UNCHANGED <<pc, stk, que>>
          ELSE Reduce /\ UNCHANGED <<ph, res>>
     ELSE /\ UNCHANGED <<ph, res>>
          /\ LET t == ts[pc] IN
             IF t.t # "o" THEN que' = Append(que, [v |-> Val(t).v, j |-> TRUE]) /\ pc' = pc + 1 /\ UNCHANGED stk
             ELSE IF Unary(pc) THEN stk' = Append(stk, IF t.n = "-" THEN "u-" ELSE "~") /\ pc' = pc + 1 /\ UNCHANGED que
             ELSE IF t.n = "(" THEN stk' = Append(stk, "(") /\ pc' = pc + 1 /\ UNCHANGED que
             ELSE IF t.n = ")" THEN (IF Top = "(" THEN stk' = Pop(stk) /\ pc' = pc + 1 /\ UNCHANGED que ELSE Reduce)
             ELSE IF stk # <<>> /\ Top # "(" /\ Prec(Top) >= Prec(t.n) THEN Reduce
             ELSE stk' = Append(stk, t.n) /\ pc' = pc + 1 /\ UNCHANGED que
Again == /\ ph = "done" /\ Len(res) = 1 /\ ph' = "run" /\ pc' = 1 /\ stk' = <<>> /\ que' = <<>>
         /\ UNCHANGED <<ts, no, dep, opd, res>>
Next == Build \/ Start \/ (IF Emit THEN FALSE ELSE Step \/ Again)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------------- *)
Correct ==
  ph = "done" =>
    LET r == Eval(ts, Ctx, Consts) IN
    /\ r.ok /\ WellFormed(ts)
    /\ \A k \in 1..Len(res) :
         /\ Len(res[k]) = 1
         /\ res[k][1].j = r.j
         /\ r.j => res[k][1].v = r.v
NeverStuck == (ph = "run" /\ pc <= Len(ts) /\ ts[pc].t = "o" /\ ts[pc].n = ")") => stk # <<>>
PrefixWF == Complete => WellFormed(ts)
=============================================================================
