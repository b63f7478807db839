------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded event of every recorded trace must be          *)
(* explainable by the specification.  One behaviour walks all traces of a file;     *)
(* a rejected event is reported with the clauses that fail and ends its trace.      *)
EXTENDS Judge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES ti, ei, st
vars == <<ti, ei, st>>

Codec_(tr, ev, cls) == IF DefOK(tr.T, tr.E) THEN cls ELSE <<>>     \* a definition that must be rejected: only "load" is judged
Step(tr0, ev, s) ==     \* [st, cl]
  LET tr == IF "T2" \in DOMAIN ev THEN [tr0 EXCEPT !.T = ev.T2] ELSE tr0 IN      \* an event about another type
  CASE ev.op = "hang"   -> [st |-> s, cl |-> Cl("terminates", FALSE)]
    [] ev.op = "crash"  -> [st |-> s, cl |-> Cl("no-unspecified-failure", FALSE)]
    [] ev.op = "load"   -> [st |-> s, cl |-> JLoad(tr, ev)]
    [] ev.op = "lay"    -> [st |-> s, cl |-> Codec_(tr, ev, JLay(tr, ev))]
    [] ev.op = "parse"  -> [st |-> s, cl |-> Codec_(tr, ev, JParse(tr, ev))]
    [] ev.op = "dump"   -> [st |-> s, cl |-> Codec_(tr, ev, JDump(tr, ev))]
    [] ev.op = "size"   -> [st |-> s, cl |-> Codec_(tr, ev, JSize(tr, ev))]
    [] ev.op = "round"  -> [st |-> s, cl |-> Codec_(tr, ev, JRound(tr, ev))]
    [] ev.op = "fid"    -> [st |-> s, cl |-> Codec_(tr, ev, JFidelity(tr, ev))]
    [] ev.op = "layeq"  -> [st |-> s, cl |-> JLayEq(tr, ev)]
    [] ev.op = "readeq" -> [st |-> s, cl |-> Codec_(tr, ev, JReadEq(tr, ev))]
    [] ev.op = "cut"    -> [st |-> s, cl |-> Codec_(tr, ev, JCut(tr, ev))]
    [] ev.op = "expr"   -> [st |-> s, cl |-> JExpr(tr, ev)]
    [] ev.op = "const"  -> [st |-> s, cl |-> JConst(tr, ev)]
    [] ev.op = "enum"   -> [st |-> s, cl |-> JEnum(tr, ev)]
    [] ev.op = "eobj"   -> [st |-> s, cl |-> JEobj(tr, ev)]
    [] ev.op = "ecls"   -> [st |-> s, cl |-> Cl("enum.class", ev.ok)]
    [] ev.op = "eq"     -> [st |-> s, cl |-> JEq(tr, ev)]
    [] ev.op = "mnew"   -> JMnew(tr, ev)
    [] ev.op = "mset"   -> JMset(tr, ev, s)
    [] ev.op = "veq"    -> [st |-> s, cl |-> JVeq(tr, ev)]
    [] ev.op = "vnew"   -> [st |-> s, cl |-> Codec_(tr, ev, JVnew(tr, ev))]
    [] ev.op = "pos"    -> [st |-> s, cl |-> Codec_(tr, ev, JPos(tr, ev))]

Count(cls) ==
  \A i \in 1..Len(cls) :
     LET m == TLCGet(1) IN
     TLCSet(1, IF cls[i].c \in DOMAIN m THEN [m EXCEPT ![cls[i].c] = @ + 1] ELSE (cls[i].c :> 1) @@ m)

Init == ti = 1 /\ ei = 0 /\ st = <<>> /\ TLCSet(1, [x \in {} |-> 0])

Next ==
  IF ti > Len(Traces)
  THEN FALSE
  ELSE IF ei >= Len(Traces[ti].ev)
  THEN /\ ti' = ti + 1 /\ ei' = 0 /\ st' = <<>>
       /\ IF ti = Len(Traces)
          THEN LET m == TLCGet(1) IN
               /\ \A c \in DOMAIN m : PrintT("@CNT " \o ToJson([c |-> c, n |-> m[c]]))
               /\ PrintT("@DONE " \o ToJson([traces |-> ti]))
          ELSE TRUE
  ELSE LET tr  == Traces[ti]
           ev  == tr.ev[ei + 1]
           r   == Step(tr, ev, st)
           bad == SelectSeq(r.cl, LAMBDA c : ~c.ok)
       IN /\ Count(r.cl)
          /\ IF bad = <<>>
             THEN ti' = ti /\ ei' = ei + 1 /\ st' = r.st
             ELSE /\ PrintT("@BAD " \o ToJson([id |-> tr.id, ei |-> ei, op |-> ev.op,
                                               cl |-> [i \in 1..Len(bad) |-> bad[i].c]]))
                  /\ ti' = ti /\ ei' = ei + 1 /\ st' = r.st

Spec == Init /\ [][Next]_vars
=============================================================================
