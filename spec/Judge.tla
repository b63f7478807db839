------------------------------- MODULE Judge --------------------------------
(* What each property demands of one recorded event (conformance clauses).       *)
(* A judge returns a sequence of clauses [c |-> name, ok |-> BOOLEAN]; only        *)
(* clauses that apply to the event are in it.                                      *)
EXTENDS Codec, Enums, Values, TLC

Cl(name, ok) == <<[c |-> name, ok |-> ok]>>
When(cond, cls) == IF cond THEN cls ELSE <<>>

EnvAt(tr, ev) == [tr.E EXCEPT !.e = ev.e]

\* a result of the implementation against a result of the specification
ParseClauses(pfx, s, r, T) ==
  IF s.ok
  THEN Cl(pfx \o ".accept", r.ok)
       \o When(r.ok, Cl(pfx \o ".value", Same(r.v, s.v))
                     \o Cl(pfx \o ".position", r.p = s.p))
  ELSE When(s.x = "eof", Cl(pfx \o ".refuse", ~r.ok))

(* --- load / layout ----------------------------------------------------------- *)
JLoad(tr, ev) == Cl("load.accept-iff-valid", ev.ok = DefOK(tr.T, tr.E))

JLay(tr, ev) ==
  LET T == tr.T  E == tr.E  z == SizeOf(T, E) IN
  Cl("layout.size", ev.size = z)
  \o Cl("layout.len", ev.len = z)
  \o Cl("layout.sizeof", ev.szof = z)
  \o Cl("layout.dynamic", ev.dyn = (z < 0))
  \o When(T.k \in {"st", "un"} /\ Len(T.f) > 0, Cl("layout.alignment", ev.al = AlignOf(T, E)))
  \o When(T.k = "st",
       LET L == Layout(T, E) IN
       Cl("layout.offsets", \A i \in 1..Len(T.f) :
            (T.f[i].b = 0 \/ L.it[i].nu) => ev.offs[i] = L.it[i].o))

(* --- absolute parse / dump ----------------------------------------------------- *)
JParse(tr, ev) == ParseClauses("parse", Read(tr.T, EnvAt(tr, ev), ev.d, ev.at, <<>>), ev.r, tr.T)

JDump(tr, ev) ==
  LET E == EnvAt(tr, ev)
      dm == Dom(tr.T, E, ev.v)
  IN CASE dm = "ok" -> Cl("dump.accept", ev.r.ok)
                       \o When(ev.r.ok /\ ~HasNaN(ev.v), Cl("dump.bytes", ev.r.b = Write(tr.T, E, ev.v)))
                       \o When(ev.r.ok /\ HasNaN(ev.v), Cl("dump.length", Len(ev.r.b) = Len(Write(tr.T, E, ev.v))))
       [] dm = "no" -> Cl("dump.reject", ~ev.r.ok)
       [] OTHER -> <<>>

(* --- C04: one size everywhere ---------------------------------------------------- *)
JSize(tr, ev) ==       \* parse of enough bytes and the dump of what was parsed
  LET z == SizeOf(tr.T, tr.E) IN
  When(z >= 0 /\ ev.r.ok, Cl("size.consumed", ev.r.p - ev.at = z))
  \o When(z >= 0 /\ ev.w.ok, Cl("size.dumped", Len(ev.w.b) = z))
  \o When(z >= 0 /\ Read(tr.T, EnvAt(tr, ev), ev.d, ev.at, <<>>).ok, Cl("size.parses", ev.r.ok) \o When(ev.r.ok, Cl("size.dumps", ev.w.ok)))

(* --- C01: round trip of a value ---------------------------------------------------- *)
\* expression-length arrays inside v agree with the fields they are computed from
RECURSIVE LensOK(_, _, _, _), LensFields(_, _, _, _, _)
LensOK(T, E, v, cx) ==
  CASE T.k = "arr" ->
         /\ (T.l.k = "x" /\ ~T.l.c) =>
              LET r == Eval(T.l.x, cx, E.c) IN
              r.ok /\ r.j /\ Len(v.v) = (IF IsNeg(r.v) THEN 0 ELSE IF Small(r.v) THEN ToInt(r.v) ELSE -1)
         /\ (v.k = "l") => \A i \in 1..Len(v.v) : LensOK(T.e, E, v.v[i], cx)
    [] T.k = "st" -> LensFields(T, E, v, <<>>, 1)
    [] T.k = "un" -> \A i \in 1..Len(T.f) : LensOK(T.f[i].t, E, v.v[i], <<>>)
    [] OTHER -> TRUE
LensFields(T, E, v, cx, i) ==
  IF i > Len(T.f) THEN TRUE
  ELSE /\ LensOK(T.f[i].t, E, v.v[i], cx)
       /\ LensFields(T, E, v, IF IntLike(v.v[i]) /\ T.f[i].n # ""
                              THEN Append(cx, [n |-> T.f[i].n, v |-> v.v[i].v]) ELSE cx, i + 1)

JRound(tr, ev) ==      \* v -> dumps -> parse
  LET E == EnvAt(tr, ev)
      dm == Dom(tr.T, E, ev.v)
      in == dm = "ok" /\ LensOK(tr.T, E, ev.v, <<>>)
  IN When(dm = "no", Cl("roundtrip.reject", ~ev.w.ok))
     \o When(in, Cl("roundtrip.dumps", ev.w.ok)
                 \o When(ev.w.ok, Cl("roundtrip.parses", ev.r.ok)
                    \o When(ev.r.ok, Cl("roundtrip.value", Same(ev.r.v, ev.v))
                                     \o Cl("roundtrip.consumed", ev.r.p = Len(ev.w.b))
                                     \o When(~HasNaN(ev.v), Cl("roundtrip.equal", ev.eq)))))

(* --- C02: byte fidelity -------------------------------------------------------------- *)
\* LEB128 input that is not the canonical encoding is outside the encoding (C05) and not judged
JFidelity(tr, ev) ==
  LET E == EnvAt(tr, ev)
      s == Read(tr.T, E, ev.d, ev.at, <<>>)
      n == ev.r.p - ev.at
  IN IF ~ev.r.ok \/ ~s.ok THEN <<>>
     ELSE IF ~Canonical(s.m) \/ HasNaN(s.v) THEN <<>>      \* canonical encodings only
     ELSE Cl("fidelity.dumps", ev.w.ok)
          \o When(ev.w.ok,
               LET mk == MaskOf(s.m, ev.at, n)
                   got == ev.w.b
               IN Cl("fidelity.length", Len(got) = n)
                  \o When(Len(got) = n /\ ev.at + n <= Len(ev.d) ,
                       Cl("fidelity.bytes", MaskBytes(got, mk) = MaskBytes(Take(ev.d, ev.at, n), mk))
                       \o Cl("fidelity.padding-zero", MaskBytes(got, mk) = got)))

(* --- C03: compiled = interpreted -------------------------------------------------------- *)
JLayEq(tr, ev) ==
  Cl("compiled.load", ev.i.ok = ev.c.ok)
  \o When(ev.i.ok /\ ev.c.ok,
       Cl("compiled.size", ev.i.lay.size = ev.c.lay.size)
       \o Cl("compiled.alignment", ev.i.lay.al = ev.c.lay.al)
       \o Cl("compiled.offsets", ev.i.lay.offs = ev.c.lay.offs)
       \o Cl("compiled.dynamic", ev.i.lay.dyn = ev.c.lay.dyn))
JReadEq(tr, ev) ==
  LET E == EnvAt(tr, ev)
      s == Read(tr.T, E, ev.d, ev.at, <<>>)
      xt == IF tr.T.k = "st" /\ s.ok THEN FieldExtents(tr.T, E, ev.d, ev.at).xt ELSE <<>>
  IN When(s.ok, Cl("compiled.accepts-same", ev.i.ok = ev.c.ok))
     \o When(~s.ok /\ s.x = "eof", Cl("compiled.short-input", ev.i.ok = ev.c.ok))
     \o When(ev.i.ok /\ ev.c.ok,
          Cl("compiled.value", Same(ev.i.v, ev.c.v))
          \o Cl("compiled.consumed", ev.i.p = ev.c.p)
          \o When(s.ok /\ Len(ev.i.sz) = Len(xt) /\ Len(ev.c.sz) = Len(xt),
               Cl("compiled.sizes", \A k \in 1..Len(xt) :
                    (tr.T.f[k].b = 0 /\ xt[k][2] > xt[k][1]) => ev.i.sz[k] = ev.c.sz[k])))

(* --- C08: truncation, short reads, raising streams --------------------------------------- *)
\* ev.d complete input; ev.cs: faults, each [mode, n, hit, r, after]
\*   mode "trunc": only the first n bytes exist;  "short": some read call delivers fewer bytes than
\*   requested;  "raise": some call of the stream raises (hit = it was reached)
JCut1(tr, E, ev, s, c) ==
  LET end == DataEnd(s.m, 0)
      eof == HasKind(tr.T, "eof")
      nan == HasNaN(s.v)
      sn  == IF c.mode = "trunc" THEN Read(tr.T, E, SubSeq(ev.d, 1, c.n), 0, <<>>) ELSE s
  IN When(c.mode = "trunc" /\ (IF eof THEN ~sn.ok /\ sn.x = "eof" ELSE c.n < end),
          Cl("cut.refuses", ~c.r.ok) \o When(~c.r.ok, Cl("cut.eoferror", c.r.x = "eof")))
     \o When(c.r.ok /\ ~nan /\ sn.ok /\ ~(eof /\ c.mode # "trunc"), Cl("cut.no-fabrication", Same(c.r.v, sn.v)))
     \o When(c.mode = "raise" /\ c.hit, Cl("cut.fault-propagates", ~c.r.ok))
     \o Cl("cut.no-residue", c.after.ok /\ (nan \/ Same(c.after.v, s.v)) /\ c.after.p = s.p)
JCut(tr, ev) ==
  LET E == EnvAt(tr, ev)
      s == TLCEval(Read(tr.T, E, ev.d, 0, <<>>))
  IN IF ~s.ok THEN <<>>
     ELSE FoldLeft(LAMBDA acc, c : acc \o JCut1(tr, E, ev, s, c), <<>>, ev.cs)

(* --- C09: stream discipline ------------------------------------------------------------------ *)
JPos(tr, ev) ==     \* ev.base: parse of the bytes alone; ev.alt: the same bytes elsewhere / other input kind
  When(ev.base.ok,
     Cl("stream.accepts", ev.alt.ok)
     \o When(ev.alt.ok,
          Cl("stream.value", Same(ev.alt.v, ev.base.v))
          \o When(ev.haspos, Cl("stream.position", ev.alt.p - ev.at = ev.base.p))
          \o When(ev.haspos,
               LET E == EnvAt(tr, ev)
                   s == Read(tr.T, E, ev.d, 0, <<>>)
               IN When(s.ok, Cl("stream.extent", ev.alt.p - ev.at = s.p)))
          \o When(Len(ev.alt.sz) = Len(ev.base.sz), Cl("stream.sizes", ev.alt.sz = ev.base.sz))))
  \o When(~ev.base.ok, Cl("stream.refuses", ~ev.alt.ok))

(* --- C10: expressions ---------------------------------------------------------------------------- *)
\* ev.t tokens, ev.runs: evaluations of one expression object, each [cx context, r result, f result of a
\* fresh object].  A result is [ok, v].
JExpr(tr, ev) ==
  FoldLeft(LAMBDA acc, u :
     LET x == Eval(ev.t, u.cx, tr.E.c) IN
     acc \o When(x.ok /\ x.j, Cl("expr.accept", u.r.ok) \o When(u.r.ok, Cl("expr.value", u.r.v = x.v)))
         \o Cl("expr.repeatable", u.r = u.f),
     Cl("expr.scenario-well-formed", WellFormed(ev.t)), ev.runs)
\* constants and enum members whose value is an expression over the constants
JConst(tr, ev) ==
  LET x == Eval(ev.t, ev.cx, tr.E.c) IN
  When(x.ok /\ x.j, Cl("expr.accept", ev.r.ok) \o When(ev.r.ok, Cl("expr.value", ev.r.v = x.v)))

(* --- C12: enums and flags --------------------------------------------------------------------------- *)
JEnum(tr, ev) ==       \* declared members against the members of the class
  LET r == Number(ev.fl, ev.ms, tr.E.c) IN
  When(r.ok /\ r.j,
    Cl("enum.accept", ev.ok)
    \o When(ev.ok, Cl("enum.members", [i \in 1..Len(ev.got) |-> ev.got[i]] = r.ms)
                   \o Cl("enum.by-name", ev.byname = r.ms)))
JEobj(tr, ev) ==       \* objects parsed from raw bytes
  FoldLeft(LAMBDA acc, o :
     LET v == DecodeLE(InOrder(o.b, ev.e), tr.T.b.sg) IN
     acc \o Cl("enum.object", o.ok)
         \o When(o.ok, Cl("enum.value", o.iv = v /\ o.vv = v) \o Cl("enum.class", o.cls) \o Cl("enum.dump", o.rd = o.b)
                       \o Cl("enum.same-again", o.again) \o Cl("enum.default-dump", o.rd2 = o.b)),
     <<>>, ev.os)
JEq(tr, ev) ==         \* objects [c, v], observed equality matrices, hash classes
  LET n == Len(ev.os) IN
  Cl("enum.equality", \A i, j \in 1..n : ev.eq[i][j] = EnumEq(ev.os[i], ev.os[j]))
  \o Cl("enum.inequality", \A i, j \in 1..n : ev.ne[i][j] = ~EnumEq(ev.os[i], ev.os[j]))
  \o Cl("enum.hash", \A i, j \in 1..n : (ev.os[i].c # 0 /\ ev.os[i].c = ev.os[j].c /\ ev.os[i].v = ev.os[j].v) => ev.hs[i] = ev.hs[j])

(* --- C11, C17: a value is its bytes ------------------------------------------------------------------- *)
\* state of the trace: [k |-> TRUE, b |-> bytes] or [k |-> FALSE] (not known any more)
NoFree(n) == [i \in 1..n |-> 0]
MemObs(tr, E, exp, mk, p, ev) ==        \* [st, cl]; p: assigned path
  LET T == tr.T
      vw == TLCEval(View(T, E, exp))
      z == Len(exp)
  IN IF ~vw.ok \/ HasNaN(vw.v) THEN [st |-> [k |-> FALSE], cl |-> <<>>]
     ELSE IF ~ev.ok
     THEN LET fr == TLCEval(Free(T, E, z, p))      \* (with the padding cleared it may be no value of a member)
          IN [st |-> [k |-> FALSE],
              cl |-> When(p = <<>> \/ View(T, E, TLCEval([i \in 1..z |-> exp[i] & (255 - fr[i])])).ok, Cl("mem.accept", FALSE))]
     ELSE LET lenok == ev.w.ok /\ Len(ev.w.b) = z
              same == lenok /\ \A i \in 1..z : (ev.w.b[i] & mk[i]) = (exp[i] & mk[i])
              free == IF same \/ p = <<>> THEN NoFree(z) ELSE TLCEval(Free(T, E, z, p))
              \* padding the assignment may have cleared: what the dump says
              st2 == IF lenok /\ ~same
                     THEN TLCEval([i \in 1..z |-> (ev.w.b[i] & (mk[i] & free[i])) | (exp[i] & (255 - (mk[i] & free[i])))])
                     ELSE exp
              vw2 == IF st2 = exp THEN vw ELSE TLCEval(View(T, E, st2))
          IN [st |-> [k |-> TRUE, b |-> st2, mk |-> mk],
              cl |-> Cl("mem.accept", TRUE) \o Cl("mem.dumps", ev.w.ok)
                     \o When(ev.w.ok,
                          Cl("mem.length", Len(ev.w.b) = z)
                          \o When(lenok, Cl("mem.bytes", same \/ \A i \in 1..z :
                               /\ (ev.w.b[i] & mk[i] & (255 - free[i])) = (exp[i] & mk[i] & (255 - free[i]))
                               /\ (ev.w.b[i] & mk[i] & free[i] & (255 - exp[i])) = 0)))
                     \o When(vw2.ok /\ ~HasNaN(vw2.v),
                          Cl("mem.views", Same(ev.v, vw2.v))
                          \o Cl("mem.reparse-equal", ev.eq) \o Cl("mem.size", ev.z = z))]
JMnew(tr, ev) ==      \* parsed from bytes | default | constructed from values of fields
  LET E == EnvAt(tr, ev)
      z == SizeOf(tr.T, E)
      s == Read(tr.T, E, ev.d, 0, <<>>)
  IN CASE ev.by = "parse" ->
            IF ~s.ok THEN [st |-> [k |-> FALSE], cl |-> <<>>]
            ELSE LET o == MemObs(tr, E, TLCEval(PadTo(SubSeq(ev.d, 1, Min2(z, Len(ev.d))), z)), TLCEval(DataMask(tr.T, E)), <<>>, ev) IN
                 [o EXCEPT !.cl = @ \o When(ev.ok, Cl("mem.consumed", ev.p = z))]
       [] ev.by = "values" ->
            IF \E i \in 1..Len(ev.s) : ~AssignOK(Loc(tr.T, E, ev.s[i].p), E, ev.s[i].v) THEN [st |-> [k |-> FALSE], cl |-> <<>>]
            ELSE MemObs(tr, E, FoldLeft(LAMBDA acc, x : TLCEval(Assign(tr.T, E, acc, x.p, x.v)), Zeros(z), ev.s), TLCEval(DataMask(tr.T, E)), <<>>, ev)
JMset(tr, ev, st) ==
  LET E == EnvAt(tr, ev) IN
  IF ~st.k THEN [st |-> st, cl |-> <<>>]
  ELSE IF ~AssignOK(Loc(tr.T, E, ev.s.p), E, ev.s.v) THEN [st |-> [k |-> FALSE], cl |-> <<>>]
  ELSE MemObs(tr, E, TLCEval(Assign(tr.T, E, st.b, ev.s.p, ev.s.v)), st.mk, ev.s.p, ev)

(* --- C17: equality, hash, truth, construction ------------------------------------------------------------- *)
JVeq(tr, ev) ==
  LET n == Len(ev.os)
      nan == TLCEval([i \in 1..n |-> HasNaN(ev.os[i].v) \/ UnionZeroFloat(ev.os[i].v)])
      eq == TLCEval([i \in 1..n |-> [j \in 1..n |-> ev.os[i].c = ev.os[j].c /\ VEq(ev.os[i].v, ev.os[j].v)]])
      J(i, j) == ~nan[i] /\ ~nan[j]
  IN Cl("values.equality", \A i, j \in 1..n : J(i, j) => ev.eq[i][j] = eq[i][j])
     \o Cl("values.inequality", \A i, j \in 1..n : J(i, j) => ev.ne[i][j] = ~eq[i][j])
     \o Cl("values.hash", \A i, j \in 1..n : (J(i, j) /\ eq[i][j] /\ ev.hs[i][1] /\ ev.hs[j][1]) => ev.hs[i][2] = ev.hs[j][2])
     \o Cl("values.truth", \A i \in 1..n : ev.bo[i] = Truthy(ev.os[i].v))
     \o Cl("values.foreign", \A i \in 1..Len(ev.fo) : ~ev.fo[i])
JVnew(tr, ev) ==      \* the given fields have the given values, all others are zero
  LET z == ZeroOf(tr.T, EnvAt(tr, ev))
      x == FoldLeft(LAMBDA acc, y : [acc EXCEPT !.v[y.p[1]] = y.v], z, ev.s)
  IN Cl("values.constructed", Same(ev.v, x))
=============================================================================
