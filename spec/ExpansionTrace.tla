--------------------------- MODULE ExpansionTrace ---------------------------
(***************************************************************************)
(* Validates groups of evaluations of hierarchies that expand around the   *)
(* same mass pattern (C21, see Expansion.tla):                             *)
(*                                                                         *)
(*   h3, h32q2g, h3q22g             stops ~ gluino ~ squarks               *)
(*   h4                             stops ~ gluino << squarks              *)
(*   h5, h5g1                       light stop ~ gluino << heavy stop      *)
(*   h6, h6g2                       light stop << heavy stop ~ gluino << squarks *)
(*   h6b, h6b2qg2, h6bq22g, h6bq2g2 light stop << heavy stop ~ gluino ~ squarks  *)
(*   h9, h9q2                       gluino << stops ~ squarks              *)
(*                                                                         *)
(* e is the largest relative distance of the masses that the pattern takes *)
(* to be equal.                                                            *)
(* Siblings: the corrections of one loop order (1, 2, 3) agree with each   *)
(* other up to C e^3, C fixed for each pattern, loop order and matrix      *)
(* element (relative to the largest element).                              *)
(* Couplings: so do the three-loop corrections to the quartic coupling.    *)
(* (Groups of h6b in units in which heavy stop and squark mass add up to 1 *)
(* evaluate the terms in the squark distance that known finding            *)
(* h6b-squark-distance of C18 suppresses in other units.)                  *)
(* Converges: the one- and two-loop corrections agree with the exact ones  *)
(* up to the terms dropped in e, the stop mixing and the mass ratios.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.kind, e.name, l>>) /\ FALSE
Call(i) == e.calls[i]
Mdr == e.about.mdr
V(o) == Call(CHOOSE i \in DOMAIN e.calls : Call(i).o = o).v
HierOp(h, n) == "calc!hier " \o ToString(h) \o " t " \o Mdr \o (CASE n = 1 -> " 1 0 0" [] n = 2 -> " 0 1 0" [] n = 3 -> " 0 0 1")
ExactOp(n) == "calc!mt4" \o ToString(n) \o " " \o ToString(e.about.h[1]) \o " t - 0 0"
\* hierarchies: 0 h3, 1 h32q2g, 2 h3q22g, 3 h4, 4 h5, 5 h5g1, 6 h6, 7 h6b, 8 h6b2qg2, 9 h6bq22g, 10 h6bq2g2, 11 h6g2, 12 h9, 13 h9q2
Pattern(h) == CASE h \in 0..2 -> "h3" [] h = 3 -> "h4" [] h \in 4..5 -> "h5" [] h \in {6, 11} -> "h6" [] h \in 7..10 -> "h6b" [] h \in 12..13 -> "h9"
P == Pattern(e.about.h[1])
H(i) == e.about.h[i]
Members == DOMAIN e.about.h

\* ------------------------------------------------------------- the masses
pt == Call(1).p
LogSum(s) == FSum([i \in DOMAIN s |-> FMul(s[i][2], FLog(pt[s[i][1]]))])
MeanSquark == FSqrt(FExp(FDiv(LogSum(<< <<"mq2.0", "2">>, <<"mq2.4", "2">>, <<"mq2.8", "1">>, <<"mu2.0", "1">>, <<"mu2.4", "1">>,
                                       <<"md2.0", "1">>, <<"md2.4", "1">>, <<"md2.8", "1">> >>), "10")))
\* stop masses in the scheme of the calculation (reported by the three-loop corrections)
Light(v) == v[5]
Heavy(v) == v[6]
Masses == V(HierOp(H(1), 3))
Equal(v) == CASE P = "h3" -> <<Light(v), Heavy(v), pt["MG"], MeanSquark>> [] P = "h4" -> <<Light(v), Heavy(v), pt["MG"]>> [] P = "h5" -> <<Light(v), pt["MG"]>>
              [] P = "h6" -> <<Heavy(v), pt["MG"]>> [] P = "h6b" -> <<Heavy(v), pt["MG"], MeanSquark>> [] P = "h9" -> <<Light(v), Heavy(v), MeanSquark>>
Dist(v) == FSub(FDiv(FSeqMax(Equal(v)), FSeqMin(Equal(v))), "1")
Mixing(v) == FDiv(FAbs(FSub(pt["Au.8"], FDiv(FMul(pt["mu"], pt["vd"]), pt["vu"]))), FSqrt(FMul(Light(v), Heavy(v))))
\* 0: mixing negligible, 1: small, 2: sizeable
Mix(v) == IF FLe(Mixing(v), "0.13") THEN 0 ELSE IF FLe(Mixing(v), "0.5") THEN 1 ELSE 2
Known == \A i \in DOMAIN e.calls : Chk(<<"rejected", Call(i).o, Call(i).x>>, Call(i).x = "") /\ \A k \in DOMAIN Call(i).v : Chk("finite", FFinite(Call(i).v[k]))
SamePoint == \A i \in DOMAIN e.calls : Chk("bad group: one point", Call(i).p = Call(1).p)
Same == /\ Chk("bad group: members", Cardinality({Pattern(H(i)) : i \in Members}) = 1)
        /\ SamePoint
\* all results of a group are for the same masses
SameMasses == \A i \in Members : LET v == V(HierOp(H(i), 3)) w == Masses IN Chk(<<"stop masses", H(i)>>, FClose(v[5], w[5], "1e-12", "0") /\ FClose(v[6], w[6], "1e-12", "0"))

\* ------------------------------------------------------------- siblings
El == {1, 2, 4}
Norm(v) == FMax(FAbs(v[1]), FMax(FAbs(v[2]), FAbs(v[4])))
Top(n) == FSeqMax([i \in Members |-> Norm(V(HierOp(H(i), n)))])
Spread(n, k) == FSub(FSeqMax([i \in Members |-> V(HierOp(H(i), n))[k]]), FSeqMin([i \in Members |-> V(HierOp(H(i), n))[k]]))
Kth(k, s) == s[IF k = 4 THEN 3 ELSE k]
\* C for elements (1,1), (1,2), (2,2) with negligible, small and sizeable mixing
C(n, k, x) ==
  CASE P = "h4" \/ n = 1 \/ (P = "h9" /\ n = 2) -> "1e-6"
    [] P = "h3" /\ n = 2 -> Kth(k, <<(<<"1e-4", "1e-3", "3e-3">>)[x + 1], (<<"3e-3", "4e-3", "8e-3">>)[x + 1], (<<"5e-3", "1e-2", "4e-2">>)[x + 1]>>)
    [] P = "h3" /\ n = 3 -> Kth(k, <<(<<"6e-4", "4e-3", "1.5e-2">>)[x + 1], "2e-2", "8e-2">>)
    [] P = "h5" /\ n = 2 -> Kth(k, <<(<<"2e-4", "8e-4", "2e-3">>)[x + 1], "4e-2", "0.15">>)
    [] P = "h5" /\ n = 3 -> Kth(k, <<(<<"2e-4", "2e-4", "4e-4">>)[x + 1], "5e-2", "0.2">>)
    [] P = "h6" /\ n = 2 -> Kth(k, <<(<<"1e-2", "8e-2", "1.5">>)[x + 1], (<<"0.15", "0.3", "0.8">>)[x + 1], (<<"0.4", "0.5", "0.8">>)[x + 1]>>)
    [] P = "h6" /\ n = 3 -> Kth(k, <<(<<"1e-2", "4e-2", "0.5">>)[x + 1], (<<"5e-2", "6e-2", "0.5">>)[x + 1], (<<"0.12", "0.15", "0.8">>)[x + 1]>>)
    [] P = "h6b" /\ n = 2 -> Kth(k, <<(<<"8e-3", "2e-2", "0.3">>)[x + 1], (<<"0.15", "0.15", "0.3">>)[x + 1], "0.5">>)
    [] P = "h6b" /\ n = 3 -> Kth(k, <<(<<"3e-2", "8e-2", "0.3">>)[x + 1], (<<"0.15", "0.2", "0.3">>)[x + 1], "0.8">>)
    [] P = "h9" /\ n = 3 -> Kth(k, <<(<<"1e-4", "1e-3", "1.5e-2">>)[x + 1], "1e-2", "6e-2">>)
Cube(a) == FMul(a, FMul(a, a))
\* with a very light stop, its inverse mass enhances the terms
Scaled(v) == IF P \in {"h6", "h6b"} THEN FMax("1", FPow(FDiv(FDiv(Heavy(v), Light(v)), "3"), IF P = "h6b" THEN "4" ELSE "3")) ELSE "1"
Rounding == "1e-10"
Margin == "4"
Siblings ==
  /\ SameMasses
  /\ \A n \in 1..3 : LET v == Masses  d == Dist(v) IN
        \A k \in El : LET s == FDiv(Spread(n, k), Top(n))  b == FAdd(FProd(<<Margin, C(n, k, Mix(v)), Scaled(v), Cube(d)>>), Rounding)
                      IN Chk(<<"siblings disagree, loop order", n, "element", k, FStr(s), "distance", FStr(d), "allowed", FStr(b)>>, FLe(s, b))

\* three-loop correction to the quartic coupling, v[1], and its part without logarithms, v[2], as determined from a hierarchy
LamOp(h) == "calc!lam " \o ToString(h) \o " t " \o Mdr
CLambda(k, v) ==
  LET x == Mix(v) c(a, b) == IF k = 1 THEN a ELSE b IN
  CASE P = "h3" -> (IF x = 2 THEN "30" ELSE "20") [] P = "h4" -> "0" [] P = "h5" -> "5" [] P = "h6" -> (IF x = 2 THEN c("8", "40") ELSE c("0.4", "15"))
    [] P = "h6b" -> c("12", "80") [] P = "h9" -> (IF x = 2 THEN "12" ELSE "4")
\* h5 and h5g1 keep different powers of the ratio of the stop masses
FloorLambda(v) == IF P = "h5" THEN FMul("1e-2", FPow(FDiv("3", FDiv(Heavy(v), Light(v))), "5")) ELSE "1e-9"
Couplings == \A k \in 1..2 : LET v == Masses  d == Dist(v)
     at(i) == V(LamOp(H(i)))
     \* (the corrections are large, but may cancel)
     size == FMax(IF P \in {"h5", "h6"} THEN "2e4" ELSE "2e3", FSeqMax([i \in Members |-> FMax(FAbs(at(i)[1]), FAbs(at(i)[2]))]))
     s == FDiv(FSub(FSeqMax([i \in Members |-> at(i)[k]]), FSeqMin([i \in Members |-> at(i)[k]])), size)
     b == FMul(Margin, FAdd(FProd(<<CLambda(k, v), Scaled(v), Cube(d)>>), FloorLambda(v)))
  IN Chk(<<"siblings disagree, quartic coupling", k, FStr(s), "distance", FStr(d), "allowed", FStr(b)>>, FLe(s, b))

\* ------------------------------------------------------------- convergence to the exact corrections
Ratio(v) == FDiv(Light(v), Heavy(v))
Deviation(n, i, k) == LET v == V(HierOp(H(i), n))  x == V(ExactOp(n)) IN FDiv(FAbs(FSub(v[k], x[k])), Norm(x))
\* powers of the mass ratio of the stops that are kept
Wide(a, b, v) == FMul(a, FPow(FMul("3", Ratio(v)), b))
Sq(a) == FMul(a, a)
Bound(n, k, v) ==
  LET d == Dist(v)  m == Mix(v)  x == Mixing(v)
      pick(s) == s[m + 1]
      near == Kth(k, <<FMul(Sq(x), FAdd(FMul("4e-2", Sq(d)), FMul("2e-5", Sq(x)))), FMul(x, FAdd(FMul("3e-2", Sq(d)), FMul("1e-2", Cube(x)))), FAdd(FMul("1e-2", Sq(d)), FMul("3e-2", Sq(Sq(x))))>>)
  IN CASE n = 1 /\ P \in {"h3", "h9"} -> FAdd(near, "1e-5")
       [] n = 2 /\ P \in {"h3", "h9"} -> Kth(k, <<pick(<<"1e-4", "1e-4", "2e-4">>), pick(<<"4e-5", "8e-5", "1e-3">>), pick(<<"4e-5", "1e-4", "2e-2">>)>>)
       [] n = 1 /\ P = "h4" -> Kth(k, <<pick(<<"1e-3", "1e-2", "0.2">>), pick(<<"3e-2", "0.1", "0.4">>), pick(<<"3e-2", "0.15", "0.8">>)>>)
       [] n = 2 /\ P = "h4" -> Kth(k, <<pick(<<"1e-3", "5e-3", "2e-2">>), "inf", pick(<<"1.5e-2", "5e-2", "0.25">>)>>)
       [] n = 1 /\ P = "h5" -> Kth(k, <<Wide(pick(<<"4e-7", "5e-6", "1e-4">>), "5", v), Wide(pick(<<"1e-5", "3e-4", "6e-3">>), "4", v), FAdd("1e-9", Wide(pick(<<"1e-7", "2e-6", "4e-5">>), "6", v))>>)
       [] n = 2 /\ P = "h5" -> Kth(k, <<Wide(pick(<<"2e-5", "6e-5", "4e-4">>), "5", v), Wide("1.2e-2", "3", v), FAdd("1e-6", Wide("4e-3", "4", v))>>)
       [] n = 1 -> Kth(k, <<Wide(pick(<<"5e-6", "6e-5", "8e-4">>), "5", v), Wide(pick(<<"1e-6", "2e-5", "4e-4">>), "5", v), FAdd("1e-8", Wide(pick(<<"4e-7", "1e-5", "3e-4">>), "6", v))>>)
       [] n = 2 -> Kth(k, <<Wide(pick(<<"4e-5", "2e-4", "2e-3">>), "1", v), Wide(pick(<<"3e-4", "4e-4", "1.5e-3">>), "0.5", v), pick(<<"1.5e-3", "1.5e-3", "1.5e-3">>)>>)
Converges == \A n \in 1..2 : \A i \in Members : \A k \in El :
  LET v == Masses  s == Deviation(n, i, k)  b == FMul(Margin, Bound(n, k, v))
  IN Chk(<<"not the exact correction, loop order", n, "hierarchy", H(i), "element", k, FStr(s), "distance", FStr(Dist(v)), "mixing", FStr(Mixing(v)), "allowed", FStr(b)>>, FLe(s, b))

\* a point belongs to the pattern
Regime ==
  LET v == Masses IN
  Chk(<<"bad group: not the pattern", FStr(Dist(v)), FStr(Mixing(v)), FStr(Ratio(v))>>,
      /\ Mdr = "m" \/ FLe(Dist(v), "0.4")
      /\ FLe(Mixing(v), "4")
      /\ P \in {"h5", "h6", "h6b"} => FLe(Ratio(v), IF Mdr = "m" THEN "0.6" ELSE "0.4"))

Step == /\ l <= Len(Trace) /\ l' = l + 1 /\ e.event = "Group" /\ e.kind = "sib"
        /\ Known /\ Same /\ Regime /\ Siblings /\ Couplings
        /\ Mdr = "-" => Converges

Init == l = 1
Next == Step
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
