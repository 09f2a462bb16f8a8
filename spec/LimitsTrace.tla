----------------------------- MODULE LimitsTrace -----------------------------
(***************************************************************************)
(* Validates recorded threshold corrections (C13):                         *)
(*   Line   all corrections at points on a line in parameter space; some   *)
(*          masses (nearly) coincide at t = 0.  Close to t = 0 every       *)
(*          correction must be what interpolation through the points away  *)
(*          from t = 0 predicts, up to the distance of the nearly equal    *)
(*          masses where a limit for equal masses may be used.             *)
(*          Deviations are measured relative to the largest value of the   *)
(*          correction away from t = 0, also for other mixings.            *)
(*   Swap   the corrections before and after exchanging the stops          *)
(*   Fn     a loop function along a line                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Ev(x) == l <= Len(Trace) /\ e.event = x /\ l' = l + 1
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE

Corrections == <<"G3_AS", "YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2", "LAMBDA_YB2_G12", "LAMBDA_G14",
  "LAMBDA_REG_G14", "LAMBDA_CHI_G14", "LAMBDA_CHI_G24", "LAMBDA_G24", "LAMBDA_REG_G24", "LAMBDA_G12_G22", "LAMBDA_REG_G12_G22",
  "LAMBDA_CHI_G12_G22", "LAMBDA_YB2_G22", "LAMBDA_YB4", "LAMBDA_YT2_G12", "LAMBDA_YT2_G22", "LAMBDA_YTAU2_G12", "LAMBDA_YTAU2_G22",
  "LAMBDA_YTAU4", "G1_G1", "G2_G2", "VEV_YT2", "YT_YB", "YT_YT", "YTAU_YTAU", "LAMBDA_YB4_G32", "LAMBDA_YB6", "LAMBDA_YT6",
  "LAMBDA_YTAU6", "LAMBDA_YT2_YB4", "LAMBDA_YT4_YB2", "VEV_YB2", "VEV_YTAU2", "VEV_G12", "VEV_G22", "YTAU_YB", "LAMBDA_YTAU4_YB2",
  "LAMBDA_YTAU2_YB4", "YB_YT", "YB_AS", "YB_YB">>
Unknown == {"VEV_G12", "VEV_G22"}     \* not known, undefined by design
C == {c \in DOMAIN Corrections : Corrections[c] \notin Unknown}

\* logged masses: stop_L stop_R sbottom_R slepton_L slepton_R gluino light-squarks
Q == 1  U == 2  D == 3  L == 4  E == 5  G == 6  S == 7
\* groups of masses whose (near) equality makes a correction use a limit for equal masses
Groups(c) == CASE c \in {"YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2", "VEV_YT2"} -> <<{Q, U, G, S}>>
               [] c = "VEV_YB2" -> <<{Q, D}>>
               [] c = "VEV_YTAU2" -> <<{L, E}>>
               [] c = "LAMBDA_YB4_G32" -> <<{Q, D, G, S}>>
               [] c \in {"LAMBDA_YTAU4_YB2", "LAMBDA_YTAU2_YB4"} -> <<{Q, D}, {L, E}>>
               [] OTHER -> <<>>
\* two-loop corrections that are extrapolated to equal masses
Extrapolated == {"LAMBDA_YTAU6", "LAMBDA_YT4_YB2", "LAMBDA_YT2_YB4", "LAMBDA_YT6", "LAMBDA_YB6"}
Floor(c) == IF c \in Extrapolated THEN "0.03" ELSE "0.0005"
Slope == 25

Rel(a, b) == FDiv(FAbs(FSub(a, b)), FMin(a, b))
\* largest distance among the masses of a group that are nearly equal
Pairs(g) == {x \in g \X g : x[1] < x[2]}
RECURSIVE MaxNear(_, _)
MaxNear(ms, ps) == IF ps = {} THEN "0" ELSE
   LET p == CHOOSE x \in ps : TRUE
       d == Rel(ms[p[1]], ms[p[2]])
       r == MaxNear(ms, ps \ {p})
   IN IF FLe(d, "0.021") THEN FMax(d, r) ELSE FMax(r, "0")
Spread(c, ms) == FSeqMax(<<"0">> \o [i \in DOMAIN Groups(c) |-> MaxNear(ms, Pairs(Groups(c)[i]))])
Tol(c, ms) == FAdd(Floor(c), FMul(Slope, Spread(c, ms)))

\* points of the line used as nodes of the interpolation, far enough from t = 0
RECURSIVE NodeSeq(_)
NodeSeq(i) == IF i > Len(e.t) THEN <<>> ELSE (IF FLe(FAdd("0.0104", e.spread), FAbs(e.t[i])) THEN <<i>> ELSE <<>>) \o NodeSeq(i + 1)
Weights(ns, t) == [k \in DOMAIN ns |-> FProd([j \in DOMAIN ns |->
                     IF j = k THEN 1 ELSE FDiv(FSub(t, e.t[ns[j]]), FSub(e.t[ns[k]], e.t[ns[j]]))])]

Smooth(c, name, tol(_)) ==
  LET ns == NodeSeq(1)
      rest == {i \in DOMAIN e.t : \A k \in DOMAIN ns : ns[k] # i}
      size == FSeqMax([k \in DOMAIN ns |-> FAbs(e.val[ns[k]][c])] \o [k \in 1..(Len(e.val) - Len(e.t)) |-> FAbs(e.val[Len(e.t) + k][c])])
  IN /\ Chk(<<"finite", name>>, \A i \in DOMAIN e.val : FFinite(e.val[i][c]))
     /\ \A i \in rest :
          LET x == FDot(Weights(ns, e.t[i]), [k \in DOMAIN ns |-> e.val[ns[k]][c]])
              d == FAbs(FSub(e.val[i][c], x))
          IN Chk(<<"continuous", name, e.name, FStr(e.t[i]), FStr(FDiv(d, size)), FStr(tol(i))>>, FLe(d, FMul(tol(i), size)))

Init == l = 1
Line == /\ Ev("Line")
        /\ \A c \in C : LET t(i) == Tol(Corrections[c], e.mass[i]) IN Smooth(c, Corrections[c], t)
        /\ Chk("same in any order", \A i \in DOMAIN e.dig : e.dig[i] = e.again[i])
Symmetric == {"YT_AS", "LAMBDA_AT", "LAMBDA_AT_AS", "VEV_YT2"}
Swap == /\ Ev("Swap")
        /\ \A c \in {x \in C : Corrections[x] \in Symmetric} :
             Chk(<<"exchange of the stops", Corrections[c], FStr(e.val[1][c]), FStr(e.val[2][c])>>,
                 FLe(FAbs(FSub(e.val[1][c], e.val[2][c])),
                     FMul(FAdd("1e-9", FMul(Slope, Spread(Corrections[c], e.mass[1]))), FSeqMax([i \in DOMAIN e.val |-> FAbs(e.val[i][c])]))))
Fn == /\ Ev("Fn") /\ LET t(i) == e.tol IN Smooth(1, "loop function", t)
Next == Line \/ Swap \/ Fn
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
