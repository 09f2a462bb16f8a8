------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Evaluation of a two-loop correction that depends on two sfermion masses *)
(* and their mixing, with removable singularities at equal masses and at   *)
(* vanishing mixing (C17).  The sfermion is given by y = LL - RR and       *)
(* x = 2 * off of its mass matrix (d = sqrt(x^2 + y^2) is the distance of  *)
(* the squared masses); the caller may label the two states in either      *)
(* order and may pass the mixing angle shifted by pi.  The correction is   *)
(* evaluated in one of three ways:                                         *)
(*   limit        formula for equal masses, exact only for d = 0           *)
(*   general      formula with poles at d = 0 and at x = 0                 *)
(*   regularised  the general formula for a neighbouring, regular sfermion *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS Thr,       \* the limit formula is used below this distance
          EpsM,      \* smallest distance after regularisation
          HasLimit,  \* a limit formula exists
          Variant    \* "Good", or a broken evaluation
ASSUME Thr <= EpsM
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE 1
Points == {<<0, 0, 0>>} \union {<<s * k, 0, k>> : s \in {-1, 1}, k \in 1..14} \union {<<0, s * k, k>> : s \in {-1, 1}, k \in 1..14}
          \union {<<s * k * t[1], u * k * t[2], k * t[3]>> : s \in {-1, 1}, u \in {-1, 1}, k \in {1, 2}, t \in {<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>}}
VARIABLES pt,     \* <<y, x, d>>
          lab,    \* 1: lighter state first, -1: heavier state first
          turn,   \* sign of the angle's overall phase (theta + pi)
          way, res \* how it was evaluated, and for which sfermion <<y, x, tiny>> (tiny: sign of an infinitesimal mixing)
vars == <<pt, lab, turn, way, res>>
None == <<"none">>
\* what the routine receives: signed distance of the masses, x and y seen through the mixing (d * sin, d * cos), sine and cosine signs
Dist == -lab * pt[3]
Init == pt \in Points /\ lab \in {1, -1} /\ turn \in {1, -1} /\ way = "none" /\ res = None
UseLimit == /\ way = "none" /\ HasLimit
            /\ IF Variant = "OneSided" THEN Dist < Thr ELSE Abs(Dist) < Thr
            /\ way' = "limit" /\ res' = <<0, 0, 0>>
            /\ UNCHANGED <<pt, lab, turn>>
\* the masses are moved apart; the mixing is reduced such that d * sin(2 theta) is kept
Scaled(y, x, d) == IF d >= EpsM THEN <<y, x>>
                   ELSE IF Variant = "SplitOnly" /\ d > 0 THEN <<(y * EpsM) \div d, (x * EpsM) \div d>>
                   ELSE IF Abs(x) >= EpsM THEN <<0, x>>
                   ELSE <<Sgn(y) * EpsM, x>>      \* cos(2 theta) = sqrt(1 - sin^2) to the precision of the model
Regularise == /\ way = "none"
              /\ ~(HasLimit /\ (IF Variant = "OneSided" THEN Dist < Thr ELSE Abs(Dist) < Thr))
              /\ LET q == Scaled(pt[1], pt[2], pt[3])
                     tiny == IF q[2] = 0 /\ Variant # "NoSineGuard" THEN 1 ELSE 0
                 IN way' = "general" /\ res' = <<q[1], q[2], tiny>>
              /\ UNCHANGED <<pt, lab, turn>>
Relabel == /\ way = "none" /\ lab' = -lab /\ UNCHANGED <<pt, turn, way, res>>
Turn == /\ way = "none" /\ turn' = -turn /\ UNCHANGED <<pt, lab, way, res>>
Next == UseLimit \/ Regularise \/ Relabel \/ Turn
Spec == Init /\ [][Next]_vars

\* the general formula is never evaluated at a pole
NoPole == way = "general" => /\ res[1] # 0 \/ res[2] # 0
                             /\ res[2] # 0 \/ res[3] # 0
\* the mixing term, that enters the correction multiplied by large trilinear couplings, is kept exactly
KeepsMixing == way = "general" => res[2] = pt[2]
\* masses are moved by no more than the chosen distance
Close == way = "general" => Abs(res[1] - pt[1]) <= EpsM
\* the limit is used close to equal masses only
LimitIsNear == way = "limit" => pt[3] < Thr
\* the evaluation depends on the mass matrix, not on labels and phases
Ways(d) == IF HasLimit /\ d < Thr THEN "limit" ELSE "general"
LabelIndependent == way # "none" => way = Ways(pt[3])
\* regular sfermions are not changed
Untouched == way = "general" /\ pt[3] >= EpsM => res[1] = pt[1] /\ res[2] = pt[2]
=============================================================================
