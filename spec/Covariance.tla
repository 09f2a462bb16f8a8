----------------------------- MODULE Covariance -----------------------------
(***************************************************************************)
(* Change of the unit of mass (C18).                                       *)
(*                                                                         *)
(* A calculation is a sequence of steps that derive new quantities from    *)
(* known ones.  It is run twice, with the same inputs in two units of mass *)
(* that differ by the factor K: a quantity is                              *)
(*      [d |-> mass dimension, x |-> value, y |-> value in the other unit] *)
(* Steps: product, quotient (if it is exact), sum of two quantities of the *)
(* same dimension, choice between two quantities of the same dimension by  *)
(* comparing two others of the same dimension, rejection of the input by   *)
(* such a comparison.                                                      *)
(*                                                                         *)
(* Covariant: y = K^d x for all quantities, and both runs accept or both   *)
(* reject.  Broken calculations (Fault): a term of another dimension, an   *)
(* absolute threshold for a choice or a rejection, a lost normalisation, a *)
(* logarithm of a mass instead of a ratio.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS K, Depth, Fault

VARIABLES q, rejected, steps
vars == <<q, rejected, steps>>

RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
In(v, d) == [d |-> d, x |-> v, y |-> v * IPow(K, d)]
\* two masses, a coupling, a squared mass
Init == q = {In(3, 1), In(4, 1), In(2, 0), In(11, 2)} /\ rejected = <<FALSE, FALSE>> /\ steps = 0
New(r) == q' = q \cup {r} /\ steps' = steps + 1 /\ steps < Depth /\ UNCHANGED rejected
Open == rejected = <<FALSE, FALSE>>

MultiplyP(a, b) == a.d + b.d <= 4 /\ New([d |-> a.d + b.d, x |-> a.x * b.x, y |-> a.y * b.y])
DivideP(a, b) == /\ a.d >= b.d /\ b.x # 0 /\ b.y # 0 /\ a.x % b.x = 0 /\ a.y % b.y = 0 /\ b.x > 0 /\ b.y > 0
                /\ New([d |-> a.d - b.d, x |-> a.x \div b.x, y |-> a.y \div b.y])
AddP(a, b) == a.d = b.d /\ New([d |-> a.d, x |-> a.x + b.x, y |-> a.y + b.y])
ChooseP(a, b, c, f) == /\ a.d = b.d /\ c.d = f.d
                      /\ New([d |-> c.d, x |-> IF a.x > b.x THEN c.x ELSE f.x, y |-> IF a.y > b.y THEN c.y ELSE f.y])
RejectP(a, b) == /\ a.d = b.d /\ (a.x > b.x \/ a.y > b.y) /\ steps < Depth /\ steps' = steps + 1
                /\ rejected' = <<a.x > b.x, a.y > b.y>> /\ UNCHANGED q
\* mistakes
ConstantP(a) == Fault = "constant" /\ New([d |-> a.d, x |-> a.x + 7, y |-> a.y + 7]) /\ a.d > 0
ThresholdP(a, c, f) == Fault = "threshold" /\ a.d > 0 /\ c.d = f.d /\ New([d |-> c.d, x |-> IF a.x > 5 THEN c.x ELSE f.x, y |-> IF a.y > 5 THEN c.y ELSE f.y])
NormaliseP(a, b) == Fault = "normalisation" /\ b.d > 0 /\ New([d |-> a.d, x |-> a.x * b.x, y |-> a.y * b.y])
LogAbsP(a) == LET n(v) == IF v < 2 THEN 0 ELSE IF v < 4 THEN 1 ELSE IF v < 8 THEN 2 ELSE 3
             IN Fault = "logarithm" /\ a.d > 0 /\ New([d |-> 0, x |-> n(a.x), y |-> n(a.y)])
RejectAbsP(a) == /\ Fault = "rejection" /\ a.d > 0 /\ steps < Depth /\ steps' = steps + 1 /\ (a.x > 5 \/ a.y > 5)
                /\ rejected' = <<a.x > 5, a.y > 5>> /\ UNCHANGED q

Multiply == Open /\ \E a, b \in q : MultiplyP(a, b)
Divide == Open /\ \E a, b \in q : DivideP(a, b)
Add == Open /\ \E a, b \in q : AddP(a, b)
Choose == Open /\ \E a, b, c, f \in q : ChooseP(a, b, c, f)
Reject == Open /\ \E a, b \in q : RejectP(a, b)
Constant == Open /\ \E a \in q : ConstantP(a)
Threshold == Open /\ \E a, c, f \in q : ThresholdP(a, c, f)
Normalise == Open /\ \E a, b \in q : NormaliseP(a, b)
LogAbs == Open /\ \E a \in q : LogAbsP(a)
RejectAbs == Open /\ \E a \in q : RejectAbsP(a)
Next == Multiply \/ Divide \/ Add \/ Choose \/ Reject \/ Constant \/ Threshold \/ Normalise \/ LogAbs \/ RejectAbs
Spec == Init /\ [][Next]_vars
Scales == \A r \in q : r.y = IPow(K, r.d) * r.x
SameVerdict == rejected[1] = rejected[2]
=============================================================================
