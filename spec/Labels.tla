------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Redefinitions of fields (C23).                                          *)
(*                                                                         *)
(* A calculation derives quantities from parameters.  It is run at three   *)
(* points which describe the same physics: the point itself (x), the point *)
(* with the sign of mu, A and the gaugino masses changed (y), the point    *)
(* with two fields exchanged (z: two generations, or up and down type).    *)
(* A quantity [p, sym, x, y, z] has a parity p under the change of signs,  *)
(* y = (-1)^p x, and may be symmetric under the exchange, then z = x.      *)
(* Steps: product, sum of quantities of the same parity, absolute value    *)
(* (for masses), sum over the two fields.  Quantities of even parity which *)
(* are symmetric may be observed.                                          *)
(*                                                                         *)
(* Invariant: the observed are the same at all three points.  Broken       *)
(* calculations (Fault): the absolute value of an odd parameter used in    *)
(* place of the parameter, a sum of quantities of different parity, one    *)
(* field forgotten in a sum or counted with another weight.                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Depth, Fault

VARIABLES q, seen, steps
vars == <<q, seen, steps>>

Abs(a) == IF a < 0 THEN -a ELSE a
Odd(v) == [p |-> 1, sym |-> TRUE, x |-> v, y |-> -v, z |-> v]
Mass(v, w) == [p |-> 0, sym |-> FALSE, x |-> v, y |-> v, z |-> w]
\* mu, A, the masses of two fields, a common coupling
Init == /\ q = {Odd(2), Odd(-3), Mass(2, 5), Mass(5, 2), [p |-> 0, sym |-> TRUE, x |-> 1, y |-> 1, z |-> 1]}
        /\ seen = {} /\ steps = 0
New(r) == steps < Depth /\ steps' = steps + 1 /\ q' = q \cup {r} /\ UNCHANGED seen

MultiplyP(a, b) == New([p |-> (a.p + b.p) % 2, sym |-> a.sym /\ b.sym, x |-> a.x * b.x, y |-> a.y * b.y, z |-> a.z * b.z])
AddP(a, b) == a.p = b.p /\ New([p |-> a.p, sym |-> a.sym /\ b.sym, x |-> a.x + b.x, y |-> a.y + b.y, z |-> a.z + b.z])
ModulusP(a) == New([p |-> 0, sym |-> a.sym, x |-> Abs(a.x), y |-> Abs(a.y), z |-> Abs(a.z)])
\* the expression and the one with the fields exchanged, whose value is that of the expression at the other point
TotalP(a) == ~a.sym /\ a.p = 0 /\ New([p |-> 0, sym |-> TRUE, x |-> a.x + a.z, y |-> a.y + a.z, z |-> a.z + a.x])
\* mistakes
UnsignedP(a) == Fault = "modulus" /\ a.p = 1 /\ New([p |-> 1, sym |-> a.sym, x |-> Abs(a.x), y |-> Abs(a.y), z |-> Abs(a.z)])
MixP(a, b) == Fault = "parity" /\ a.p = 0 /\ b.p = 1 /\ New([p |-> 0, sym |-> a.sym /\ b.sym, x |-> a.x + b.x, y |-> a.y + b.y, z |-> a.z + b.z])
ForgetP(a) == Fault = "forgotten" /\ ~a.sym /\ New([a EXCEPT !.sym = TRUE])
WeighP(a) == Fault = "weight" /\ ~a.sym /\ a.p = 0 /\ New([p |-> 0, sym |-> TRUE, x |-> a.x + 2 * a.z, y |-> a.y + 2 * a.z, z |-> a.z + 2 * a.x])

Multiply == \E a, b \in q : MultiplyP(a, b)
Add == \E a, b \in q : AddP(a, b)
Modulus == \E a \in q : ModulusP(a)
Total == \E a \in q : TotalP(a)
Unsigned == \E a \in q : UnsignedP(a)
Mix == \E a, b \in q : MixP(a, b)
Forget == \E a \in q : ForgetP(a)
Weigh == \E a \in q : WeighP(a)
Observe == \E a \in q : a.p = 0 /\ a.sym /\ a \notin seen /\ seen' = seen \cup {a} /\ UNCHANGED <<q, steps>> /\ Cardinality(seen) < 1
Next == Multiply \/ Add \/ Modulus \/ Total \/ Unsigned \/ Mix \/ Forget \/ Weigh \/ Observe
Spec == Init /\ [][Next]_vars
SamePhysics == \A r \in seen : r.x = r.y /\ r.x = r.z
Parity == Fault = "none" => \A r \in q : r.y = (IF r.p = 0 THEN r.x ELSE -r.x) /\ (r.sym => r.z = r.x)
=============================================================================
