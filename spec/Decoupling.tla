----------------------------- MODULE Decoupling -----------------------------
(***************************************************************************)
(* A mass calculated in a theory with heavy particles (fixed order) and in *)
(* the theory without them (C19).                                          *)
(*                                                                         *)
(* The coupling y of the theory without heavy particles and its quartic    *)
(* coupling follow from x of the full theory by matching, order by order   *)
(* in the loop parameter (tuples hold the coefficients):                   *)
(*                                                                         *)
(*    y = x + s1 + s2,        lam = l0 + d1 x^2 + d2 x^3 + d3 x^4          *)
(*                                                                         *)
(* and the mass is, with a large logarithm L,                              *)
(*                                                                         *)
(*    lam + a L y^2 + b L^2 y^3 + c L^3 y^4                                *)
(*                                                                         *)
(* The fixed-order calculation is this composition, expanded in x, plus    *)
(* terms suppressed by the ratio r of the light and heavy masses.  The     *)
(* effective calculation adds, order by order, the terms that were         *)
(* expanded by hand.  They agree in all orders if r = 0, and only then     *)
(* because the effective theory contains all terms of the matching.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Values, Ratios, Fault
N == 3
VARIABLES m, r, L, x, full, eft
vars == <<m, r, L, x, full, eft>>
Get(p, n) == IF n + 1 \in DOMAIN p THEN p[n + 1] ELSE 0
RECURSIVE Conv(_, _, _, _)
Conv(p, q, n, i) == IF i > n THEN 0 ELSE Get(p, i) * Get(q, n - i) + Conv(p, q, n, i + 1)
Mul(p, q) == <<Conv(p, q, 0, 0), Conv(p, q, 1, 0), Conv(p, q, 2, 0), Conv(p, q, 3, 0)>>
Shift(p, k) == [i \in 1..4 |-> Get(p, i - 1 - k)]
Scale(c, p) == [i \in 1..4 |-> c * Get(p, i - 1)]
Add(p, q) == [i \in 1..4 |-> Get(p, i - 1) + Get(q, i - 1)]

Init == /\ m \in [s1 : Values, s2 : Values, d1 : Values, d2 : {1}, d3 : {2}, a : Values, b : Values, c : {3}]
        /\ r \in Ratios /\ L \in {1, 2} /\ x \in {1, 3}
        /\ full = <<>> /\ eft = <<>>
Sq(a) == a * a
Cube(a) == a * a * a
\* the full theory
Y == <<x, m.s1, m.s2, 0>>
Lam == <<5, m.d1 * Sq(x), m.d2 * Cube(x), m.d3 * Sq(Sq(x))>>
Y2 == Mul(Y, Y)
Y3 == Mul(Y2, Y)
Y4 == Mul(Y2, Y2)
Mass == Add(Add(Lam, Shift(Scale(m.a * L, Y2), 1)), Add(Shift(Scale(m.b * L * L, Y3), 2), Shift(Scale(m.c * L * L * L, Y4), 3)))
\* what the effective theory lacks
Suppressed(n) == r * (n + 1)
FixedOrder == Len(full) <= N /\ full' = Append(full, Get(Mass, Len(full)) + Suppressed(Len(full))) /\ UNCHANGED <<m, r, L, x, eft>>
\* expanded by hand
Term(n) == CASE n = 0 -> 5
             [] n = 1 -> m.d1 * Sq(x) + m.a * L * Sq(x)
             [] n = 2 -> m.d2 * Cube(x) + m.b * L * L * Cube(x) + (IF Fault = "noshift" THEN 0 ELSE IF Fault = "sign" THEN -2 ELSE 2) * x * m.s1 * m.a * L
                         + (IF Fault = "twice" THEN m.d1 * Sq(x) ELSE 0)
             [] n = 3 -> m.d3 * Sq(Sq(x)) + m.c * L * L * L * Sq(Sq(x)) + m.b * L * L * 3 * Sq(x) * m.s1
                         + m.a * L * ((IF Fault = "nosquare" THEN 0 ELSE Sq(m.s1)) + 2 * x * m.s2)
Effective == Len(eft) <= N /\ eft' = Append(eft, Term(Len(eft))) /\ UNCHANGED <<m, r, L, x, full>>
Next == FixedOrder \/ Effective
Spec == Init /\ [][Next]_vars
Both == {n \in 1..(N + 1) : n <= Len(full) /\ n <= Len(eft)}
\* agreement up to what is suppressed, and none of it for infinitely heavy particles
Decouples == \A n \in Both : full[n] - eft[n] = Suppressed(n - 1)
Agree == r = 0 => \A n \in Both : full[n] = eft[n]
=============================================================================
