------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Power series c[1] + c[2] w + c[3] w^2 in the strong coupling w = g3^2,   *)
(* over any commutative ring, and the conversion of threshold corrections  *)
(* between couplings of the full theory and of the effective theory.       *)
(*                                                                         *)
(* Reference quantities q: with u = g3^2 and yt of the effective theory     *)
(*     g3(full) = g3 (1 + q.g u)                                            *)
(*     yt(full) = yt (1 + q.y u + q.y2 u^2)                                 *)
(*     lambda   = yt(full)^4 (q.l0 + q.l1 u + q.l2 u^2)                     *)
(* are to be expressed by couplings of the other theory.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Mul(_, _), Neg(_), Zero, One

Plus(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
Times(a, b) == <<Mul(a[1], b[1]), Add(Mul(a[1], b[2]), Mul(a[2], b[1])), Add(Add(Mul(a[1], b[3]), Mul(a[2], b[2])), Mul(a[3], b[1]))>>
Scale(x, a) == <<Mul(x, a[1]), Mul(x, a[2]), Mul(x, a[3])>>
\* 1/(1 + ...)
Inverse(a) == <<One, Neg(a[2]), Add(Mul(a[2], a[2]), Neg(a[3]))>>
\* value of the series a at the series u (which starts at first order)
At(a, u) == Plus(Plus(<<a[1], Zero, Zero>>, Scale(a[2], u)), Scale(a[3], Times(u, u)))

Twice(x) == Add(x, x)
\* the same quantities in terms of the couplings on the other side
Convert(q) ==
  LET u == <<Zero, One, Neg(Twice(q.g))>>
      y == Inverse(At(<<One, q.y, q.y2>>, u))
      l == Times(Times(Times(y, y), Times(y, y)), At(<<q.l0, q.l1, q.l2>>, u))
  IN [g |-> Neg(q.g), y |-> y[2], y2 |-> y[3], l0 |-> l[1], l1 |-> l[2], l2 |-> l[3]]
=============================================================================
