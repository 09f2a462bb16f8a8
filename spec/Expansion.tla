------------------------------ MODULE Expansion ------------------------------
(***************************************************************************)
(* Truncated expansions of a loop correction in small mass differences     *)
(* (C21).                                                                  *)
(*                                                                         *)
(* The exact correction is a polynomial F(a, b) of degree Deg in the       *)
(* distances a, b of two masses from a common mass, F[i][j] the            *)
(* coefficient of a^i b^j.  A hierarchy expands it around one of the       *)
(* masses, i.e. in other variables:                                        *)
(*                                                                         *)
(*     "h"   u = a,     v = b           (around the common mass)           *)
(*     "g"   u = a - b, v = b           (around the mass at distance b)    *)
(*     "q"   u = a,     v = b - a       (around the mass at distance a)    *)
(*                                                                         *)
(* and drops all terms above Order.  The coefficients of an expansion are  *)
(* obtained by substituting the inverse change of variables.  The masses   *)
(* then approach each other: the distances are a = A/2^n, b = B/2^n.       *)
(*                                                                         *)
(* Two hierarchies that cover the same masses, and a hierarchy and the     *)
(* exact correction, agree up to terms of degree Order + 1: each time the  *)
(* distances are halved, the bound on the deviation drops by 2^(Order+1).  *)
(* A hierarchy with a wrong or missing coefficient, a wrong variable or    *)
(* one order less (Fault) violates this.                                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Deg, Order, Coeffs, Dist, Halvings, Fault

D == 0..Deg
VARIABLES F,       \* coefficients of the exact correction
          at,      \* <<A, B>>
          n,       \* halvings so far
          known    \* expansions derived so far: name -> coefficients
vars == <<F, at, n, known>>

RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN 1 ELSE x * IPow(x, k - 1)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
Binom(k, r) == Fact(k) \div (Fact(r) * Fact(k - r))
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Pairs == {q \in D \X D : q[1] + q[2] <= Deg}

\* a = u + v, b = v:  a^i b^j = sum_r C(i, r) u^r v^(i - r + j)
InG(r, s) == LET S == {q \in Pairs : q[1] >= r /\ q[1] + q[2] = r + s} IN Sum(S, [q \in S |-> F[q[1]][q[2]] * Binom(q[1], r)])
\* a = u, b = v + u:  a^i b^j = sum_s C(j, s) u^(i + j - s) v^s
InQ(r, s) == LET S == {q \in Pairs : q[2] >= s /\ q[1] + q[2] = r + s} IN Sum(S, [q \in S |-> F[q[1]][q[2]] * Binom(q[2], s)])
Exactly(h) == [r \in D |-> [s \in D |-> IF r + s > Deg THEN 0 ELSE CASE h = "h" -> F[r][s] [] h = "g" -> InG(r, s) [] h = "q" -> InQ(r, s)]]
Cut(C, o) == [r \in D |-> [s \in D |-> IF r + s > o THEN 0 ELSE C[r][s]]]

Derived(h) ==
  LET C == Cut(Exactly(h), Order) IN
  IF h # "g" THEN C
  ELSE CASE Fault = "none" -> C
         [] Fault = "coefficient" -> [C EXCEPT ![1][1] = @ + 1]
         [] Fault = "missing" -> [C EXCEPT ![0][Order] = 0]
         [] Fault = "variable" -> Cut(Exactly("h"), Order)
         [] Fault = "loworder" -> Cut(C, Order - 1)

Hs == {"h", "g", "q"}
Init == /\ F \in {f \in [D -> [D -> Coeffs]] : \A i, j \in D : i + j > Deg => f[i][j] = 0}
        /\ at \in Dist /\ n = 0 /\ known = <<>>
Expand(h) == /\ h \notin DOMAIN known /\ n = 0 /\ known' = known @@ (h :> Derived(h)) /\ UNCHANGED <<F, at, n>>
Approach == /\ DOMAIN known = Hs /\ n < Halvings /\ n' = n + 1 /\ UNCHANGED <<F, at, known>>
Next == (\E h \in Hs : Expand(h)) \/ Approach
Spec == Init /\ [][Next]_vars

\* 2^(n Deg) times the value at the current distances
Vars(h) == CASE h = "g" -> <<at[1] - at[2], at[2]>> [] h = "q" -> <<at[1], at[2] - at[1]>> [] OTHER -> at
Value(C, h) == LET x == Vars(h) IN Sum(Pairs, [q \in Pairs |-> C[q[1]][q[2]] * IPow(x[1], q[1]) * IPow(x[2], q[2]) * IPow(2, n * (Deg - q[1] - q[2]))])
Abs(x) == IF x < 0 THEN -x ELSE x
Big(x) == IF Abs(x[1]) > Abs(x[2]) THEN Abs(x[1]) ELSE Abs(x[2])
\* size of the terms of degree k
Size(C, h, k) == LET S == {q \in Pairs : q[1] + q[2] = k} IN Sum(S, [q \in S |-> Abs(C[q[1]][q[2]])]) * IPow(Big(Vars(h)), k)
\* what was dropped, if every term above Order scales with its power of the distance
Dropped(h) == LET S == {k \in D : k > Order} IN Sum(S, [k \in S |-> Size(Exactly(h), h, k) * IPow(2, n * (Deg - k))])

SameFunction == \A h \in Hs : Value(Exactly(h), h) = Value(F, "h")
Converges == \A h \in DOMAIN known : Abs(Value(known[h], h) - Value(F, "h")) <= Dropped(h)
\* without knowing the exact correction: the expansions of the same masses agree with each other
Siblings == \A h, k \in DOMAIN known : Abs(Value(known[h], h) - Value(known[k], k)) <= Dropped(h) + Dropped(k)
Agree == SameFunction /\ Converges /\ Siblings

\* constants for the model checker
Cs == {0, 1}
Ds == {<<1, 2>>, <<-2, 3>>}
=============================================================================
