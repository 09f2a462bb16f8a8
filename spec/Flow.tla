-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Renormalisation-scale independence (C20).                               *)
(*                                                                         *)
(* An observable M(x, L) = sum_n g^n M_n(x, L) of a running parameter x,   *)
(* L the logarithm of the renormalisation scale, g the loop factor.  M_n   *)
(* is stored by its coefficients M[n][j][k] of x^j/j! L^k/k!, so that      *)
(* derivatives are shifts.  dx/dL = sum_n g^n Beta[n].                     *)
(*                                                                         *)
(* A calculation starts from the tree level and adds one loop order after  *)
(* the other.  The scale-independent part of an order is free (it is what  *)
(* a diagrammatic calculation provides), its logarithms are fixed by the   *)
(* lower orders.  The parameters may be run to another scale at any time.  *)
(*                                                                         *)
(* Then (Invariant): the orders known so far cancel order by order when    *)
(* the scale is changed and the parameter is run along, by any distance;   *)
(* the leading logarithms are those of the tree level at the new scale.    *)
(* Broken calculations (Fault): a loop order that misses the running of    *)
(* the order below, that uses the beta function of the order below only,   *)
(* or has a logarithm of the wrong sign or size.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Orders,      \* highest loop order
          Consts,      \* values of free coefficients
          Betas,       \* values of the coefficients of the beta function
          Steps,       \* distances the scale is moved by
          Fault        \* "none" or the name of a broken calculation

XDeg == 2
X == 0..XDeg
LDeg == Orders
K == 0..LDeg

VARIABLES loops,   \* loop order reached
          M,       \* coefficients
          beta,    \* beta function
          at       \* distance the parameters have been run by
vars == <<loops, M, beta, at>>

Zero == [j \in X |-> [k \in K |-> 0]]
DX(A) == [j \in X |-> [k \in K |-> IF j = XDeg THEN 0 ELSE A[j + 1][k]]]
DL(A) == [j \in X |-> [k \in K |-> IF k = LDeg THEN 0 ELSE A[j][k + 1]]]
Times(c, A) == [j \in X |-> [k \in K |-> c * A[j][k]]]
Plus(A, B) == [j \in X |-> [k \in K |-> A[j][k] + B[j][k]]]
IntL(A, free) == [j \in X |-> [k \in K |-> IF k = 0 THEN free[j] ELSE A[j][k - 1]]]

\* what the logarithms of order n must derive to
RECURSIVE Source(_, _, _)
Source(n, m, skip) == IF m > n THEN Zero ELSE Plus(IF m \in skip THEN Zero ELSE Times(-beta[m], DX(M[n - m])), Source(n, m + 1, skip))

Rhs(n) == CASE Fault = "none" -> Source(n, 1, {})
            [] Fault = "norunning" -> IF n = 1 THEN Source(n, 1, {}) ELSE Source(n, 1, {1})
            [] Fault = "onelooprge" -> Source(n, 1, 2..Orders)
            [] Fault = "wrongsign" -> IF n = Orders THEN Times(-1, Source(n, 1, {})) ELSE Source(n, 1, {})
            [] Fault = "doublelog" -> LET S == Source(n, 1, {}) IN [S EXCEPT ![0] = [S[0] EXCEPT ![1] = 2 * S[0][1] ]]

Init == /\ loops = 0 /\ at = 0
        /\ beta \in [1..Orders -> Betas]
        /\ \E t \in [X -> Consts] : M = [n \in 0..Orders |-> IF n = 0 THEN [j \in X |-> [k \in K |-> IF k = 0 THEN t[j] ELSE 0]] ELSE Zero]
AddLoop(c) == LET n == loops + 1 IN
  /\ loops < Orders
  /\ M' = [M EXCEPT ![n] = IntL(Rhs(n), [j \in X |-> IF j = 0 THEN c[1] ELSE IF j = 1 THEN c[2] ELSE 0])]
  /\ loops' = n /\ UNCHANGED <<beta, at>>
Run(h) == /\ at = 0 /\ at' = h /\ UNCHANGED <<loops, M, beta>>
Next == (\E c \in Consts \X Consts : AddLoop(c)) \/ (\E h \in Steps : Run(h))
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------- polynomials in g, truncated at Orders
G == 0..Orders
RECURSIVE Conv(_, _, _, _)
Conv(a, b, n, i) == IF i > n THEN 0 ELSE a[i] * b[n - i] + Conv(a, b, n, i + 1)
Mul(a, b) == [n \in G |-> Conv(a, b, n, 0)]
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN [i \in G |-> IF i = 0 THEN 1 ELSE 0] ELSE Mul(a, Pow(a, n - 1))
Fact(n) == CASE n = 0 -> 1 [] n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 6
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
\* 12 M_n(x, L) for x a polynomial in g
RECURSIVE SumK(_, _, _)
SumK(c, L, k) == IF k > LDeg THEN 0 ELSE (6 \div Fact(k)) * IPow(L, k) * c[k] + SumK(c, L, k + 1)
RECURSIVE SumX(_, _, _, _)
SumX(A, x, L, j) == IF j > XDeg THEN [n \in G |-> 0]
                    ELSE LET p == Pow(x, j)  s == SumK(A[j], L, 0) * (2 \div Fact(j)) r == SumX(A, x, L, j + 1) IN [n \in G |-> s * p[n] + r[n]]
\* sum of the orders known, at parameter x (polynomial in g) and scale L
RECURSIVE Total(_, _, _)
Total(x, L, m) == IF m > loops THEN [n \in G |-> 0]
                  ELSE LET v == SumX(M[m], x, L, 0)  r == Total(x, L, m + 1) IN [n \in G |-> r[n] + (IF n >= m THEN v[n - m] ELSE 0)]
Ran(x0, h) == [n \in G |-> IF n = 0 THEN x0 ELSE h * beta[n]]

\* observable: the same Higgs mass at both scales up to the first order not included
SameMass == \A x0 \in {1, 2} : \A L0 \in {1} :
               LET a == Total(Ran(x0, 0), L0, 0)  b == Total(Ran(x0, at), L0 + at, 0) IN \A n \in 0..loops : a[n] = b[n]
\* the same statement for the derivatives: what the trace specification checks
Cancels == \A n \in 1..loops : DL(M[n]) = Source(n, 1, {})
\* leading logarithms: (-beta d/dx)^n of the tree level
RECURSIVE Lead(_)
Lead(n) == IF n = 0 THEN M[0] ELSE Times(-beta[1], DX(Lead(n - 1)))
LeadingLogs == \A n \in 1..loops : n <= XDeg => \A j \in X : M[n][j][n] = Lead(n)[j][0]
\* no new logarithms: order n has at most n powers
Degree == \A n \in 0..loops : \A j \in X : \A k \in K : k > n => M[n][j][k] = 0
Invariant == SameMass /\ Cancels /\ LeadingLogs /\ Degree
=============================================================================
