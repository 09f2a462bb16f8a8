----------------------------- MODULE Spectrum -----------------------------
(***************************************************************************)
(* The tree-level spectrum (C15).  A spectrum object holds parameters and, *)
(* per sector, masses and mixings calculated from them on request; sectors *)
(* do not depend on each other.  Diagonalisation is specified by a         *)
(* rotation (a, b)/r with a^2 + b^2 = r^2 and the eigenvalues in ascending *)
(* order.                                                                  *)
(* Checked: sum rules of the mass matrices (D-terms cancel in the sum over *)
(* a generation, isospin sum rule, supersymmetric limit, Goldstone         *)
(* bosons), diagonalisation reproduces the matrix in order, sectors are    *)
(* always consistent with the parameters at their last calculation.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, Grid, Sectors, Depth, Bug
VARIABLES par, got, log, diag
vars == <<par, got, log, diag>>

IAdd(a, b) == a + b
IMul(a, b) == a * b
INeg(a) == -a
IOf(a) == a
S == INSTANCE Sectors WITH Add <- IAdd, Mul <- IMul, Neg <- INeg, Of <- IOf
None == <<>>
Off == [m |-> <<>>, r2 |-> 0, w |-> <<>>, z |-> <<>>]

\* small integer parameter points
Point(g1, g2, vu, vd, y, A, mu, m, mA2) ==
  [g1 |-> g1, g2 |-> g2, vu |-> vu, vd |-> vd, yt |-> y, yb |-> 1 - y, ytau |-> y, Au |-> A, Ad |-> -A, Ae |-> 1, mu |-> mu,
   mq2 |-> <<m, 1, m + 2>>, mu2 |-> <<2, m, 1 + m>>, md2 |-> <<3, m, m>>, ml2 |-> <<m, 2, 1>>, me2 |-> <<1, m, 3 * m>>,
   mA2 |-> mA2, M1 |-> m, M2 |-> 2 - mA2, kap |-> 1, rt2 |-> 1]
All == IF Grid THEN {Point(g1, g2, vu, vd, y, A, mu, m, mA2) : g1 \in 0..2, g2 \in 0..2, vu \in 1..3, vd \in 1..3, y \in 0..1, A \in {-1, 0, 2}, mu \in {-2, 0, 1}, m \in 0..2, mA2 \in {0, 3}}
       ELSE {Point(k, 1, 1 + k, 1, 1, 2, 3 - k, 5 + k, 2) : k \in 1..Points}

Wrong(p, s) == IF Bug = "Hypercharge" /\ s = "Stau" THEN LET a == S!Matrix(p, s)  b == S!Sfermion(p, "d", p.ytau, p.Ae, p.ml2[3], p.me2[3])
                                                 IN <<a[1], <<a[2][1], b[2][2]>>>>
               ELSE IF Bug = "Gauge" /\ s = "Ah" THEN S!Higgs([p EXCEPT !.g1 = 0, !.g2 = 0], -1)
               ELSE IF Bug = "Swapped" /\ s = "St" THEN S!Sfermion(p, "u", p.yt, p.mu, p.mq2[3], p.mu2[3])
               ELSE S!Matrix(p, s)

\* an integer rotation, and the matrix with the given eigenvalues in that basis, times r^2
Rot == {<<1, 0, 1>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<0, 1, 1>>, <<12, -5, 13>>}
Turned(r, x, y) == LET a == r[1]  b == r[2] IN <<<<a*a*x + b*b*y, a*b*(x - y)>>, <<a*b*(x - y), b*b*x + a*a*y>>>>

Init == /\ par \in All /\ got = [s \in Sectors |-> None] /\ log = <<>> /\ diag = Off
Op(o) == /\ Len(log) < Depth /\ diag = Off /\ log' = Append(log, o)
Set(p) == ~Grid /\ Op([op |-> "par", p |-> p]) /\ par' = p /\ UNCHANGED <<got, diag>>
Calc(s) == Op([op |-> s]) /\ got' = [got EXCEPT ![s] = <<Wrong(par, s)>>] /\ UNCHANGED <<par, diag>>
Whole == /\ Op([op |-> "all"])
         /\ got' = [s \in Sectors |-> IF Bug = "Stale" /\ s = "hh" /\ got[s] # None THEN got[s] ELSE <<Wrong(par, s)>>]
         /\ UNCHANGED <<par, diag>>
\* the diagonalisation: eigenvalues in ascending order, rows of the mixing matrix (times r) are the eigenvectors
Diagonalize(r, x, y) ==
  /\ ~Grid /\ log = <<>> /\ diag = Off
  /\ LET sorted == IF Bug = "Order" THEN TRUE ELSE x <= y
         z == <<<<r[1], r[2]>>, <<-r[2], r[1]>>>>
     IN diag' = [m |-> Turned(r, x, y), r2 |-> r[3]*r[3], w |-> IF sorted THEN <<x, y>> ELSE <<y, x>>,
                 z |-> IF sorted \/ Bug = "Mixing" THEN z ELSE <<z[2], z[1]>>]
  /\ UNCHANGED <<par, got, log>>
Next == \/ \E p \in All : Set(p)
        \/ \E s \in Sectors : Calc(s)
        \/ Whole
        \/ \E r \in Rot, x, y \in -1..4 : Diagonalize(r, x, y)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- cached sectors
Last(s) == LET n == Len(log)
               k == {i \in 1..n : log[i].op \in {s, "all"}}
           IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : j <= i
At(n) == LET k == {i \in 1..n : log[i].op = "par"}
         IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : j <= i
Consistent == \A s \in Sectors :
  Last(s) # 0 => LET k == At(Last(s)) IN k # 0 => got[s] = <<S!Matrix(log[k].p, s)>>

\* ------------------------------------------------------------- diagonalisation
Diagonalized == diag # Off =>
  LET z == diag.z  w == diag.w
  IN /\ w[1] <= w[2]
     /\ \A i, j \in 1..2 : z[1][i]*w[1]*z[1][j] + z[2][i]*w[2]*z[2][j] = diag.m[i][j]
     /\ \A i, j \in 1..2 : z[i][1]*z[j][1] + z[i][2]*z[j][2] = IF i = j THEN diag.r2 ELSE 0

\* ------------------------------------------------------------- sum rules of the mass matrices
Tr(m) == m[1][1] + m[2][2]
Det(m) == m[1][1]*m[2][2] - m[1][2]*m[2][1]
M(s) == Wrong(par, s)
Soft3 == 40*(6*par.mq2[3] + 3*par.mu2[3] + 3*par.md2[3] + 2*par.ml2[3] + par.me2[3])
\* supertrace of the third generation: only soft parameters remain
SuperTrace == 3*(Tr(M("St")) - 80*M("Ft")*M("Ft") + Tr(M("Sb")) - 80*M("Fb")*M("Fb")) + Tr(M("Stau")) - 80*M("Ftau")*M("Ftau") + M("SvtL") = Soft3
\* W mass in doublets
Isospin == LET c == par.vd*par.vd - par.vu*par.vu
           IN /\ M("Su")[1][1] - M("Sd")[1][1] = 10*par.g2*par.g2*c
              /\ M("SveL") - M("Se")[1][1] = 10*par.g2*par.g2*c
\* Goldstone bosons: (vd, -vu) is an eigenvector with the mass of the gauge boson
Goldstone == /\ \A i \in 1..2 : LET m == M("Ah")  v == <<par.vd, -par.vu>>
                                IN m[i][1]*v[1] + m[i][2]*v[2] = S!MZ2(par)*S!V2(par)*v[i]
             /\ \A i \in 1..2 : LET m == M("Hpm")  v == <<par.vd, -par.vu>>
                                IN m[i][1]*v[1] + m[i][2]*v[2] = S!MW2(par)*S!V2(par)*v[i]
             /\ Tr(M("Ah")) = S!V2(par)*(40*par.mA2 + S!MZ2(par))
             /\ Tr(M("Hpm")) = S!V2(par)*(40*par.mA2 + 2*S!MW2(par))
HiggsRule == /\ Tr(M("hh")) = S!V2(par)*(40*par.mA2 + S!MZ2(par))
             /\ Det(M("hh")) = 40*par.mA2*S!MZ2(par)*(par.vu*par.vu - par.vd*par.vd)*(par.vu*par.vu - par.vd*par.vd)
\* without supersymmetry breaking sfermions are as heavy as fermions
Susy == (par.mq2[3] = 2 /\ par.vu = par.vd /\ par.mu = 0 /\ par.Au = 0) =>
          M("St") = <<<<80 + 40*M("Ft")*M("Ft"), 0>>, <<0, 40 + 40*M("Ft")*M("Ft")>>>>
\* mixing is proportional to the fermion mass and to A - mu/tan(beta)
Mixing == M("St")[1][2] = 40*par.yt*(par.Au*par.vu - par.mu*par.vd) /\ M("Stau")[1][2] = 40*par.ytau*(par.Ae*par.vd - par.mu*par.vu)
Gaugeless == (par.g1 = 0 /\ par.g2 = 0) => Det(M("hh")) = 0 /\ M("VZ") = 0 /\ M("Su")[1][1] = 40*par.mq2[1]

Beh == PrintT("~BEH " \o ToJson([i \in DOMAIN log |-> [op |-> log[i].op, p |-> IF log[i].op = "par" THEN log[i].p.g1 ELSE 0]]))
Emit == Len(log) < Depth \/ Beh
=============================================================================
