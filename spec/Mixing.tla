------------------------------- MODULE Mixing -------------------------------
(***************************************************************************)
(* Corrections without higgsinos to the Higgs mass matrix (C24).           *)
(*                                                                         *)
(* Loops of top quarks, stops, gluinos give a potential of the two neutral *)
(* Higgs fields (h1, h2), here a sum of terms q Z^j h2^k, in which mu and  *)
(* the trilinear coupling A occur only in the mixing of the stops,         *)
(*                          Z = A h2 - mu h1.                              *)
(* The mass matrix consists of the second derivatives at the vacuum        *)
(* (c, s), minus R (s^2, -s c, c^2), which removes the correction to the   *)
(* mass of the CP-odd Higgs boson.                                         *)
(*                                                                         *)
(* A calculation adds the terms one by one.  mu and A may be moved         *)
(* together at any time, so that X = A s - mu c is kept.                   *)
(* Then (DependsOnMixing) the mass along the vacuum, (c, s) M (c, s),      *)
(* depends on X only, and is the second derivative along the vacuum, where *)
(* Z^j h2^k goes with the power j + k of the field.                        *)
(* Broken calculations (Fault): an element with a lost factor, A in place  *)
(* of X, the CP-odd term with the wrong sign, a term of the higgsinos.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Vacua, Mus, As, Powers, Coeffs, MaxTerms, Steps, Fault
\* values of the constants
Vs == {<<1, 2>>, <<2, 1>>, <<1, 3>>}
Ms == {-2, 0, 1}
Bs == {-1, 2}
Qs == {1, -3}

VARIABLES vac, mu, a, terms, cp, start, moves
vars == <<vac, mu, a, terms, cp, start, moves>>
c == vac[1]
s == vac[2]
X(m, b) == b * s - m * c
RECURSIVE IPow(_, _)
IPow(x, k) == IF k <= 0 THEN 1 ELSE x * IPow(x, k - 1)
\* derivatives of Z^j h^k with respect to Z and h at the vacuum
ZZ(z, j, k) == j * (j - 1) * IPow(z, j - 2) * IPow(s, k)
ZH(z, j, k) == j * k * IPow(z, j - 1) * IPow(s, k - 1)
HH(z, j, k) == k * (k - 1) * IPow(z, j) * IPow(s, k - 2)
\* dZ/dh1 = -mu, dZ/dh2 = A
M11(t, m, b) == t[3] * m * m * ZZ(X(m, b), t[1], t[2])
M12(t, m, b) == LET z == X(m, b) IN t[3] * (-m) * (b * ZZ(z, t[1], t[2]) + (IF Fault = "factor" THEN 2 ELSE 1) * ZH(z, t[1], t[2]))
M22(t, m, b) == LET z == IF Fault = "argument" THEN b * s ELSE X(m, b)
                IN t[3] * (b * b * ZZ(z, t[1], t[2]) + 2 * b * ZH(z, t[1], t[2]) + HH(z, t[1], t[2])) + (IF Fault = "higgsino" THEN t[3] * m * m ELSE 0)
Along(x, y, z) == c * c * x + 2 * c * s * y + s * s * z
OddAlong == LET r == cp IN Along(-r * s * s, (IF Fault = "odd" THEN -1 ELSE 1) * r * s * c, -r * c * c)
RECURSIVE Total(_, _, _)
Total(ts, m, b) == IF ts = <<>> THEN 0 ELSE LET t == Head(ts) IN Along(M11(t, m, b), M12(t, m, b), M22(t, m, b)) + Total(Tail(ts), m, b)
Mass(m, b) == Total(terms, m, b) + OddAlong
RECURSIVE Ray(_)
Ray(ts) == IF ts = <<>> THEN 0 ELSE LET t == Head(ts) n == t[1] + t[2] IN t[3] * n * (n - 1) * IPow(X(mu, a), t[1]) * IPow(s, t[2]) + Ray(Tail(ts))

Init == /\ vac \in Vacua /\ mu \in Mus /\ a \in As /\ terms = <<>> /\ cp = 0 /\ start = <<mu, a>> /\ moves = 0
AddTerm == /\ Len(terms) < MaxTerms
           /\ \E j \in Powers, k \in Powers, q \in Coeffs : terms' = Append(terms, <<j, k, q>>)
           /\ UNCHANGED <<vac, mu, a, cp, start, moves>>
Subtract == /\ cp = 0 /\ cp' \in Coeffs /\ UNCHANGED <<vac, mu, a, terms, start, moves>>
Move == /\ moves < Steps /\ moves' = moves + 1
        /\ \E d \in {-1, 2} : mu' = mu + d * s /\ a' = a + d * c
        /\ UNCHANGED <<vac, terms, cp, start>>
Next == AddTerm \/ Subtract \/ Move
Spec == Init /\ [][Next]_vars
KeepsMixing == X(mu, a) = X(start[1], start[2])
DependsOnMixing == Mass(mu, a) = Mass(start[1], start[2])
AlongVacuum == Mass(mu, a) = Ray(terms)
=============================================================================
