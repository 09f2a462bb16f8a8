------------------------------ MODULE Schemes ------------------------------
(***************************************************************************)
(* Threshold corrections in several renormalisation schemes (C14).         *)
(* The calculator knows the corrections in a reference scheme; requests in *)
(* the DR'-bar scheme are answered by closed formulas, requests in other   *)
(* schemes by a message and the unconverted value.  Corrections are        *)
(* polynomials in the stop mixing X; the conversion of lambda may be       *)
(* truncated in X by adding terms that cancel the dropped powers.          *)
(* Checked: every answer is the exact re-expansion, the conversion is an   *)
(* involution, answers never mix schemes, truncations keep exactly the     *)
(* lower powers of X.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Val, Depth, Bug
VARIABLES q, log, trunc
vars == <<q, log, trunc>>

\* polynomials in X up to X^8: the coefficient of X^n is the entry n + 1 (tuples, which TLC evaluates at once)
P == 1..9
Nine(f(_)) == <<f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)>>
PZero == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
PConst(c) == <<c, 0, 0, 0, 0, 0, 0, 0, 0>>
PAdd(a, b) == LET f(i) == a[i] + b[i] IN Nine(f)
PNeg(a) == LET f(i) == -a[i] IN Nine(f)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, n, i) == IF i > n THEN 0 ELSE (IF a[i] = 0 THEN 0 ELSE a[i] * b[n + 1 - i]) + Conv(a, b, n, i + 1)
PMul(a, b) == LET f(n) == Conv(a, b, n, 1) IN Nine(f)
POf(s) == LET f(i) == IF i \in DOMAIN s THEN s[i] ELSE 0 IN Nine(f)
S == INSTANCE Series WITH Add <- PAdd, Mul <- PMul, Neg <- PNeg, Zero <- PZero, One <- PConst(1)

\* powers of X that occur: y, l0 even up to 4, l1 up to 5
Init == /\ \E g, y0, y1, a, b, c, d, e \in Val :
             q = [g |-> PConst(g), y |-> POf(<<y0, y1>>), y2 |-> POf(<<1, y0, -a>>),
                  l0 |-> POf(<<a, 0, b, 0, c>>), l1 |-> POf(<<d, 1, b, -e, c, e>>), l2 |-> POf(<<e, d, 1, -1, d, 1>>)]
        /\ log = <<>> /\ trunc = 0

Times(n, a) == PMul(PConst(n), a)
\* the closed formulas of the calculator
Formula(c) ==
  CASE c = "g" -> PNeg(q.g)
    [] c = "y" -> PNeg(q.y)
    [] c = "y2" -> PAdd(PAdd(Times(2, PMul(q.g, q.y)), PMul(q.y, q.y)), PNeg(q.y2))
    [] c = "l0" -> q.l0
    [] c = "l1" -> PAdd(q.l1, Times(IF Bug = "Four" THEN -2 ELSE -4, PMul(q.l0, q.y)))
    [] c = "l2" -> PAdd(q.l2, PAdd(PMul(q.l1, PAdd(Times(-2, q.g), Times(-4, q.y))),
                        PMul(q.l0, PAdd(Times(8, PMul(q.g, q.y)), PAdd(Times(IF Bug = "NoInverse" THEN 6 ELSE 10, PMul(q.y, q.y)), Times(-4, q.y2))))))
Names == {"g", "y", "y2", "l0", "l1", "l2"}
Schms == {"ref", "drbar", "other"}
Answer(c, s) == CASE s = "ref" -> q[c]
                  [] s = "drbar" -> Formula(c)
                  [] s = "other" -> IF Bug = "Mixes" /\ c \in {"g", "y"} THEN Formula(c) ELSE q[c]
Query(c, s) == /\ Len(log) < Depth /\ trunc = 0
               /\ log' = Append(log, [c |-> c, s |-> s, val |-> Answer(c, s), said |-> (s = "other")])
               /\ UNCHANGED <<q, trunc>>

\* conversion of lambda from DR'-bar to the reference, as the calculator writes it
Full == LET l1 == PAdd(q.l1, Times(-4, PMul(q.y, q.l0)))
        IN Times(2, PAdd(PMul(q.l0, PAdd(Times(3, PMul(q.y, q.y)), Times(2, q.y2))), PMul(l1, PAdd(q.g, Times(2, q.y)))))
XtTerm(k) == LET f(i) == IF i = k + 1 THEN -Full[i] ELSE 0 IN Nine(f)
Shift(k) == IF k <= 3 THEN PAdd(Full, PAdd(XtTerm(4), PAdd(XtTerm(5), XtTerm(6))))
            ELSE PAdd(Full, PAdd(IF Bug = "DropsFour" THEN XtTerm(4) ELSE PZero, PAdd(XtTerm(5), XtTerm(6))))
Truncate(k) == /\ trunc = 0 /\ log = <<>> /\ trunc' = k /\ UNCHANGED <<q, log>>

Next == \/ \E c \in Names, s \in Schms : Query(c, s)
        \/ \E k \in {3, 4} : Truncate(k)
Spec == Init /\ [][Next]_vars

C(x) == S!Convert(x)
Reexpanded == \A i \in DOMAIN log : log[i].s = "drbar" => log[i].val = C(q)[log[i].c]
Involution == log = <<>> => C(C(q)) = q
Reported == \A i \in DOMAIN log : log[i].s \notin {"ref", "drbar"} => log[i].said /\ log[i].val = q[log[i].c]
Shifted == log = <<>> => Full = PAdd(q.l2, PNeg(C(q).l2))
Truncated == trunc # 0 => Shift(trunc) = (LET f(i) == IF i <= trunc + 1 THEN Full[i] ELSE 0 IN Nine(f))

Behaviour == PrintT("~BEH " \o ToJson([i \in DOMAIN log |-> [c |-> log[i].c, s |-> log[i].s]]))
Emit == Len(log) < Depth \/ Behaviour
=============================================================================
