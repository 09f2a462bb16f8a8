------------------------------ MODULE Sectors ------------------------------
(***************************************************************************)
(* Tree-level mass matrices of the MSSM, from the quantum numbers of the   *)
(* fields, over any commutative ring.  All squared masses of bosons are    *)
(* multiplied by 40 (Higgs bosons in addition by v^2), Yukawa couplings    *)
(* and inos are chosen such that no square roots appear:                   *)
(*   y = Yukawa/sqrt2,  charginos: multiplied by 2,                        *)
(*   neutralinos: multiplied by 2, with kap = sqrt(3/5), rt2 = sqrt2       *)
(* Parameters are a record of ring elements.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Mul(_, _), Neg(_), Of(_)

Sub(a, b) == Add(a, Neg(b))
Sq(a) == Mul(a, a)
N(n, a) == Mul(Of(n), a)

\* gauge bosons
V2(p) == Add(Sq(p.vu), Sq(p.vd))
MW2(p) == N(10, Mul(Sq(p.g2), V2(p)))
MZ2(p) == Add(MW2(p), N(6, Mul(Sq(p.g1), V2(p))))

(* sfermions: T = 2 T3, Y = 6 (hypercharge/2) of the doublet, Q = 3 charge *)
Field == [u |-> [T |-> 1, Y |-> 1, Q |-> 2, c |-> 3], d |-> [T |-> -1, Y |-> 1, Q |-> -1, c |-> 3],
          n |-> [T |-> 1, Y |-> -3, Q |-> 0, c |-> 1], e |-> [T |-> -1, Y |-> -3, Q |-> -3, c |-> 1]]
Cos(p) == Sub(Sq(p.vd), Sq(p.vu))
DL(p, f) == Mul(Cos(p), Sub(N(5 * Field[f].T, Sq(p.g2)), N(Field[f].Y, Sq(p.g1))))
DR(p, f) == Mul(Cos(p), N(2 * Field[f].Q, Sq(p.g1)))
\* vevs that gives mass to the field, and the other one
Own(p, f) == IF Field[f].T = 1 THEN p.vu ELSE p.vd
Other(p, f) == IF Field[f].T = 1 THEN p.vd ELSE p.vu
\* f: kind of field, y: its Yukawa coupling/sqrt2, A: its trilinear coupling, l, r: soft mass parameters
Sfermion(p, f, y, A, l, r) ==
  LET m2 == N(40, Sq(Mul(y, Own(p, f))))
      x == N(40, Mul(y, Sub(Mul(A, Own(p, f)), Mul(p.mu, Other(p, f)))))
  IN <<<<Add(N(40, l), Add(m2, DL(p, f))), x>>, <<x, Add(N(40, r), Add(m2, DR(p, f)))>>>>
Sneutrino(p, l) == Add(N(40, l), DL(p, "n"))

(* Higgs bosons, times 40 v^2; b = MA^2 vu vd *)
Higgs(p, s) ==  \* s = 1: CP-even, s = -1: CP-odd, with the gauge term of Feynman gauge
  LET v2 == V2(p)
      a(x, y) == N(40, Mul(p.mA2, Mul(x, y)))
      z(x, y) == Mul(MZ2(p), Mul(x, y))
      off == Neg(N(s, Add(a(p.vu, p.vd), N(s, z(p.vd, p.vu)))))
  IN <<<<Add(a(p.vu, p.vu), z(p.vd, p.vd)), off>>, <<off, Add(a(p.vd, p.vd), z(p.vu, p.vu))>>>>
Charged(p) == LET a(x, y) == N(40, Mul(p.mA2, Mul(x, y)))
                  w == Mul(MW2(p), V2(p))
              IN <<<<Add(a(p.vu, p.vu), w), a(p.vu, p.vd)>>, <<a(p.vu, p.vd), Add(a(p.vd, p.vd), w)>>>>

(* inos *)
Chargino(p) == <<<<N(2, p.M2), Mul(p.rt2, Mul(p.g2, p.vu))>>, <<Mul(p.rt2, Mul(p.g2, p.vd)), N(2, p.mu)>>>>
Neutralino(p) ==
  LET b(v) == Mul(p.kap, Mul(p.g1, v))  w(v) == Mul(p.g2, v)  o == Of(0)
  IN <<<<N(2, p.M1), o, Neg(b(p.vd)), b(p.vu)>>,
       <<o, N(2, p.M2), w(p.vd), Neg(w(p.vu))>>,
       <<Neg(b(p.vd)), w(p.vd), o, N(-2, p.mu)>>,
       <<b(p.vu), Neg(w(p.vu)), N(-2, p.mu), o>>>>

Names == <<"VZ", "VWm", "Ft", "Fb", "Ftau", "SveL", "SvmL", "SvtL", "Su", "Sd", "Sc", "Ss", "St", "Sb", "Se", "Sm", "Stau",
           "hh", "Ah", "Hpm", "Chi", "Cha">>
\* mass matrix (or mass) of a sector; generation g of soft parameters, Yukawa couplings of the first two generations are neglected
Matrix(p, s) ==
  LET o == Of(0)
      up(g, y) == Sfermion(p, "u", y, p.Au, p.mq2[g], p.mu2[g])
      down(g, y) == Sfermion(p, "d", y, p.Ad, p.mq2[g], p.md2[g])
      lep(g, y) == Sfermion(p, "e", y, p.Ae, p.ml2[g], p.me2[g])
  IN CASE s = "VZ" -> MZ2(p) [] s = "VWm" -> MW2(p)
       [] s = "Ft" -> Mul(p.yt, p.vu) [] s = "Fb" -> Mul(p.yb, p.vd) [] s = "Ftau" -> Mul(p.ytau, p.vd)
       [] s = "SveL" -> Sneutrino(p, p.ml2[1]) [] s = "SvmL" -> Sneutrino(p, p.ml2[2]) [] s = "SvtL" -> Sneutrino(p, p.ml2[3])
       [] s = "Su" -> up(1, o) [] s = "Sc" -> up(2, o) [] s = "St" -> up(3, p.yt)
       [] s = "Sd" -> down(1, o) [] s = "Ss" -> down(2, o) [] s = "Sb" -> down(3, p.yb)
       [] s = "Se" -> lep(1, o) [] s = "Sm" -> lep(2, o) [] s = "Stau" -> lep(3, p.ytau)
       [] s = "hh" -> Higgs(p, 1) [] s = "Ah" -> Higgs(p, -1) [] s = "Hpm" -> Charged(p)
       [] s = "Cha" -> Chargino(p) [] s = "Chi" -> Neutralino(p)
=============================================================================
