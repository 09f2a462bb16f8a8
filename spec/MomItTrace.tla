----------------------------- MODULE MomItTrace -----------------------------
(***************************************************************************)
(* Validates recorded fixed-order calculations of the Higgs mass (C16).    *)
(*                                                                         *)
(* Modes   one point, all combinations of momentum treatment and           *)
(*         diagonalisation.  The one-loop correction d along the orbit     *)
(*         p(1) = tree, p(n+1) = eigenvalue of m0 + d(p(n)) is given (to   *)
(*         a fixed point or the last allowed step).  The momentum          *)
(*         iteration must end as in MomIt.tla, and masses must be what     *)
(*         order-by-order or numerical diagonalisation of the recorded     *)
(*         matrices gives.                                                 *)
(* Diag    the eigenvalues of a sum of matrices, order by order            *)
(*                                                                         *)
(* Symmetric matrices are <<(1,1), (1,2), (2,2)>>.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.name, l>>) /\ FALSE
Ev(k) == l <= Len(Trace) /\ e.event = k /\ l' = l + 1
Sq(a) == FMul(a, a)
Add(m, n) == <<FAdd(m[1], n[1]), FAdd(m[2], n[2]), FAdd(m[3], n[3])>>
Sub(m, n) == <<FSub(m[1], n[1]), FSub(m[2], n[2]), FSub(m[3], n[3])>>
Scale(c, m) == <<FMul(c, m[1]), FMul(c, m[2]), FMul(c, m[3])>>
Mag(m) == FSumAbs(m)
Zero == <<"0", "0", "0">>
Close(m, n, tol) == \A i \in 1..3 : FLe(FAbs(FSub(m[i], n[i])), tol)
AllFinite(m) == \A i \in DOMAIN m : FFinite(m[i])

\* eigenvalue of smaller magnitude
Small(m) ==
  LET t == FMul("0.5", FAdd(m[1], m[3]))
      r == FSqrt(FAdd(Sq(FMul("0.5", FSub(m[1], m[3]))), Sq(m[2])))
      big == IF FLe("0", t) THEN FAdd(t, r) ELSE FSub(t, r)
  IN FDiv(FSub(FMul(m[1], m[3]), Sq(m[2])), big)
\* first and second-order contribution to the eigenvalue l0 of m0 + m1 + m2 (from the characteristic polynomial)
First(m0, l0, m1) ==
  LET a == FSub(m0[1], l0)  d == FSub(m0[3], l0)
  IN FDiv(FSum(<<FMul(a, m1[3]), FMul(d, m1[1]), FProd(<<"-2", m0[2], m1[2]>>)>>), FAdd(a, d))
Second(m0, l0, m1, l1, m2) ==
  LET a == FSub(m0[1], l0)  d == FSub(m0[3], l0)
  IN FDiv(FSum(<<FMul(a, m2[3]), FMul(d, m2[1]), FProd(<<"-2", m0[2], m2[2]>>), FMul(FSub(m1[1], l1), FSub(m1[3], l1)), FNeg(Sq(m1[2]))>>), FAdd(a, d))

\* ------------------------------------------------------------- momentum iteration
M0 == e.m0
D(n) == e.d[IF n > Len(e.d) THEN Len(e.d) ELSE n]
P(n) == e.p[IF n > Len(e.p) THEN Len(e.p) ELSE n]
Orbit == \A n \in DOMAIN e.p :
  LET next == Small(Add(M0, D(n)))
      tol == FMul("1e-11", FAdd(Mag(M0), Mag(D(n))))
  IN /\ n = 1 => FClose(P(1), Small(M0), "0", tol)
     /\ IF n < Len(e.p) THEN FClose(P(n + 1), next, "0", tol) ELSE n = e.max + 1 \/ FClose(P(n), next, "0", tol)
Change(n) == FDiv(FAbs(FSub(P(n + 1), P(n))), FMax(FAbs(P(n + 1)), FAbs(P(n))))
Converged(n) == FLt(Change(n), e.prec)
\* too close to call
Unclear == \E n \in 1..Len(e.p) : n <= e.max /\ FLt(FAbs(FSub(Change(n), e.prec)), FAdd(FMul("1e-4", e.prec), "1e-14"))
\* step at which the iteration must end
Last == IF \E n \in 1..Len(e.p) : n <= e.max /\ Converged(n) THEN CHOOSE n \in 1..Len(e.p) : Converged(n) /\ \A k \in 1..(n - 1) : ~Converged(k)
        ELSE e.max
IterTol == FMul("1e-9", FAdd(Mag(D(1)), FMul("1e-4", Mag(M0))))
Iterated ==
  IF e.max = 0 THEN Chk("no iteration, no correction", Close(e.num, Zero, IterTol))
  ELSE Unclear \/ (\E n \in {Last} : Chk(<<"end of the iteration", n>>, Close(e.num, Sub(D(n), D(1)), IterTol))) = TRUE

\* ------------------------------------------------------------- expansion in the momentum
Gaugeless == FLt(e.g[1], "1e-3") /\ FLt(e.g[2], "1e-3")
Expanded ==
  LET l0 == Small(e.m0gl)
      x == Scale(First(e.m0gl, l0, e.gl), e.deriv)
  IN /\ Chk("massless at tree level without gauge couplings", FLe(FAbs(l0), FMul("1e-12", Mag(e.m0gl))))
     /\ Chk("expansion in the momentum", Close(e.pert, x, FAdd(FMul("1e-8", Mag(x)), "1e-12")))
     /\ Gaugeless => /\ Chk("one loop without momentum", Close(e.gl, e.zero, FMul("3e-6", Mag(e.zero))))
                     /\ Chk("derivative", Close(Scale(FMul("2", e.h[1]), e.deriv), Sub(Sub(Scale("4", e.one), Scale("3", e.zero)), e.twice),
                                                FAdd(FProd(<<"1e-6", e.h[1], Mag(e.deriv)>>), FMul("1e-11", Mag(e.zero)))))

\* ------------------------------------------------------------- two loops
On == << ~FLt(FAbs(e.g[3]), "1e-10"), ~FLt(FAbs(e.g[4]), "1e-10"), ~FLt(FAbs(e.g[3]), "1e-10"), ~FLt(FAbs(e.g[5]), "1e-10"),
         ~FLt(FAbs(e.g[4]), "1e-10") /\ ~FLt(FAbs(e.g[5]), "1e-10") >>
Part(i) == IF On[i] THEN e.two[i] ELSE Zero
Off == Add(Add(Add(Part(1), Part(2)), Add(Part(3), Part(4))), Part(5))
OffSize == FSum([i \in 1..5 |-> Mag(Part(i))])
Mode(it, dg) == e.modes[CHOOSE i \in DOMAIN e.modes : e.modes[i].it = it /\ e.modes[i].dg = dg]
Its == {"off", "pert", "num"}
Dgs == {"pert", "num"}
TwoLoop(it) == CASE it = "off" -> Off [] it = "pert" -> Add(Off, e.pert) [] it = "num" -> Add(Off, e.num)
TwoTol(it) == FAdd(FMul("1e-8", FAdd(OffSize, Mag(Sub(TwoLoop(it), Off)))), "1e-10")

\* ------------------------------------------------------------- masses
Orders(m) ==
  /\ Chk(<<"symmetric", m.it>>, m.sym)
  /\ Chk(<<"finite", m.it, m.dg>>, AllFinite(m.m))
  /\ Chk(<<"two-loop corrections", m.it, m.dg>>, Close(m.d2, TwoLoop(m.it), TwoTol(m.it)))
  /\ Chk(<<"tree", m.it, m.dg>>, FClose(m.m[1], Small(M0), "0", FMul("1e-11", Mag(M0))))
  /\ IF m.dg = "pert" THEN
       LET l0 == Small(M0)  g0 == Small(e.m0gl)  g1 == First(e.m0gl, g0, e.gl)
           tol1 == FMul("1e-9", Mag(D(1)))
           tol2 == FMul("1e-8", FAdd(Mag(m.d2), FDiv(Sq(Mag(e.gl)), Mag(e.m0gl))))
       IN /\ Chk(<<"one loop, order by order", m.it>>, FClose(m.m[2], First(M0, l0, D(1)), "0", FAdd(tol1, "1e-10")))
          /\ Chk(<<"two loops, order by order", m.it>>, FClose(m.m[3], Second(e.m0gl, g0, e.gl, g1, m.d2), "0", FAdd(tol2, "1e-10")))
     ELSE
       LET M1 == Add(M0, D(1))  M2 == Add(M1, m.d2)
           tol == FMul("1e-10", FSum(<<Mag(M0), Mag(D(1)), Mag(m.d2)>>))
       IN /\ Chk(<<"one loop, numerical", m.it>>, FClose(m.m[2], FSub(Small(M1), Small(M0)), "0", tol))
          /\ Chk(<<"two loops, numerical", m.it>>, FClose(m.m[3], FSub(Small(M2), Small(M1)), "0", tol))
Weak == \A i \in 3..5 : FLt(FAbs(e.g[i]), "1e-10")
Modes ==
  /\ Ev("Modes")
  /\ Chk("momenta", Orbit)
  /\ Iterated
  /\ Expanded
  /\ {<<e.modes[i].it, e.modes[i].dg>> : i \in DOMAIN e.modes} = Its \X Dgs
  /\ \A i \in DOMAIN e.modes : Orders(e.modes[i])
  \* nothing couples
  /\ Weak => Chk("no Yukawa couplings, no corrections", AllFinite(Mode("off", "pert").d2) /\ \A m \in {Mode("off", "pert").d2, e.gl, e.pert} : FEq(Mag(m), "0"))

\* ------------------------------------------------------------- given matrices
Mk(k) == e.m[k + 1]
L(k, i) == e.l[k + 1][i]
\* order n of det(sum_k (m_k - l_k)) = 0
Det(n, i) == FSum([k \in 1..(n + 1) |-> FSub(FMul(FSub(Mk(k - 1)[1], L(k - 1, i)), FSub(Mk(n - k + 1)[3], L(n - k + 1, i))), FMul(Mk(k - 1)[2], Mk(n - k + 1)[2]))])
DetTol(n, i) == FMul("1e-11", FSum([k \in 1..(n + 1) |-> FMul(FAdd(Mag(Mk(k - 1)), FAbs(L(k - 1, i))), FAdd(Mag(Mk(n - k + 1)), FAbs(L(n - k + 1, i))))]))
Diag ==
  /\ Ev("Diag")
  /\ Chk("ordered", FLe(FAbs(e.w[1]), FAbs(e.w[2])))
  /\ Chk("same eigenvalues", LET s == <<FMin(e.w[1], e.w[2]), FMax(e.w[1], e.w[2])>> IN \A i \in 1..2 : FClose(s[i], L(0, i), "0", FMul("1e-11", Mag(Mk(0)))))
  /\ \A n \in 0..3 : \A i \in 1..2 : Chk(<<"order", n, "eigenvalue", i>>, FLe(FAbs(Det(n, i)), DetTol(n, i)))
  /\ \A n \in 0..3 : Chk(<<"trace, order", n>>, FClose(FAdd(L(n, 1), L(n, 2)), FAdd(Mk(n)[1], Mk(n)[3]), "0",
       FAdd(FMul("1e-11", Mag(Mk(n))), FMul("1e-11", FAdd(FAbs(L(n, 1)), FAbs(L(n, 2)))))))

Tachyonic == Ev("Tachyonic")
Init == l = 1
Next == Modes \/ Diag \/ Tachyonic
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
