---------------------------- MODULE ComposeTrace ----------------------------
(* Accepts recorded complete results and hierarchy calculations iff they are composed of their building blocks.   *)
(*   Hier: one hierarchy at all loop-order selections;  Full: a complete result and its blocks.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]
Sq(a) == FMul(a, a)
\* matrices are <<<<a, b>>, <<c, d>>>>
Tol(ms, r) == FMul(r, FSeqMax([i \in DOMAIN ms |-> FMatMaxAbs(ms[i])]))
NearM(a, b, ms, r) == \A i, j \in 1..2 : FClose(a[i][j], b[i][j], 0, FAdd(Tol(ms, r), "1e-300")) \/ FSame(a[i][j], b[i][j])
Symm(m) == FSame(m[1][2], m[2][1])
Mat(v) == <<<<v[1], v[2]>>, <<v[3], v[4]>>>>
Near(a, b, r) == FClose(a, b, r, 0)
NearS(a, b, s, r) == FSame(a, b) \/ FClose(a, b, 0, FMul(r, s))
Sum(ms) == LET RECURSIVE S(_)
               S(i) == IF i = 0 THEN <<<<0, 0>>, <<0, 0>>>> ELSE FMatAdd(S(i - 1), ms[i]) IN S(Len(ms))
----------------------------------------------------------------------------
\* val: loop-order selections 000, 100, 010, 001, 110, 101, 011, 111
Parts == <<<<>>, <<2>>, <<3>>, <<4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>, <<2, 3, 4>>>>
Finite(m) == \A i, j \in 1..2 : FFinite(m[i][j])
Sorted(v) == IF FLt(v[2], v[1]) THEN <<v[2], v[1]>> ELSE v
Hier ==
    /\ Ev("Hier")
    /\ LET e == E IN
       /\ \A i \in 1..8 : Chk(<<"symmetric", i>>, Symm(e.val[i]))
       /\ \A i \in 1..8 :
            LET ps == [k \in DOMAIN Parts[i] |-> e.val[Parts[i][k]]] IN
            Chk(<<"loop orders add up", i>>, Finite(Sum(ps)) => NearM(e.val[i], Sum(ps), ps \o <<e.val[i]>>, "1e-12"))
       /\ Chk("shift symmetric", \A i \in 1..4 : Symm(e.d[i]))
       /\ LET d1 == FMatSub(e.m41[2], e.m41[1])
              d2 == FMatSub(e.m42[2], e.m42[1])
              want == <<FMatSub(d1, d1), d1, d2, FMatAdd(d1, d2)>> IN
          \A i \in 1..4 : Chk(<<"shift is the difference of the schemes", i>>,
                              Finite(want[i]) => NearM(e.d[i], want[i], <<e.m41[1], e.m42[1], e.m41[2], e.m42[2]>>, "1e-12"))
       /\ Chk("unshifted masses", \A i \in 1..2 : FClose(e.sh0[i], e.m[i], "1e-13", 0))
       /\ Chk("masses of the scheme", LET w == Sorted(IF e.mdr = 1 THEN e.sh ELSE e.m) IN
              (FFinite(w[1]) /\ FFinite(w[2])) => \A i \in 1..2 : FClose(e.mdrm[i], w[i], "1e-12", 0))
       /\ Chk("bottom sector is the top sector with bottom data",
              \A i \in DOMAIN e.mirror :
                 LET got == IF i <= 8 THEN e.val[i] ELSE IF i = 9 THEN e.m41[e.mdr + 1] ELSE e.m42[e.mdr + 1] IN
                 Finite(got) => NearM(e.mirror[i], got, <<got>>, "1e-11"))
----------------------------------------------------------------------------
\* perturbative expansion of the smaller eigenvalue of a + x b + x^2 d + x^3 e
Expansion(a, b, d, e) ==
    LET tr == FAdd(a[1][1], a[2][2])
        lo == FEigMin2(a)
        hi == FSub(tr, lo)
        gap == FSub(lo, hi)
        \* eigenvectors: angle t with (cos t, sin t) for lo
        t == FMul("0.5", FAtan(FDiv(FMul(2, a[1][2]), FSub(a[1][1], a[2][2]))))
        c == FCos(t)
        s == FSin(t)
        \* value of the quadratic form for (c, s); the lower of the two candidates is lo
        Q(m, x, y, z, w) == FAdd(FAdd(FMul(FMul(x, z), m[1][1]), FMul(FMul(y, w), m[2][2])),
                                 FMul(m[1][2], FAdd(FMul(x, w), FMul(y, z))))
        first == FLe(Q(a, c, s, c, s), Q(a, FNeg(s), c, FNeg(s), c))
        x0 == IF first THEN <<c, s>> ELSE <<FNeg(s), c>>
        x1 == IF first THEN <<FNeg(s), c>> ELSE <<c, s>>
        E0(m) == Q(m, x0[1], x0[2], x0[1], x0[2])
        E1(m) == Q(m, x1[1], x1[2], x1[1], x1[2])
        Mx(m) == Q(m, x0[1], x0[2], x1[1], x1[2]) IN
    <<lo, E0(b), FAdd(E0(d), FDiv(Sq(Mx(b)), gap)),
      FAdd(E0(e), FAdd(FDiv(FMul(2, FMul(Mx(b), Mx(d))), gap),
                       FDiv(FMul(Sq(Mx(b)), FSub(E1(b), E0(b))), Sq(gap))))>>
Pi == "3.14159265358979323846"
K == FDiv(1, FMul(16, Sq(Pi)))
XtOrder3 == {0, 1, 2, 12, 13}        \* h3, h32q2g, h3q22g, h9, h9q2: terms up to Xt^3 only
Full ==
    /\ Ev("Full")
    /\ LET e == E
           v2 == FAdd(Sq(e.vu), Sq(e.vd))
           gt2 == FDiv(FMul(2, Sq(e.Mt)), v2)
           p1 == FDiv(FMul(K, FMul(Sq(e.Mt), gt2)), v2)
           p2 == FMul(p1, FMul(K, Sq(e.g3)))
           p3 == FMul(p2, FMul(K, Sq(e.g3)))
           beta == FAtan(FDiv(e.vu, e.vd))
           sb == FSin(beta)
           cb == FCos(beta)
           tree == LET z == Sq(e.MZ)
                       a == Sq(e.MA) IN
                   <<<<FAdd(FMul(z, Sq(cb)), FMul(a, Sq(sb))), FNeg(FMul(FAdd(z, a), FMul(sb, cb)))>>,
                     <<FNeg(FMul(FAdd(z, a), FMul(sb, cb))), FAdd(FMul(z, Sq(sb)), FMul(a, Sq(cb)))>>>>
           h3 == e.dmh[4]
           negH == FMatScale(-1, e.shiftH3m)                       \* H3m -> DR'
           ex == Expansion(e.dmh[1], e.dmh[2], e.dmh[3], e.dmh[4])
           exs == FMatMaxAbs(e.dmh[1])
           xi == IF e.h \in XtOrder3 THEN 1 ELSE 2 IN
       /\ Chk("sector, scheme and flag", e.isab = e.ab /\ e.scheme = 1 /\ e.flag = 0)
       /\ Chk("selected hierarchy", e.cmp = e.h)
       /\ \A i \in 1..4 : Chk(<<"symmetric", i>>, Symm(e.dmh[i]))
       /\ Chk("shifts symmetric", Symm(e.shiftMDR) /\ Symm(e.shiftH3m))
       /\ Chk("tree", NearM(e.dmh[1], tree, <<tree>>, "1e-12"))
       /\ Chk("order 1", NearM(e.dmh[2], e.m41, <<e.m41>>, "1e-12"))
       /\ Chk("order 2", NearM(e.dmh[3], e.m42, <<e.m42>>, "1e-12"))
       /\ Chk("order 3", NearM(e.dmh[4], FMatAdd(e.h3, negH), <<e.h3, negH>>, "1e-12"))
       /\ Chk("H3m shift", Len(e.H) = 4 => NearM(negH, Mat(e.H), <<negH>>, "1e-12"))
       /\ Chk("MDR shift", Len(e.Hm) = 4 =>
              NearM(e.shiftMDR, FMatSub(FMatAdd(FMatAdd(e.m41m, e.m42m), FMatAdd(e.h3m, Mat(e.Hm))),
                                        FMatAdd(FMatAdd(e.m41, e.m42), h3)),
                    <<e.m41, e.m42, e.m41m, e.m42m, e.h3, e.h3m, negH>>, "1e-11"))
       /\ Chk("MDR masses", LET w == Sorted(e.sh) IN \A i \in 1..2 : FClose(e.mdrm[i], w[i], "1e-12", 0))
       /\ Chk("uncertainties", FEq(e.unc[1], 0) /\ Near(e.unc[2], e.unc2, "1e-9") /\ Near(e.unc[3], e.unc3, "1e-9"))
       \* perturbative eigenvalues
       /\ \A i \in 1..4 : Chk(<<"perturbative eigenvalue", i - 1>>,
              FClose(e.mh2[i], ex[i], "1e-9", FMul(IF i = 1 THEN "1e-12" ELSE "1e-10", FAdd(FMatMaxAbs(e.dmh[i]), IF i = 1 THEN exs ELSE FMatMaxAbs(e.dmh[2])))))
       \* stand-alone calculations
       /\ Chk("effective theory", /\ \A i \in 1..3 : Near(e.eft[i], e.E[i], "1e-12")
                                  /\ NearS(e.eft[4], FAdd(e.E[4], FMul(e.lamEFT, v2)), FAdd(FAbs(e.E[4]), FAbs(e.eft[4])), "1e-12"))
       /\ Chk("fixed order", /\ \A i \in 1..3 : Near(e.fo[i], e.F[i], "1e-12")
                             /\ FEq(e.foat[1], 0) /\ Near(e.foat[2], e.G[1], "1e-12") /\ Near(e.foat[3], e.G[2], "1e-12"))
       /\ Chk("fixed order, order 3", FSame(e.fo[4], e.mh2[4]) /\ FSame(e.foat[4], e.mh2[4]))
       /\ Chk("lambda 0", Near(e.lam[1], FDiv(e.E[1], v2), "1e-12"))
       /\ Chk("lambda 1", Near(e.lam[2], FMul(p1, e.at), "1e-12"))
       /\ Chk("lambda 2", Near(e.lam[3], FMul(p2, e.atas), "1e-12"))
       /\ Chk("lambda shift 0 1", FEq(e.lamShift[1], 0) /\ FEq(e.lamShift[2], 0))
       /\ Chk("lambda 0-2 have no uncertainty", \A i \in 1..3 : FEq(e.lamUnc[i], 0))
       /\ IF e.ab
          THEN Chk("no three-loop lambda in the bottom sector",
                   \A x \in {e.lam[4], e.lamShift[4], e.lamH3m, e.lamEFT, e.lamNL, e.lamUnc[4]} : FEq(x, 0))
          ELSE LET full == FAdd(FAbs(e.lamH3m), FAdd(FAbs(e.lamEFT), FMul(p3, FAdd(FAbs(e.as2L), FAbs(e.as2))))) IN
               /\ Chk("lambda 3", FSame(e.lam[4], e.lamEFT))
               /\ Chk("lambda shift 2", Near(e.lamShift[3], FMul(p2, FMul(FMul(-4, e.lam[2]), e.ytas)), "1e-12"))
               /\ Chk("lambda shift 3", Near(e.lamShift[4], FMul(p3, e.s3[xi]), "1e-10"))
               /\ Chk("logarithms of lambda", NearS(FSub(e.lamEFT, e.lamNL), FMul(p3, FSub(e.as2L, e.as2)), full, "1e-11"))
               /\ Chk("lambda from the expansion", Len(e.Hp1) = 1 =>
                      NearS(e.lamH3m, FSub(FMul(p3, FAdd(e.rawH3m, e.Hp1[1])), FDiv(e.sub1, v2)),
                            FMul(p3, FAdd(FAbs(e.rawH3m), FAbs(e.Hp1[1]))), "1e-11"))
               /\ Chk("non-logarithmic lambda", Len(e.Hp0) = 1 =>
                      NearS(e.lamNL, FSub(FMul(p3, FAdd(e.rawNL, e.Hp0[1])), FDiv(e.sub0, v2)),
                            FMul(p3, FAdd(FAbs(e.rawNL), FAbs(e.Hp0[1]))), "1e-11"))
               \* the conversion of lambda is the one of the mass matrix, seen by the light Higgs
               /\ Chk("lambda and mass matrix are converted alike", (Len(e.Hp1) = 1 ) =>
                      NearS(FMul(FMul(p3, v2), e.Hp1[1]),
                            FAdd(FAdd(FMul(Sq(cb), negH[1][1]), FMul(Sq(sb), negH[2][2])), FMul(FMul(2, negH[1][2]), FMul(sb, cb))),
                            FMatMaxAbs(negH), "1e-5"))
               /\ Chk("lambda uncertainty",
                      NearS(e.lamUnc[4], FAdd(FAbs(FSub(e.lamEFT, e.lamH3m)),
                                              IF xi = 1 THEN FMul(p3, FAbs(e.xt4)) ELSE "0"), full, "1e-11"))
Init == l = 1
Next == Hier \/ Full
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
