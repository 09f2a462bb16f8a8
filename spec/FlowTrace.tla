----------------------------- MODULE FlowTrace -----------------------------
(***************************************************************************)
(* Validates groups of evaluations at parameter points connected by the    *)
(* renormalisation-group flow of the MSSM (C20, see Flow.tla).  A group    *)
(* has a base point "0", points displaced along the one-loop beta          *)
(* functions ("+", "-"), along the two-loop beta functions ("2+", "2-")    *)
(* and points with another renormalisation scale ("s+", "s-").  That the   *)
(* points are related by the beta functions given here is checked, too.    *)
(* For the orders n = 1..N that a calculation covers (Cancels of Flow):    *)
(*                                                                         *)
(*        dM_n/dlnQ + sum_{m = 1..n} beta_m d/dx M_{n-m} = 0               *)
(*                                                                         *)
(*   ew    fixed order, one loop, all couplings                            *)
(*   two   fixed order, two loops, gaugeless limit, third generation       *)
(*         Yukawa couplings and (about.qcd) the strong coupling            *)
(*   eft   effective theory, two loops, gaugeless limit                    *)
(*   efto  effective theory, one loop, all gauge and Yukawa couplings       *)
(*   eftm  effective theory, two loops, bottom and tau                     *)
(*   qcd   expanded three-loop corrections of a hierarchy, O(at as^n)      *)
(*   qeft  effective theory, three loops, O(at as^n)                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.kind, e.name, l>>) /\ FALSE
Set(s) == {s[i] : i \in DOMAIN s}
Sq(a) == FMul(a, a)
Cube(a) == FMul(a, Sq(a))
Lin(s) == FSum([i \in DOMAIN s |-> FMul(s[i][1], s[i][2])])
Call(i) == e.calls[i]
Role(i) == e.about.roles[i]
Has(r, o) == \E i \in DOMAIN e.calls : Role(i) = r /\ Call(i).o = o
V(r, o) == Call(CHOOSE i \in DOMAIN e.calls : Role(i) = r /\ Call(i).o = o).v
Base == Call(CHOOSE i \in DOMAIN e.calls : Role(i) = "0").p
\* the strong interaction only, for the terms of order at as^n
StrongOnly == e.kind \in {"qcd", "qeft"}
H1 == "3e-5"
H2 == "3e-6"
HQ == "1e-2"
Loop == FDiv("1", FMul("16", Sq("3.141592653589793")))

\* ------------------------------------------------------------- one-loop beta functions of the MSSM (times 16 pi^2)
Slots == DOMAIN Base
Gen == <<".0", ".4", ".8">>
Beta1 ==
  LET p == Base
      z(a) == IF StrongOnly THEN "0" ELSE a
      g1 == z(Sq(p["g1"]))  g2 == z(Sq(p["g2"]))  g3 == Sq(p["g3"])
      t == z(Sq(p["Yu.8"]))  b == z(Sq(p["Yd.8"]))  u == z(Sq(p["Ye.8"]))
      At == p["Au.8"]  Ab == p["Ad.8"]  Au == p["Ae.8"]
      v2 == FAdd(Sq(p["vu"]), Sq(p["vd"]))
      sb2 == FDiv(Sq(p["vu"]), v2)  cb2 == FDiv(Sq(p["vd"]), v2)  sc == FDiv(FMul(p["vu"], p["vd"]), v2)
      MA2 == Sq(p["MA"])
      Bmu == FMul(MA2, sc)
      D == FProd(<<"0.125", FAdd(FMul("0.6", Sq(p["g1"])), Sq(p["g2"])), FSub(Sq(p["vd"]), Sq(p["vu"]))>>)
      mHd2 == FSum(<<FMul(MA2, sb2), FNeg(Sq(p["mu"])), FNeg(D)>>)
      mHu2 == FSum(<<FMul(MA2, cb2), FNeg(Sq(p["mu"])), D>>)
      tr(m) == FSum([i \in 1..3 |-> p[m \o Gen[i]]])
      S == FSum(<<mHu2, FNeg(mHd2), tr("mq2"), FMul("-2", tr("mu2")), tr("md2"), FNeg(tr("ml2")), tr("me2")>>)
      Xt == FProd(<<"2", t, FSum(<<mHu2, p["mq2.8"], p["mu2.8"], Sq(At)>>)>>)
      Xb == FProd(<<"2", b, FSum(<<mHd2, p["mq2.8"], p["md2.8"], Sq(Ab)>>)>>)
      Xu == FProd(<<"2", u, FSum(<<mHd2, p["ml2.8"], p["me2.8"], Sq(Au)>>)>>)
      G1 == FMul(g1, Sq(p["M1"]))  G2 == FMul(g2, Sq(p["M2"]))  G3 == FMul(g3, Sq(p["MG"]))
      gauge(c3, c2, c1, s) == Lin(<< <<FNeg(c3), G3>>, <<FNeg(c2), G2>>, <<FNeg(c1), G1>>, <<s, FMul(g1, S)>> >>)
      c32 == FDiv("32", "3")
      gam == Lin(<< <<"3", t>>, <<"3", b>>, <<"1", u>>, <<"-3", g2>>, <<"-0.6", g1>> >>)
      gv == FAdd(FMul("0.3", g1), FMul("1.5", g2))
      vu == FMul(p["vu"], FSub(gv, FMul("3", t)))
      vd == FMul(p["vd"], FSub(gv, FAdd(FMul("3", b), u)))
      bBmu == FAdd(FMul(Bmu, gam), FMul(p["mu"], Lin(<< <<"6", FMul(t, At)>>, <<"6", FMul(b, Ab)>>, <<"2", FMul(u, Au)>>,
                                                        <<"6", FMul(g2, p["M2"])>>, <<"1.2", FMul(g1, p["M1"])>> >>)))
      uv == FMul(p["vu"], p["vd"])
      bMA2 == FAdd(FDiv(FMul(bBmu, v2), uv),
                   FMul(Bmu, FSub(FDiv(FMul("2", FAdd(FMul(p["vu"], vu), FMul(p["vd"], vd))), uv),
                                  FMul(FDiv(v2, uv), FAdd(FDiv(vu, p["vu"]), FDiv(vd, p["vd"]))))))
      i3(s, x) == IF s = ".8" THEN x ELSE "0"
      soft == [k \in {m \o s : m \in {"mq2", "mu2", "md2", "ml2", "me2"}, s \in Set(Gen)} |->
                 LET gen == IF \E m \in {"mq2", "mu2", "md2", "ml2", "me2"} : k = m \o ".8" THEN ".8" ELSE ".0"
                     is(m) == \E s \in Set(Gen) : k = m \o s
                 IN CASE is("mq2") -> FAdd(i3(gen, FAdd(Xt, Xb)), gauge(c32, "6", FDiv("2", "15"), "0.2"))
                      [] is("mu2") -> FAdd(i3(gen, FMul("2", Xt)), gauge(c32, "0", FDiv("32", "15"), "-0.8"))
                      [] is("md2") -> FAdd(i3(gen, FMul("2", Xb)), gauge(c32, "0", FDiv("8", "15"), "0.4"))
                      [] is("ml2") -> FAdd(i3(gen, Xu), gauge("0", "6", "1.2", "-0.6"))
                      [] is("me2") -> FAdd(i3(gen, FMul("2", Xu)), gauge("0", "0", "4.8", "1.2"))]
      c163 == FNeg(FDiv("16", "3"))
      rest ==
        ("g1" :> FProd(<<FDiv("33", "5"), g1, p["g1"]>>)) @@ ("g2" :> FMul(g2, p["g2"])) @@ ("g3" :> FProd(<<"-3", g3, p["g3"]>>)) @@
        ("M1" :> FProd(<<FDiv("66", "5"), g1, p["M1"]>>)) @@ ("M2" :> FProd(<<"2", g2, p["M2"]>>)) @@ ("MG" :> FProd(<<"-6", g3, p["MG"]>>)) @@
        ("Yu.8" :> FMul(p["Yu.8"], Lin(<< <<"6", t>>, <<"1", b>>, <<c163, g3>>, <<"-3", g2>>, <<FNeg(FDiv("13", "15")), g1>> >>))) @@
        ("Yd.8" :> FMul(p["Yd.8"], Lin(<< <<"6", b>>, <<"1", t>>, <<"1", u>>, <<c163, g3>>, <<"-3", g2>>, <<FNeg(FDiv("7", "15")), g1>> >>))) @@
        ("Ye.8" :> FMul(p["Ye.8"], Lin(<< <<"4", u>>, <<"3", b>>, <<"-3", g2>>, <<"-1.8", g1>> >>))) @@
        ("Au.8" :> Lin(<< <<"12", FMul(t, At)>>, <<"2", FMul(b, Ab)>>, <<c32, FMul(g3, p["MG"])>>, <<"6", FMul(g2, p["M2"])>>, <<FDiv("26", "15"), FMul(g1, p["M1"])>> >>)) @@
        ("Ad.8" :> Lin(<< <<"12", FMul(b, Ab)>>, <<"2", FMul(t, At)>>, <<"2", FMul(u, Au)>>, <<c32, FMul(g3, p["MG"])>>, <<"6", FMul(g2, p["M2"])>>, <<FDiv("14", "15"), FMul(g1, p["M1"])>> >>)) @@
        ("Ae.8" :> Lin(<< <<"8", FMul(u, Au)>>, <<"6", FMul(b, Ab)>>, <<"6", FMul(g2, p["M2"])>>, <<"3.6", FMul(g1, p["M1"])>> >>)) @@
        ("mu" :> FMul(p["mu"], gam)) @@ ("vu" :> vu) @@ ("vd" :> vd) @@ ("MA" :> FDiv(bMA2, FMul("2", p["MA"])))
  IN [k \in Slots |-> IF k \in DOMAIN soft THEN soft[k] ELSE IF k \in DOMAIN rest THEN rest[k] ELSE "0"]

\* ------------------------------------------------------------- two-loop beta functions, O(as^2) (times (16 pi^2)^2)
\* the light squarks enter with their average mass, as in the expansions
MeanSq ==
  LET p == Base  n(a, k) == FMul(k, FLog(a))
  IN FExp(FDiv(FSum(<<n(p["mq2.0"], "2"), n(p["mq2.4"], "2"), n(p["mq2.8"], "1"), n(p["mu2.0"], "1"), n(p["mu2.4"], "1"),
                      n(p["md2.0"], "1"), n(p["md2.4"], "1"), n(p["md2.8"], "1")>>), "10"))
Beta2 ==
  LET p == Base
      s == FSum(<<FMul("10", MeanSq), p["mq2.8"], p["mu2.8"]>>)
      g4 == Sq(Sq(p["g3"]))
      x == FMul(FDiv(g4, "3"), FAdd(FMul("-128", Sq(p["MG"])), FMul("16", s)))
      soft == {m \o s2 : m \in {"mq2", "mu2", "md2"}, s2 \in Set(Gen)}
  IN [k \in Slots |-> IF k \in soft THEN x
                      ELSE IF k = "Yu.8" THEN FProd(<<FNeg(FDiv("16", "9")), g4, p[k]>>)
                      ELSE IF k = "Au.8" THEN FProd(<<FDiv("64", "9"), g4, p["MG"]>>)
                      ELSE "0"]

\* ------------------------------------------------------------- the points of a group
Moved(q, h, B) == \A k \in Slots : LET d == FSub(q[k], Base[k])  x == FMul(h, B[k])
                    IN Chk(<<"bad group: flow of", k, FStr(d), FStr(x)>>, FLe(FAbs(FSub(d, x)), FAdd(FMul("1e-6", FAbs(x)), FMul("1e-13", FAbs(Base[k])))))
Rescaled(q, h) == \A k \in Slots : Chk(<<"bad group: scale", k>>, IF k = "scale" THEN FClose(q[k], FMul(Base[k], FExp(h)), "1e-12", "0") ELSE FSame(q[k], Base[k]))
Flows ==
  /\ Chk("bad group: roles", Len(e.about.roles) = Len(e.calls))
  /\ LET first == {i \in DOMAIN e.calls : \A k \in 1..(i - 1) : Role(k) # Role(i)}
     IN /\ \A i \in DOMAIN e.calls \ first : Chk("bad group: one point for each role", \E k \in first : Role(k) = Role(i) /\ Call(k).p = Call(i).p)
        /\ \A i \in first : LET q == Call(i).p
             IN CASE Role(i) = "0" -> TRUE
                  [] Role(i) = "+" -> Moved(q, H1, Beta1)
                  [] Role(i) = "-" -> Moved(q, FNeg(H1), Beta1)
                  [] Role(i) = "2+" -> Moved(q, H2, Beta2)
                  [] Role(i) = "2-" -> Moved(q, FNeg(H2), Beta2)
                  [] Role(i) = "s+" -> Rescaled(q, HQ)
                  [] Role(i) = "s-" -> Rescaled(q, FNeg(HQ))
Known == \A i \in DOMAIN e.calls : Chk(<<"rejected", Call(i).x>>, Call(i).x = "") /\ \A k \in DOMAIN Call(i).v : Chk("finite", FFinite(Call(i).v[k]))

Slope(a, b, h) == FDiv(FSub(a, b), FMul("2", h))
Terms(a) == FSumAbs(a)
\* residual of a cancellation relative to the size of its terms
Residual(a) == LET s == Terms(a) IN IF FEq(s, "0") THEN "0" ELSE FDiv(FAbs(FSum(a)), s)
Ok(name, a, tol, floor) == Chk(<<name, [i \in DOMAIN a |-> FStr(a[i])], "residual", FStr(Residual(a))>>, FLe(FAbs(FSum(a)), FAdd(FMul(tol, Terms(a)), floor)))
Ev(k) == l <= Len(Trace) /\ l' = l + 1 /\ e.event = "Group" /\ e.kind = k /\ Known /\ Flows

\* ------------------------------------------------------------- fixed order
FoOp == IF e.kind = "ew" THEN "fo!momit 0!mh2" ELSE "fo!mh2"
Fo0(r, n) == V(r, FoOp)[n + 1]
Fo(n) == LET f(r) == Fo0(r, n) IN <<FMul(Loop, Slope(Fo0("+", n - 1), Fo0("-", n - 1), H1)), Slope(f("s+"), f("s-"), HQ)>>
Ew == Ev("ew") /\ Ok("one-loop fixed order", Fo(1), "1e-4", "0")
Two == Ev("two") /\ Ok("two-loop fixed order", Fo(2), "1e-4", "0")

\* ------------------------------------------------------------- effective theory
EftFlags == IF StrongOnly THEN "eft!flag 14 0!" ELSE "eft!"
EftOp(n) == EftFlags \o (CASE n = 1 -> "1 1 1" [] n = 2 -> "2 1 1" [] n = 3 -> "3 1 1 1")
Q(r, n) == V(r, EftOp(n))[1]
EftTwo == <<FMul(Loop, Slope(Q("+", 1), Q("-", 1), H1)), Slope(Q("s+", 2), Q("s-", 2), HQ)>>
Eft == Ev("eft") /\ Ok("two-loop effective theory", EftTwo, "3e-2", "0")
EftThree == <<FProd(<<Loop, Loop, Slope(Q("2+", 1), Q("2-", 1), H2)>>), FMul(Loop, Slope(Q("+", 2), Q("-", 2), H1)), Slope(Q("s+", 3), Q("s-", 3), HQ)>>
QEft == Ev("qeft") /\ Ok("two-loop effective theory, O(at as)", EftTwo, "3e-2", "0")
                   /\ Ok("three-loop effective theory, O(at as^2)", EftThree, "1e-2", "0")

\* effective theory, one loop, all orders.  The gauge part of the threshold correction of the vacuum expectation
\* value is documented as unknown (NaN) and taken as zero: its running is that of the MSSM and the SM, 1.5 g2^2 + 0.3 g1^2
\* (1.5 g2^2 + .3 g1^2 per ln Q in the MSSM, twice that in the SM, Feynman gauge)
RECURSIVE OneLoopFlags(_)
OneLoopFlags(k) == IF k > 11 THEN "" ELSE "flag " \o ToString(k) \o " 1!" \o OneLoopFlags(k + 1)
OOp(n) == "eft!" \o OneLoopFlags(0) \o ToString(n) \o " 1 1"
UnknownVev ==
  LET p == Base  g1 == Sq(p["g1"])  g2 == Sq(p["g2"])  vu == Sq(p["vu"])  vd == Sq(p["vd"])
  IN FProd(<<Loop, "0.5", FDiv(Sq(FSub(vu, vd)), FAdd(vu, vd)), FAdd(g2, FMul("0.6", g1)), FAdd(FMul("1.5", g2), FMul("0.3", g1))>>)
Efto == Ev("efto") /\ Ok("one-loop effective theory", <<FMul(Loop, Slope(V("+", OOp(0))[1], V("-", OOp(0))[1], H1)),
                                                        Slope(V("s+", OOp(1))[1], V("s-", OOp(1))[1], HQ), UnknownVev>>, "1e-6", "0")

\* effective theory with Yukawa couplings of bottom and tau, in the gaugeless limit, the mass of the top is given:
\* the momentum-dependent part B0 = 2 - ln(mh^2/Mt^2) of the massless fermion loops is not contained in the two-loop results
MOrders == CASE e.about.mode = "l" -> {8, 17} [] e.about.mode = "b" -> {5, 13} [] e.about.mode = "bl" -> {5, 8, 13, 15, 17, 21}
RECURSIVE MFlags(_)
MFlags(k) == IF k > 21 THEN "" ELSE "flag " \o ToString(k) \o (IF k \in MOrders THEN " 1!" ELSE " 0!") \o MFlags(k + 1)
MOp(n) == "eft!" \o MFlags(0) \o ToString(n) \o " 1 1"
PointOf(r) == Call(CHOOSE i \in DOMAIN e.calls : Role(i) = r).p
Vac(p) == FAdd(Sq(p["vu"]), Sq(p["vd"]))
Cb2(p) == FDiv(Sq(p["vd"]), Vac(p))
MB0(r) ==
  LET p == PointOf(r)
      mh2 == FProd(<<"0.25", FAdd(FMul("0.6", Sq(p["g1"])), Sq(p["g2"])), Vac(p), Sq(FSub(FMul("2", Cb2(p)), "1"))>>)
  IN FProd(<<Loop, Vac(p), Sq(Cb2(p)), FAdd(FMul("6", Sq(Sq(p["Yd.8"]))), FMul("2", Sq(Sq(p["Ye.8"])))), FSub("2", FLog(FDiv(mh2, Sq(Base["Mt"]))))>>)
M(r, n) == LET x == V(r, MOp(n))[1] IN IF n = 1 THEN FSub(x, MB0(r)) ELSE x
\* Known finding: coefficients of the logarithms of the orders yb^6, yb^4 ytau^2, yb^2 ytau^4, ytau^6
On(k, x) == IF k \in MOrders THEN x ELSE "0"
MKnown ==
  LET p == Base  L == FLog(FDiv(Sq(p["scale"]), Sq(p["Mt"])))  b == Sq(p["Yd.8"])  t == Sq(p["Ye.8"])
  IN FProd(<<Loop, Loop, Vac(p), Cube(Cb2(p)),
       FSum(<<On(13, FMul(Cube(b), FAdd(FMul("324", L), "54"))), On(15, FProd(<<Sq(b), t, FAdd(FMul("72", L), "12")>>)),
              On(21, FProd(<<"18", b, Sq(t)>>)), On(17, FMul("4", Cube(t)))>>)>>)
MTwo == <<FMul(Loop, Slope(M("+", 1), M("-", 1), H1)), Slope(M("s+", 2), M("s-", 2), HQ)>>
\* the constant accompanying B0 in the wave function of the massless fermions is not determined by the running
Y2 == FAdd(On(5, Sq(Base["Yd.8"])), On(8, Sq(Base["Ye.8"])))
Size == FProd(<<Loop, Loop, Vac(Base), Cube(Cb2(Base)), Cube(Y2)>>)
Floor == FMul(IF IOEnv.KNOWNB = "yes" THEN "0.1" ELSE "5", Size)
Eftm ==
  /\ Ev("eftm")
  /\ Chk("bad group: the mass of the top is given", "Mt" \in Slots)
  /\ IF IOEnv.KNOWNB = "yes" /\ FLe(FAbs(FSum(Append(MTwo, MKnown))), FAdd(FMul("1e-3", Terms(MTwo)), Floor))
     THEN TRUE
     ELSE Ok("two-loop effective theory, bottom and tau", MTwo, "1e-3", Floor)

\* ------------------------------------------------------------- expanded three-loop corrections
Hi == e.about.h
M1Op == "calc!mt41 " \o ToString(Hi) \o " t - 0 0"
M2Op == "calc!mt42 " \o ToString(Hi) \o " t - 0 0"
M3Op == "calc!hier " \o ToString(Hi) \o " t - 0 0 1"
M4Op == "calc!s3m " \o ToString(Hi) \o " t -"
M1(r, k) == V(r, M1Op)[k]
M2(r, k) == V(r, M2Op)[k]
M3(r, k) == FAdd(V(r, M3Op)[k], V(r, M4Op)[k])
O2(k) == <<FMul(Loop, Slope(M1("+", k), M1("-", k), H1)), Slope(M2("s+", k), M2("s-", k), HQ)>>
O3(k) == <<FProd(<<Loop, Loop, Slope(M1("2+", k), M1("2-", k), H2)>>), FMul(Loop, Slope(M2("+", k), M2("-", k), H1)), Slope(M3("s+", k), M3("s-", k), HQ)>>
\* hierarchies: 0 h3, 1 h32q2g, 2 h3q22g, 3 h4, 4 h5, 5 h5g1, 6 h6, 7 h6b, 8 h6b2qg2, 9 h6bq22g, 10 h6bq2g2, 11 h6g2, 12 h9, 13 h9q2
H3 == Hi \in 0..2
H4 == Hi = 3
H5 == Hi \in 4..5
H6 == Hi \in 6..11
H9 == Hi \in 12..13
\* stop masses and mixing at a point
Stops(r) ==
  LET p == Call(CHOOSE i \in DOMAIN e.calls : Role(i) = r).p
      mt == FDiv(FMul(p["Yu.8"], p["vu"]), FSqrt("2"))
      X == FSub(p["Au.8"], FDiv(FMul(p["mu"], p["vd"]), p["vu"]))
      LL == FAdd(p["mq2.8"], Sq(mt))  RR == FAdd(p["mu2.8"], Sq(mt))  off == FMul(mt, X)
  IN [m1 |-> FEigMin2(<< <<LL, off>>, <<off, RR>> >>), m2 |-> FEigMax2(<< <<LL, off>>, <<off, RR>> >>), off |-> off, X |-> X, p |-> p]
SmallMixing == LET q == Stops("0") IN FLe(FAbs(q.X), FMul("0.36", FSqrt(FMax(q.p["mq2.8"], q.p["mu2.8"]))))
Deep == LET q == Stops("0") IN FLe("9", FDiv(q.m2, q.m1))
\* Known finding (DR' scheme, h6 and its variants): the second-order shift of the mass of the light stop,
\* -4/9 (as/4pi)^2 s2t^4 (1+l) ((1+l) Mst2 + 4 l (Mgl-Mst2)) Mst2^7/Mst1^4, is missing in the (2,2) element
MissingShift(r) ==
  LET q == Stops(r)  p == q.p  ms2 == FSqrt(q.m2)  lg == FLog(FDiv(Sq(p["scale"]), q.m2))  al == FAdd("1", lg)
      s2t == FDiv(FMul("2", q.off), FSub(q.m1, q.m2))
      as4pi == FMul(Loop, Sq(p["g3"]))
      pref == FDiv("3", FMul("2", Sq(FMul("3.141592653589793", p["vu"]))))
  IN FProd(<<FNeg(FDiv("4", "9")), pref, Sq(as4pi), Sq(Sq(s2t)), al, FAdd(FMul(al, ms2), FProd(<<"4", lg, FSub(p["MG"], ms2)>>)), FDiv(FProd(<<q.m2, q.m2, q.m2, ms2>>), Sq(q.m1))>>)
WithMissing(a) == <<a[1], a[2], FAdd(a[3], Slope(MissingShift("s+"), MissingShift("s-"), HQ))>>
\* accuracy of the expansions, relative to the terms of the element and (for the small elements) to those of element 4
Tol2 == IF H6 THEN "3e-3" ELSE "1e-4"
Tol3 == CASE H3 -> (IF SmallMixing THEN "5e-5" ELSE "4e-3") [] H9 -> (IF SmallMixing THEN "5e-4" ELSE "1e-2") [] H4 -> "3e-2"
          [] H5 -> (IF Deep THEN "5e-4" ELSE "1.5e-2") [] H6 -> "4e-2"
Floor3(k) == CASE H3 -> (IF SmallMixing THEN "1e-5" ELSE IF k = 1 THEN "1e-4" ELSE "6e-4") [] H9 -> (IF SmallMixing THEN "3e-4" ELSE "1e-3")
          \* h4 does not contain the stop mixing
          [] H4 -> "inf"
          [] H5 -> (IF Deep THEN (IF k = 1 THEN "6e-5" ELSE "4e-3") ELSE "3e-2") [] H6 -> "8e-3"
Allowed == IOEnv.KNOWN
Qcd ==
  /\ Ev("qcd")
  /\ \A k \in {1, 2, 4} : Ok(<<"two-loop, element", k>>, O2(k), Tol2, FMul(Tol2, FMul("1e-2", Terms(O2(4)))))
  /\ IF Allowed = "h6" /\ H6 /\ ~SmallMixing /\ FLe(Residual(WithMissing(O3(4))), Tol3) THEN TRUE
     ELSE Ok("three-loop, element 4", O3(4), Tol3, "0")
  /\ H4 \/ \A k \in {1, 2} : Ok(<<"three-loop, element", k>>, O3(k), IF H6 THEN "0.1" ELSE "0", FMul(Floor3(k), Terms(O3(4))))

Init == l = 1
Next == Ew \/ Two \/ Eft \/ Efto \/ Eftm \/ QEft \/ Qcd
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
