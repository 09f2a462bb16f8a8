-------------------------- MODULE DecouplingTrace --------------------------
(***************************************************************************)
(* Validates fixed-order results recorded together with those of the       *)
(* effective theory (C19, see Decoupling.tla).                             *)
(*                                                                         *)
(*   heavy  the top-Yukawa corrections (one loop, two loops, two loops     *)
(*          without the strong coupling) at three points that differ only  *)
(*          in the unit of all masses of superpartners and extra Higgses.  *)
(*          The difference must be of the order of the squared ratio of    *)
(*          the masses of the top quark and the lighter stop, and vanish   *)
(*          like it                                                        *)
(*   tree   the tree-level masses, in the same way for heavy extra Higgses *)
(*   three  the three-loop corrections of a hierarchy: the quartic         *)
(*          coupling that makes the effective theory agree with the        *)
(*          hierarchy is the one predicted from its logarithms             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.kind, e.name, l>>) /\ FALSE
Sq(a) == FMul(a, a)
Call(i) == e.calls[i]
Role(i) == e.about.roles[i]
V(r, o) == Call(CHOOSE i \in DOMAIN e.calls : Role(i) = r /\ Call(i).o = o).v
At(r) == Call(CHOOSE i \in DOMAIN e.calls : Role(i) = r).p
Near(a, b) == FLe(FAbs(FSub(FDiv(a, b), "1")), "0.03")
Roles == <<"1", "2", "3">>

\* ------------------------------------------------------------- points of a group
Heavy1 == {"scale", "mu", "MA", "M1", "M2", "MG"}
Gen == {".0", ".4", ".8"}
Heavy2 == {m \o g : m \in {"mq2", "mu2", "md2", "ml2", "me2"}, g \in Gen}
HeavyA == {m \o g : m \in {"Au", "Ad", "Ae"}, g \in Gen}
Light == {"g1", "g2", "g3", "vu", "vd", "Yu.8", "Yd.8", "Ye.8"}
Same(a, b) == FClose(a, b, "1e-13", "0")
\* the superpartners of b are k times as heavy as those of a
Scaled(a, b, k) ==
  /\ \A s \in Heavy1 \cup HeavyA : Same(b[s], FMul(k, a[s]))
  /\ \A s \in Heavy2 : Same(b[s], FMul(Sq(k), a[s]))
  /\ \A s \in Light : Same(a[s], b[s])
Related == \A i \in 2..3 : Scaled(At("1"), At(Roles[i]), FDiv(At(Roles[i])["scale"], At("1")["scale"]))
Growing == FLe(FMul("1.9", At("1")["scale"]), At("2")["scale"]) /\ FLe(FMul("1.9", At("2")["scale"]), At("3")["scale"])
Top2(p) == FProd(<<"0.5", Sq(p["Yu.8"]), Sq(p["vu"])>>)
LightStop2(p) ==
  LET X == FMul(FSqrt(Top2(p)), FSub(p["Au.8"], FDiv(FMul(p["mu"], p["vd"]), p["vu"])))
  IN FEigMin2(<< <<FAdd(p["mq2.8"], Top2(p)), X>>, <<X, FAdd(p["mu2.8"], Top2(p))>> >>)
Ratio(p) == FDiv(Top2(p), LightStop2(p))
\* close masses: the formulas are interpolated
Close(p) == LET q == FSqrt(p["mq2.8"])  u == FSqrt(p["mu2.8"]) IN Near(q, u) \/ Near(p["MG"], q) \/ Near(p["MG"], u)

\* ------------------------------------------------------------- decoupling
\* the differences d[i] of values of size s[i] at mass ratios r[i]
Decouples(name, d, s, r, C, near) ==
  LET z == [i \in 1..3 |-> FDiv(FAbs(d[i]), FMul(s[i], r[i]))]
  IN /\ \A i \in 1..3 : Chk(<<name, "size", i>>, FLe(FAbs(d[i]), FMul(s[i], FAdd(FMul(C, r[i]), near))))
     /\ near = "0" => Chk(<<name, "vanishes">>, FLe(z[3], FMul("4", FMax(FMul(C, "2e-2"), FMax(z[1], z[2])))))
Fo(i, n) == V(Roles[i], "foat!mh2")[n]
FoQ(i) == V(Roles[i], "foat!flag 19 0!mh2")[3]
E1(i) == V(Roles[i], "eft!1 1 1")[1]
E2(i) == V(Roles[i], "eft!2 1 1")[1]
E2Q(i) == V(Roles[i], "eft!flag 19 0!2 1 1")[1]
Size2(i) == FAdd(FAbs(FoQ(i)), FAbs(FSub(Fo(i, 3), FoQ(i))))
Ev(k) == l <= Len(Trace) /\ e.kind = k /\ l' = l + 1
Heavy ==
  /\ Ev("heavy")
  /\ Related /\ Growing
  /\ \E r \in {<<Ratio(At("1")), Ratio(At("2")), Ratio(At("3"))>>} :
     \E near \in {IF Close(At("1")) THEN "6e-3" ELSE "0"} :
       (/\ \A i \in 1..3 : FLe(r[i], "5e-3")
        /\ Decouples("one loop", <<FSub(Fo(1, 2), E1(1)), FSub(Fo(2, 2), E1(2)), FSub(Fo(3, 2), E1(3))>>, <<FAbs(E1(1)), FAbs(E1(2)), FAbs(E1(3))>>, r, "0.6", near)
        /\ Decouples("two loops", <<FSub(Fo(1, 3), E2(1)), FSub(Fo(2, 3), E2(2)), FSub(Fo(3, 3), E2(3))>>, <<Size2(1), Size2(2), Size2(3)>>, r, "10", near)
        /\ Decouples("two loops, no strong interaction", <<FSub(FoQ(1), E2Q(1)), FSub(FoQ(2), E2Q(2)), FSub(FoQ(3), E2Q(3))>>,
                     <<Size2(1), Size2(2), Size2(3)>>, r, "10", near)) = TRUE

\* ------------------------------------------------------------- tree level
MZ2(p) == FProd(<<"0.25", FAdd(FMul("0.6", Sq(p["g1"])), Sq(p["g2"])), FAdd(Sq(p["vu"]), Sq(p["vd"]))>>)
Tree ==
  /\ Ev("tree")
  /\ Related /\ Growing
  /\ \A i \in 1..3 : LET p == At(Roles[i])  f == V(Roles[i], "fo!mh2")[1]  x == V(Roles[i], "eft!0")[1]  r == FDiv(MZ2(p), Sq(p["MA"])) IN
       /\ Chk(<<"tree level", i>>, FLe(FAbs(FSub(f, x)), FAdd(FProd(<<"1.2", MZ2(p), r>>), FMul("1e-10", Sq(p["MA"])))))
       /\ Chk(<<"MZ^2 cos^2 2beta", i>>, FClose(x, FMul(MZ2(p), Sq(FDiv(FSub(Sq(p["vu"]), Sq(p["vd"])), FAdd(Sq(p["vu"]), Sq(p["vd"]))))), "1e-9", "0"))

\* ------------------------------------------------------------- three loops
Hi == e.about.h
H(S) == Hi \in S
M3(k) == FAdd(V("1", "calc!hier " \o ToString(Hi) \o " t - 0 0 1")[k], V("1", "calc!s3m " \o ToString(Hi) \o " t -")[k])
L3(k) == V("1", "calc!l3 " \o ToString(Hi) \o " t -")[k]
Mixing == LET p == At("1") IN FDiv(FAbs(FSub(p["Au.8"], FDiv(FMul(p["mu"], p["vd"]), p["vu"]))), FSqrt(FMax(p["mq2.8"], p["mu2.8"])))
Cls == IF FLe(Mixing, "0.012") THEN 1 ELSE IF FLe(Mixing, "0.4") THEN 2 ELSE 3
LeftLight == FLt(At("1")["mq2.8"], At("1")["mu2.8"])
\* hierarchies: 0 h3, 1 h32q2g, 2 h3q22g, 3 h4, 4 h5, 5 h5g1, 6 h6, 7 h6b, 8 h6b2qg2, 9 h6bq22g, 10 h6bq2g2, 11 h6g2, 12 h9, 13 h9q2
\* hierarchy and effective theory, relative to the three-loop correction
TolA == CASE H({0, 1, 2}) -> <<<<"1e-5", "1.2e-5", "5e-5">>[Hi + 1], <<"1.6e-5", "4e-5", "1e-4">>[Hi + 1], "2e-4">>[Cls]
          [] H({3}) -> <<"8e-3", "9e-2", "0.3">>[Cls] [] H({4, 5}) -> "3e-2" [] H({6, 11}) -> "5e-4" [] H({7, 8, 9, 10}) -> "6e-3"
          [] H({12, 13}) -> <<"5e-4", "1.5e-3", "4e-3">>[Cls]
\* quartic couplings of hierarchy and effective theory
TolB == CASE H({0, 1, 2}) -> <<<<"1.6e-6", "8e-7", "1e-5">>[Hi + 1], <<"4e-6", "4e-6", "1.5e-5">>[Hi + 1], "2e-4">>[Cls]
          [] H({3}) -> <<"8e-4", "2e-3", "6e-3">>[Cls] [] H({4, 5}) -> "6e-4" [] H({6, 11}) -> "8e-4" [] H({7, 9}) -> "6e-3" [] H({8, 10}) -> "8e-4"
          [] H({12, 13}) -> <<"3e-5", "6e-5", "3e-4">>[Cls]
\* known finding: light left-handed stop
TolKnown == CASE H({0, 1, 2}) -> <<"3e-5", "5e-5", "3e-4">>[Cls] [] H({4, 5}) -> "3e-3" [] H({6, 11}) -> "0.2" [] H({7, 8, 9, 10}) -> "1.2e-2" [] OTHER -> TolB
Allowed == IOEnv.KNOWN
Three ==
  /\ Ev("three")
  /\ LET p == At("1")
         v2 == FAdd(Sq(p["vu"]), Sq(p["vd"]))
         \* light Higgs boson
         f == FDiv(FSum(<<FMul(Sq(p["vd"]), M3(1)), FProd(<<p["vu"], p["vd"], FAdd(M3(2), M3(3))>>), FMul(Sq(p["vu"]), M3(4))>>), v2)
         eft == FAdd(V("1", "eft!3 1 1 0")[1], FMul(v2, L3(1)))
         tolB == IF LeftLight /\ Allowed = "left" THEN TolKnown ELSE TolB
     IN /\ Chk("three loops", FLe(FAbs(FSub(f, eft)), FMul(TolA, FAbs(f))))
        /\ Chk("quartic coupling", FLe(FMul(v2, FAbs(FSub(L3(1), L3(2)))), FMul(tolB, FAbs(f))))

Init == l = 1
Next == Heavy \/ Tree \/ Three
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
