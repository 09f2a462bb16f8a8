--------------------------- MODULE SpectrumTrace ---------------------------
(***************************************************************************)
(* Validates recorded tree-level spectra (C15):                            *)
(*   Ops       parts of a spectrum recalculated after changes of the       *)
(*             parameters, as in the behaviours of Spectrum.tla            *)
(*   Spectrum  all masses and mixings, also of the gaugeless and of the    *)
(*             third-generation-only variant of the fixed-order class      *)
(*   Linear    diagonalisations of given matrices                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Ev(x) == l <= Len(Trace) /\ e.event = x /\ l' = l + 1
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE

ROf(n) == ToString(n)
S == INSTANCE Sectors WITH Add <- FAdd, Mul <- FMul, Neg <- FNeg, Of <- ROf
Set(s) == {s[i] : i \in DOMAIN s}

\* ------------------------------------------------------------- cached sectors
RECURSIVE Run(_, _, _)
Run(i, cur, ver) ==
  IF i > Len(e.ops) THEN TRUE
  ELSE LET o == e.ops[i]
           cur2 == IF o.op = "par" THEN o.p ELSE cur
           ver2 == [s \in DOMAIN ver |-> IF o.op \in {"all", s} THEN cur2 ELSE ver[s]]
       IN /\ \A s \in DOMAIN ver : Chk(<<"sector", s, "is that of the parameters", ver2[s], "step", i>>, ver2[s] \in Set(o.match[s]))
          /\ Run(i + 1, cur2, ver2)
Ops == Ev("Ops") /\ Run(1, 1, [s \in Set(S!Names) |-> 1])

\* ------------------------------------------------------------- spectra
rt2 == FSqrt("2")
Third == e.kind = "third"
P == LET q == e.par
     IN [g1 |-> q.g1, g2 |-> q.g2, vu |-> q.vu, vd |-> q.vd, mu |-> q.mu, mA2 |-> FMul(q.MA, q.MA), M1 |-> q.M1, M2 |-> q.M2,
         yt |-> FDiv(q.Yt, rt2), yb |-> IF Third THEN "0" ELSE FDiv(q.Yb, rt2), ytau |-> IF Third THEN "0" ELSE FDiv(q.Ytau, rt2),
         Au |-> q.Au, Ad |-> q.Ad, Ae |-> q.Ae, mq2 |-> q.mq2, mu2 |-> q.mu2, md2 |-> q.md2, ml2 |-> q.ml2, me2 |-> q.me2,
         kap |-> FSqrt("0.6"), rt2 |-> rt2]
Norm(s) == CASE s \in {"Ft", "Fb", "Ftau"} -> "1"
             [] s \in {"Chi", "Cha"} -> "2"
             [] s \in {"hh", "Ah", "Hpm"} -> FMul("40", S!V2(P))
             [] OTHER -> "40"
Scalars == {"VZ", "VWm", "Ft", "Fb", "Ftau", "SveL", "SvmL", "SvtL"}
\* neglected Yukawa couplings; equal soft masses are split
Neglected == IF Third THEN FMul("1e-5", FSum(<<FAbs(FMul(P.mu, FSqrt(S!V2(P)))), FAbs(FMul(P.Ad, P.vd)), FAbs(FMul(P.Ae, P.vd)), "1", FMul("3e-3", FSum(P.mq2 \o P.mu2 \o P.md2 \o P.ml2 \o P.me2))>>)) ELSE "0"
Diag(w) == [i \in DOMAIN w |-> [j \in DOMAIN w |-> IF i = j THEN w[i] ELSE "0"]]
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
Close(a, b, rel, abs) == FLe(FMatMaxAbs(FMatSub(a, b)), FAdd(FMul(rel, FAdd(FMatMaxAbs(a), FMatMaxAbs(b))), abs))
Orthogonal(z) == Close(FMatMul(z, FTranspose(z)), Unit(Len(z)), "1e-12", "0")
Ascending(w, rel) == \A i \in 1..(Len(w) - 1) : FLe(FAbs(w[i]), FAdd(FAbs(w[i + 1]), rel))
Spectrum ==
  /\ Ev("Spectrum")
  /\ \A s \in Set(S!Names) :
       LET x == e.sec[s]  M == S!Matrix(P, s)  n == Norm(s)  N(what) == <<e.kind, s, what>>
       IN IF s \in Scalars
            THEN Chk(N("mass"), FClose(x.w[1], FDiv(M, n), "1e-11", FAdd("1e-300", IF s \in {"SveL", "SvmL", "SvtL"} THEN FMul("1e-12", S!V2(P)) ELSE Neglected)))
            ELSE LET m == FMatScale(FDiv("1", n), M)
                     big == FMatMaxAbs(m)
                     back == FMatMul(FTranspose(x.z), FMatMul(Diag(x.w), IF s = "Cha" THEN x.u ELSE x.z))
                 IN /\ Chk(N("mass matrix"), Close(x.m, m, "1e-12", Neglected))
                    /\ Chk(N("orthogonal mixing"), Orthogonal(x.z) /\ (s = "Cha" => Orthogonal(x.u)))
                    /\ Chk(N("diagonalisation"), (Third /\ s = "hh") \/ Close(back, m, "1e-11", Neglected))
                    /\ Chk(N("ascending masses"), Ascending(x.w, "0"))
                    \* sum rules
                    /\ Chk(N("trace"), (Third /\ s = "hh") \/ s = "Cha" \/ FClose(FSum(x.w), FMatTrace(m), "1e-11", FAdd(FMul("1e-11", big), Neglected)))
                    /\ Chk(N("non-negative"), s # "Cha" \/ \A i \in DOMAIN x.w : FLe("0", x.w[i]))
                    /\ Chk(N("light Higgs mass removed"), ~(Third /\ s = "hh") \/ FEq(x.w[1], "0"))
  \* Goldstone bosons: the mass of the gauge boson is among the masses, first if the other Higgs boson is heavier
  /\ LET G(s, v) == LET w == e.sec[s].w  b == e.sec[v].w[1]  big == FAdd(FMul("1e-11", FAbs(w[2])), "1e-9")
                    IN /\ Chk(<<e.kind, s, "Goldstone boson", FStr(w[1]), FStr(b)>>, FClose(w[1], b, "1e-9", big) \/ (FLe(P.mA2, b) /\ FClose(w[2], b, "1e-9", big)))
                       /\ Chk(<<e.kind, s, "Higgs boson">>, FClose(FSum(w), FSum(<<P.mA2, b, IF s = "Hpm" THEN b ELSE "0">>), "1e-9", big))
     IN G("Ah", "VZ") /\ G("Hpm", "VWm")

\* ------------------------------------------------------------- diagonalisations of given matrices (real and imaginary parts)
CMul(a, b) == [r |-> FMatSub(FMatMul(a.r, b.r), FMatMul(a.i, b.i)), i |-> FMatAdd(FMatMul(a.r, b.i), FMatMul(a.i, b.r))]
CT(a) == [r |-> FTranspose(a.r), i |-> FTranspose(a.i)]
CConj(a) == [r |-> a.r, i |-> FMatScale("-1", a.i)]
CClose(a, b, rel, abs) == LET size == FSum(<<FMatMaxAbs(a.r), FMatMaxAbs(a.i), FMatMaxAbs(b.r), FMatMaxAbs(b.i)>>)
                          IN FLe(FMax(FMatMaxAbs(FMatSub(a.r, b.r)), FMatMaxAbs(FMatSub(a.i, b.i))), FAdd(FMul(rel, size), abs))
Unitary(a) == LET n == Len(a.r) IN CClose(CMul(a, CConj(CT(a))), [r |-> Unit(n), i |-> FMatScale("0", Unit(n))], "1e-11", "0")
Linear ==
  /\ Ev("Linear")
  /\ LET m == [r |-> e.m, i |-> e.mi]  z == [r |-> e.z, i |-> e.zi]  n == Len(e.w)
         u == IF e.kind \in {"svd", "svdc"} THEN [r |-> e.u, i |-> e.ui] ELSE z
         left == IF e.kind = "herm" THEN CConj(CT(z)) ELSE CT(z)
         d == [r |-> Diag(e.w), i |-> FMatScale("0", Unit(n))]
         N(what) == <<e.kind, n, what, e.name>>
     IN /\ Chk(N("unitary"), Unitary(z) /\ Unitary(u))
        /\ Chk(N("reproduces"), CClose(CMul(left, CMul(d, u)), m, "1e-10", "1e-300"))
        /\ Chk(N("ascending"), Ascending(e.w, "0"))
        /\ Chk(N("non-negative"), e.kind = "herm" \/ \A i \in DOMAIN e.w : FLe("0", e.w[i]))
        /\ Chk(N("values only"), \A i \in DOMAIN e.w : FClose(e.w[i], e.w2[i], "1e-9", FAdd("1e-300", FMul("1e-7", FAbs(e.w[n])))))
Init == l = 1
Next == Ops \/ Spectrum \/ Linear
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
