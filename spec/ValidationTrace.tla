-------------------------- MODULE ValidationTrace --------------------------
(***************************************************************************)
(* Concrete meaning of the steps of Validation, on recorded validations.   *)
(*                                                                         *)
(*  Validate  in, ok, out, again, okAgain: one validation of a point, and  *)
(*            of its result once more                                      *)
(*  Equiv     out, ok, out2: the completed point supplied in another way   *)
(*  Entry     in, ok (validation), ctors: [name -> accepted], keep         *)
(*  Value     raw, full: results of calculators for the incomplete and for *)
(*            the completed point                                          *)
(*                                                                         *)
(* Points are records of doubles; matrices are sequences of 9.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]

NaN(x) == FIsNaN(x)
Sq(x) == FMul(x, x)
Neg(x) == FLt(x, 0)
At(m, i, j) == m[3 * i + j + 1]          \* i, j = 0..2
Soft == {"mq2", "md2", "mu2", "ml2", "me2"}

----------------------------------------------------------------------------
\* what makes a point invalid, before anything is computed
NegSoft(p) == \E k \in Soft : \E i \in 1..9 : Neg(p[k][i])
BadVev(x)  == NaN(x) \/ FLe(x, 0)
Invalid(p) == NegSoft(p) \/ Neg(p.MG) \/ BadVev(p.vu) \/ BadVev(p.vd)

----------------------------------------------------------------------------
\* singular values of a 3x3 matrix, by their symmetric functions
Minor(m, i, j, k, n) == FSub(FMul(At(m, i, k), At(m, j, n)), FMul(At(m, i, n), At(m, j, k)))
Pairs == {<<0, 1>>, <<0, 2>>, <<1, 2>>}
PairSeq == <<<<0, 1>>, <<0, 2>>, <<1, 2>>>>
SumSq(s) == FDot(s, s)
Minors(m) == [n \in 1..9 |-> LET a == PairSeq[((n - 1) \div 3) + 1]
                                 b == PairSeq[((n - 1) % 3) + 1] IN Minor(m, a[1], a[2], b[1], b[2])]
Det(m) == FSum(<<FMul(At(m, 0, 0), Minor(m, 1, 2, 1, 2)), FNeg(FMul(At(m, 0, 1), Minor(m, 1, 2, 0, 2))), FMul(At(m, 0, 2), Minor(m, 1, 2, 0, 1))>>)
SingularValues(m, d) ==
    LET s == <<At(d, 0, 0), At(d, 1, 1), At(d, 2, 2)>>
        n == FSqrt(SumSq(m)) IN
    /\ \A i, j \in 0..2 : i # j => FEq(At(d, i, j), 0)
    /\ \A i \in 1..3 : FLe(0, s[i])
    /\ FLe(s[1], s[2]) /\ FLe(s[2], s[3])
    /\ FClose(SumSq(s), SumSq(m), "1e-12", 0)
    /\ FClose(SumSq(<<FMul(s[1], s[2]), FMul(s[1], s[3]), FMul(s[2], s[3])>>), SumSq(Minors(m)), "1e-10", FMul("1e-24", Sq(Sq(n))))
    /\ FClose(FProd(s), FAbs(Det(m)), "1e-10", FMul("1e-12", FMul(n, Sq(n))))

----------------------------------------------------------------------------
\* the tree-level masses implied by the couplings (in the completed point y, Yukawas are diagonal)
V2(p) == FAdd(Sq(p.vu), Sq(p.vd))
C2B(p) == FDiv(FSub(Sq(p.vd), Sq(p.vu)), V2(p))
ImpliedMW(p) == FMul(FDiv(p.g2, 2), FSqrt(V2(p)))
ImpliedMZ(p) == FDiv(FSqrt(FMul(FAdd(FMul("0.6", Sq(p.g1)), Sq(p.g2)), V2(p))), 2)
Sqrt2 == FSqrt(2)
FillOr(x, implied) == IF NaN(x) THEN implied ELSE x
MW(p) == FillOr(p.MW, ImpliedMW(p))
MZ(p) == FillOr(p.MZ, ImpliedMZ(p))
MFt(p, y)   == FillOr(p.Mt, FDiv(FMul(At(y.Yu, 2, 2), p.vu), Sqrt2))
MFb(p, y)   == FillOr(p.Mb, FDiv(FMul(At(y.Yd, 2, 2), p.vd), Sqrt2))
MFtau(p, y) == FillOr(p.Mtau, FDiv(FMul(At(y.Ye, 2, 2), p.vd), Sqrt2))
SW2(p) == LET c == Sq(FDiv(MW(p), MZ(p))) IN IF FFinite(c) THEN FSub(1, c) ELSE 0
\* weak isospin and charge (times 3) of the left-handed partner
SectorTable == [t   |-> [mL |-> "mq2", mR |-> "mu2", A |-> "Au", T3 |-> "0.5",  Q3 |-> 2,  up |-> TRUE,  M |-> "MSt",   s2 |-> "s2t",   th |-> "theta_t"],
                b   |-> [mL |-> "mq2", mR |-> "md2", A |-> "Ad", T3 |-> "-0.5", Q3 |-> -1, up |-> FALSE, M |-> "MSb",   s2 |-> "s2b",   th |-> "theta_b"],
                tau |-> [mL |-> "ml2", mR |-> "me2", A |-> "Ae", T3 |-> "-0.5", Q3 |-> -3, up |-> FALSE, M |-> "MStau", s2 |-> "s2tau", th |-> "theta_tau"]]
Fermion(s, p, y) == CASE s = "t" -> MFt(p, y) [] s = "b" -> MFb(p, y) [] s = "tau" -> MFtau(p, y)
\* D terms: MZ^2 cos(2 beta) (T3 - Q sw2) and MZ^2 cos(2 beta) Q sw2
MassMatrix(s, p, y) ==
    LET r == SectorTable[s]
        mf == Fermion(s, p, y)
        dz == FMul(Sq(MZ(p)), C2B(p))
        q == FDiv(r.Q3, 3)
        tb == FDiv(p.vu, p.vd)
        x == FMul(mf, FSub(At(p[r.A], 2, 2), IF r.up THEN FDiv(p.mu, tb) ELSE FMul(p.mu, tb)))
        mLL == FSum(<<At(p[r.mL], 2, 2), Sq(mf), FMul(dz, FSub(r.T3, FMul(q, SW2(p))))>>)
        mRR == FSum(<<At(p[r.mR], 2, 2), Sq(mf), FMul(dz, FMul(q, SW2(p)))>>)
    IN <<<<mLL, x>>, <<x, mRR>>>>
\* angle and sine: one determines the other
Th(s, p) == LET r == SectorTable[s] IN IF NaN(p[r.th]) THEN FDiv(FAsin(p[r.s2]), 2) ELSE p[r.th]
S2(s, p) == LET r == SectorTable[s] IN IF NaN(p[r.s2]) THEN FSin(FMul(2, p[r.th])) ELSE p[r.s2]
Incomplete(s, p) == LET r == SectorTable[s] IN
    NaN(p[r.M][1]) \/ NaN(p[r.M][2]) \/ NaN(Th(s, p)) \/ NaN(S2(s, p))
Size(m) == FMatMaxAbs(m)
Tachyonic(s, p, y)    == FLt(FEigMin2(MassMatrix(s, p, y)), FMul("-1e-9", Size(MassMatrix(s, p, y))))
NotTachyonic(s, p, y) == FLt(FMul("1e-9", Size(MassMatrix(s, p, y))), FEigMin2(MassMatrix(s, p, y)))

\* (f1, f2) = ((cos th, sin th), (-sin th, cos th)) (fL, fR)
Described(m, th) ==
    LET c == FCos(th)  sn == FSin(th) IN
    <<<<FAdd(Sq(FMul(c, m[1])), Sq(FMul(sn, m[2]))), FMul(FMul(sn, c), FSub(Sq(m[1]), Sq(m[2])))>>,
      <<FMul(FMul(sn, c), FSub(Sq(m[1]), Sq(m[2]))), FAdd(Sq(FMul(sn, m[1])), Sq(FMul(c, m[2])))>>>>

SectorOk(s, p, y) ==
    LET r == SectorTable[s]
        m == y[r.M]  th == y[r.th]  s2 == y[r.s2] IN
    /\ Chk(<<s, "ordered">>, FLe(m[1], m[2]))
    /\ IF Incomplete(s, p)
       THEN LET mm == MassMatrix(s, p, y) IN
            /\ Chk(<<s, "diagonalises">>, FLe(FMatMaxAbs(FMatSub(Described(m, th), mm)), FMul("5e-8", Size(mm))))
            /\ Chk(<<s, "sine">>, FClose(s2, FSin(FMul(2, th)), 0, "1e-10"))
       ELSE LET swap == FLt(p[r.M][2], p[r.M][1])
                a == IF swap THEN p[r.M][2] ELSE p[r.M][1]
                b == IF swap THEN p[r.M][1] ELSE p[r.M][2] IN
            /\ Chk(<<s, "masses kept">>, FClose(m[1], a, "1.2e-8", "1.1e-8") /\ FClose(m[2], b, "1e-14", 0))
            /\ Chk(<<s, "sine kept">>, FClose(s2, IF swap THEN FNeg(S2(s, p)) ELSE S2(s, p), "1e-12", "1e-14"))
            \* the angle is defined up to a rotation by pi
            /\ Chk(<<s, "angle kept">>, LET d == FSub(th, IF swap THEN FAdd(Th(s, p), FDiv(FMul(4, FAtan(1)), 2)) ELSE Th(s, p))
                                        IN FClose(FSin(d), 0, 0, "1e-12"))
    \* exact degeneracy is lifted, nothing else is moved
    /\ Chk(<<s, "split">>, s # "tau" /\ FLt(1, m[1]) /\ FLe(FSub(m[2], m[1]), "1e-9") => FALSE)

\* entries which completion never touches
Fixed == {"scale", "mu", "g1", "g2", "g3", "vd", "vu", "md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae", "M1", "M2", "MG", "MA"}
SameValue(a, b) == IF DOMAIN a = 1..9 THEN \A i \in 1..9 : FSame(a[i], b[i]) ELSE FSame(a, b)
SameM(a, b) == \A i \in 1..9 : FSame(a[i], b[i])
Mats == {"md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae"}

Mq2Ok(p, y) ==
    LET d == FAbs(FSub(At(p.mq2, 2, 2), At(p.mu2, 2, 2))) IN
    /\ \A i \in 1..8 : FSame(p.mq2[i], y.mq2[i])
    /\ IF FLe("1e-6", d) THEN FSame(p.mq2[9], y.mq2[9])
       ELSE FClose(p.mq2[9], y.mq2[9], "1e-7", "1e-7")
    /\ FLt(1, p.mu2[9]) => ~FEq(y.mq2[9], y.mu2[9])

CompletedOk(p, y) ==
    /\ \A k \in Fixed : Chk(<<"untouched", k>>, IF k \in Mats THEN SameM(p[k], y[k]) ELSE FSame(p[k], y[k]))
    /\ Chk("mq2", Mq2Ok(p, y))
    /\ Chk("Yu", SingularValues(p.Yu, y.Yu)) /\ Chk("Yd", SingularValues(p.Yd, y.Yd)) /\ Chk("Ye", SingularValues(p.Ye, y.Ye))
    /\ Chk("MW", FClose(y.MW, MW(p), "1e-12", 0)) /\ Chk("MZ", FClose(y.MZ, MZ(p), "1e-12", 0))
    /\ Chk("Mt", FClose(y.Mt, MFt(p, y), "1e-12", 0)) /\ Chk("Mb", FClose(y.Mb, MFb(p, y), "1e-12", 0))
    /\ Chk("Mtau", FClose(y.Mtau, MFtau(p, y), "1e-12", 0))
    /\ \A s \in {"t", "b", "tau"} : SectorOk(s, p, y)

\* a and b describe the same completed point
Angles == {"theta_t", "theta_b", "theta_tau"}
Near(a, b, rel, abs) == FClose(a, b, rel, abs)
SamePoint(a, b, rel) ==
    /\ \A k \in Fixed \ {"md2"} : Chk(<<"same", k>>, IF k \in Mats THEN \A i \in 1..9 : Near(a[k][i], b[k][i], rel, 0) ELSE Near(a[k], b[k], rel, 0))
    /\ \A k \in {"mq2", "md2"} : Chk(<<"same", k>>, \A i \in 1..9 : Near(a[k][i], b[k][i], rel, 0))
    /\ \A k \in {"Yu", "Yd", "Ye"} : Chk(<<"same", k>>, \A i \in 1..9 : Near(a[k][i], b[k][i], rel, "1e-15"))
    /\ \A k \in {"MW", "MZ", "Mt", "Mb", "Mtau"} : Chk(<<"same", k>>, Near(a[k], b[k], rel, 0))
    /\ \A k \in {"MSt", "MSb", "MStau"} : Chk(<<"same", k>>, \A i \in 1..2 : Near(a[k][i], b[k][i], rel, 0))
    /\ \A k \in {"s2t", "s2b", "s2tau"} : Chk(<<"same", k>>, Near(a[k], b[k], rel, FMul(10, rel)))
    /\ \A k \in Angles : Chk(<<"same", k>>, Near(FSin(FSub(a[k], b[k])), 0, 0, FMul(10, rel)))

----------------------------------------------------------------------------
\* the diagonalised Yukawas are needed to tell whether a point is tachyonic: those of the completed point if there
\* is one, otherwise the recorder supplies points whose Yukawas are diagonal and ordered
Yuk(e) == IF e.ok THEN e.out ELSE e.in
MustReject(e) == Invalid(e.in) \/ \E s \in {"t", "b", "tau"} : Incomplete(s, e.in) /\ Tachyonic(s, e.in, Yuk(e))
MustAccept(e) == ~Invalid(e.in) /\ \A s \in {"t", "b", "tau"} : Incomplete(s, e.in) => NotTachyonic(s, e.in, Yuk(e))
DecisionOk(e) ==
    /\ Chk("rejected an acceptable point", MustAccept(e) => e.ok)
    /\ Chk("accepted an invalid point", MustReject(e) => ~e.ok)

Validate ==
    /\ Ev("Validate")
    /\ DecisionOk(E)
    \* (that the concrete point has the defects of the abstract case it was made for is counted by the driver)
    /\ E.ok => CompletedOk(E.in, E.out)
    /\ E.ok => Chk("accepted again", E.okAgain)
    /\ E.ok => SamePoint(E.out, E.again, "1e-13")

Equiv ==
    /\ Ev("Equiv")
    /\ Chk("equivalent point accepted", E.ok)
    /\ E.ok => SamePoint(E.out, E.out2, "3e-8")

Entry ==
    /\ Ev("Entry")
    /\ DecisionOk(E)
    /\ \A i \in DOMAIN E.ctors : Chk(<<"entry point", E.ctors[i][1]>>, E.ctors[i][2] = E.ok)
    /\ Chk("caller's point untouched", E.keep)

Value ==
    /\ Ev("Value")
    /\ \A i \in DOMAIN E.raw :
          Chk(<<"value for incomplete input", E.names[i], E.raw[i], E.full[i]>>, FClose(E.raw[i], E.full[i], "1e-6", FMul("1e-6", E.size[i])))

Init == l = 1
Next == Validate \/ Equiv \/ Entry \/ Value
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
