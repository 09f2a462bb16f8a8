--------------------------- MODULE DispatchTrace ---------------------------
(***************************************************************************)
(* Validates groups of related evaluations of the two-loop corrections     *)
(* (C17, see Dispatch.tla).  Each event holds the calls <<f, args, matrix>>*)
(* of one group; how the arguments of a group are related is checked here, *)
(* not trusted:                                                            *)
(*   relabel  the two states of a sfermion exchanged, the mixing angle     *)
(*            shifted by pi                                                *)
(*   line     a straight line of mass matrices through a special point     *)
(*            (equal masses, no mixing, gluino = stop, stop = sbottom,     *)
(*            mu = 0): four outer points and points that close in          *)
(*   mirror   top and bottom exchanged together with the Higgs doublets    *)
(*   heavy    with and without the correction to the heavy Higgs masses    *)
(*   charge   the couplings enter as g3^2 y^2 resp. y^4                    *)
(*   noyb     no bottom Yukawa coupling: independent of the bottom mass,   *)
(*            and the limit of a small coupling                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.name, l>>) /\ FALSE
Set(s) == {s[i] : i \in DOMAIN s}
Sq(a) == FMul(a, a)

\* ------------------------------------------------------------- arguments by name
Sfermions(f) == CASE f = "as" -> <<"t">> [] f = "abs" -> <<"b">> [] f = "at" -> <<"t", "b">> [] f = "tau" -> <<"u">> [] f = "bt" -> <<"u", "b">>
Layout(f) == CASE f = "as"  -> <<"mt2", "mg", "t1", "t2", "ts", "tc", "Q2", "mu", "tb", "v2", "g3", "heavy">>
               [] f = "abs" -> <<"mb2", "mg", "b1", "b2", "bs", "bc", "Q2", "mu", "cotb", "v2", "g3", "heavy">>
               [] f = "at"  -> <<"mt2", "mb2", "mA2", "t1", "t2", "b1", "b2", "ts", "tc", "bs", "bc", "Q2", "mu", "tb", "v2", "heavy", "noyb">>
               [] f = "tau" -> <<"mu2", "mA2", "snu", "u1", "u2", "us", "uc", "Q2", "mu", "tb", "v2", "heavy">>
               [] f = "bt"  -> <<"mu2", "mb2", "u1", "u2", "b1", "b2", "us", "uc", "bs", "bc", "Q2", "mu", "tb", "v2", "heavy">>
Names(f) == Set(Layout(f))
Arg(c, n) == c.a[CHOOSE i \in DOMAIN Layout(c.f) : Layout(c.f)[i] = n]
TanB(c) == IF "tb" \in Names(c.f) THEN Arg(c, "tb") ELSE FDiv("1", Arg(c, "cotb"))
SfNames(s) == CASE s = "t" -> <<"t1", "t2", "ts", "tc">> [] s = "b" -> <<"b1", "b2", "bs", "bc">> [] s = "u" -> <<"u1", "u2", "us", "uc">>
Sf(c, s) == LET n == SfNames(s) IN <<Arg(c, n[1]), Arg(c, n[2]), Arg(c, n[3]), Arg(c, n[4])>>
\* mass matrix of a sfermion: <<LL, RR, off>>
MassMatrix(q) == <<FAdd(FMul(q[1], Sq(q[4])), FMul(q[2], Sq(q[3]))), FAdd(FMul(q[1], Sq(q[3])), FMul(q[2], Sq(q[4]))),
                   FMul(FSub(q[1], q[2]), FMul(q[3], q[4]))>>
Near(a, b, scale) == FLe(FAbs(FSub(a, b)), FMul("1e-13", scale))
SameMatrix(p, q) == LET A == MassMatrix(p)  B == MassMatrix(q)  n == FAdd(A[1], A[2]) IN \A i \in 1..3 : Near(A[i], B[i], n)
Others(f) == Names(f) \ UNION {Set(SfNames(s)) : s \in Set(Sfermions(f))}

\* ------------------------------------------------------------- matrices
Entries(m) == <<m[1][1], m[1][2], m[2][2]>>
Size(m) == FSeqMax(<<FAbs(m[1][1]), FAbs(m[1][2]), FAbs(m[2][2])>>)
\* along the direction of the light Higgs boson
Light(c) == LET t == TanB(c)  n == FAdd("1", Sq(t))
            IN FDiv(FSum(<<c.m[1][1], FProd(<<"2", t, c.m[1][2]>>), FMul(Sq(t), c.m[2][2])>>), n)
Regular(c) == /\ \A i, k \in 1..2 : Chk("finite", FFinite(c.m[i][k]))
              /\ Chk("symmetric", FSame(c.m[1][2], c.m[2][1]))
\* special points: rounding errors of the single entries are large, compared along the light Higgs boson only
LightClose(c, d, r) == FLe(FAbs(FSub(FMul(r, Light(c)), Light(d))), FAdd("1e-12", FMul("2e-2", FAdd(FAbs(Light(d)), FMul("1e-3", Size(d.m))))))
AllClose(a, b, tol) == FLe(FMatMaxAbs(FMatSub(a, b)), FMul(tol, FAdd(FMatMaxAbs(a), FMatMaxAbs(b))))

Call(i) == e.calls[i]
N == Len(e.calls)
Same(c, d, except) == \A n \in Names(c.f) \ except : Chk(<<"bad group: argument", n>>, FClose(Arg(c, n), Arg(d, n), "1e-12", "0"))
Ev(k) == l <= Len(Trace) /\ e.event = "Group" /\ e.kind = k /\ \A i \in 1..N : Regular(Call(i)) /\ l' = l + 1

Relabel ==
  /\ Ev("relabel")
  /\ \A i \in 2..N :
       /\ \A n \in Others(Call(1).f) : Chk(<<"bad group: argument", n>>, FEq(Arg(Call(1), n), Arg(Call(i), n)))
       /\ \A s \in Set(Sfermions(Call(1).f)) : Chk("bad group: other sfermion", SameMatrix(Sf(Call(1), s), Sf(Call(i), s)))
       /\ e.about.special # <<>> \/ Chk(<<"does not depend on labels", Call(i).f, i>>, AllClose(Call(1).m, Call(i).m, "1e-5"))
       /\ Chk(<<"light Higgs mass does not depend on labels", Call(i).f, i>>,
              IF e.about.special # <<>> THEN LightClose(Call(1), Call(i), "1")
              ELSE FLe(FAbs(FSub(Light(Call(1)), Light(Call(i)))), FAdd("1e-12", FMul("1e-6", FAdd(FAbs(Light(Call(1))), FMul("1e-3", Size(Call(1).m)))))))

\* dMA (sb^2, -sb cb; -sb cb, cb^2): does not reach the light Higgs boson
Heavy ==
  /\ Ev("heavy")
  /\ LET c == Call(1)  d == Call(2)  t == TanB(c)  x == FMatSub(d.m, c.m)  n == FMul("1e-9", FAdd(Size(c.m), Size(d.m)))
     IN /\ Same(c, d, {"heavy"}) /\ FEq(Arg(c, "heavy"), "0") /\ FEq(Arg(d, "heavy"), "1")
        /\ LET a == IF FLe("1", t) THEN x[1][1] ELSE FMul(x[2][2], Sq(t))
           IN Chk(<<"heavy Higgs part", c.f>>, /\ FLe(FAbs(FAdd(x[1][2], FDiv(a, t))), n)
                                             /\ FLe(FAbs(FSub(x[2][2], FDiv(a, Sq(t)))), n)
                                             /\ FLe(FAbs(FSub(x[1][1], a)), FMul(n, FMax("1", Sq(t)))))

\* g3 -> r g3 or v -> v/r at fixed masses
Charge ==
  /\ Ev("charge")
  /\ LET c == Call(1)  d == Call(2)  f == c.f  g == IF f \in {"as", "abs"} THEN "g3" ELSE "v2"
         r == FDiv(Arg(d, g), Arg(c, g))
     IN /\ Same(c, d, {g})
        /\ Chk(<<"power of the coupling", f>>, LET x == IF g = "g3" THEN Sq(r) ELSE FDiv("1", Sq(r))
                                              IN IF e.about.special = <<>> THEN AllClose(FMatScale(x, c.m), d.m, "1e-4") ELSE LightClose(c, d, x))
\* at fixed masses the strong corrections are quadratic in the Yukawa coupling
ChargeY ==
  /\ Ev("yukawa")
  /\ LET c == Call(1)  d == Call(2)  r == FDiv(Arg(d, "v2"), Arg(c, "v2"))
     IN /\ Same(c, d, {"v2"})
        /\ Chk(<<"power of the Yukawa coupling", c.f>>, AllClose(FMatScale(FDiv("1", r), c.m), d.m, "1e-9"))

Swap(m) == <<<<m[2][2], m[1][2]>>, <<m[1][2], m[1][1]>>>>
Other(n) == CASE n = "mt2" -> "mb2" [] n = "mb2" -> "mt2" [] n = "t1" -> "b1" [] n = "t2" -> "b2" [] n = "ts" -> "bs" [] n = "tc" -> "bc"
              [] n = "b1" -> "t1" [] n = "b2" -> "t2" [] n = "bs" -> "ts" [] n = "bc" -> "tc" [] n = "tb" -> "cotb" [] OTHER -> n
Mirror ==
  /\ Ev("mirror")
  /\ LET c == Call(1)  d == Call(2)
     IN /\ IF c.f = "as"
             THEN d.f = "abs" /\ \A n \in Names("as") : Chk(<<"bad group: argument", n>>, FClose(Arg(c, n), Arg(d, Other(n)), "1e-14", "0"))
             ELSE c.f = "at" /\ d.f = "at" /\ FEq(Arg(c, "noyb"), "0") /\
                  \A n \in Names("at") : Chk(<<"bad group: argument", n>>, IF n = "tb" THEN FClose(Arg(c, n), FDiv("1", Arg(d, n)), "1e-14", "0") ELSE FEq(Arg(c, n), Arg(d, Other(n))))
        /\ Chk(<<"mirror image", c.f, d.f>>, 
               IF e.about.special = <<>> THEN AllClose(Swap(c.m), d.m, "1e-4")
               ELSE LightClose(c, d, "1"))

NoYb ==
  /\ Ev("noyb")
  /\ LET c == Call(1)  d == Call(2)  b(x) == MassMatrix(Sf(x, "b"))
     IN /\ Same(c, d, {"mb2", "noyb"})
        /\ FEq(Arg(c, "noyb"), "1")
        /\ FEq(Arg(d, "noyb"), "1") \/ FLe(Arg(d, "mb2"), "1e-8")
        /\ Chk("independent of the bottom mass", IF e.about.special = <<>> THEN AllClose(c.m, d.m, "2e-3") ELSE LightClose(c, d, "1"))

\* ------------------------------------------------------------- lines
\* e.about: t (positions), and per call the parameters of the line
\* four outer points at -2, -1, 1, 2; Lagrange interpolation with four points
T(i) == e.about.t[i]
Basis(t, i) == LET x == <<"-2", "-1", "1", "2">>
               IN FProd([k \in 1..4 |-> IF k = i THEN "1" ELSE FDiv(FSub(t, x[k]), FSub(x[i], x[k]))])
Cubic(t, y) == FSum([i \in 1..4 |-> FMul(Basis(t, i), y[i])])
Special(w) == \E i \in DOMAIN e.about.special : e.about.special[i] = w
\* rounding errors of the single entries
Tol(f) == CASE f \in {"as", "abs"} -> "3e-2"
            [] f = "tau" -> IF Special("mu") THEN "inf" ELSE "3e-2"
            [] f = "bt" -> "3e-2"
            [] f = "at" -> IF Special("tdX") \/ Special("bdX") THEN "inf" ELSE IF Special("tX") THEN "0.3" ELSE "2e-2"
LineOf(y, tol, scale, what) ==
  LET E == [i \in 1..(N - 4) |-> FSub(y[i + 4], Cubic(T(i + 4), SubSeq(y, 1, 4)))]
      Mid == FDiv(FAdd(FSeqMax(E), FSeqMin(E)), "2")
  IN /\ Chk(<<"no step on the line", what, Call(1).f, FStr(FDiv(FSub(FSeqMax(E), FSeqMin(E)), scale))>>,
            FLe(FSub(FSeqMax(E), FSeqMin(E)), FMul(tol, scale)))
     /\ Chk(<<"the line is smooth", what, Call(1).f, FStr(FDiv(Mid, scale))>>, FLe(FAbs(Mid), FMul(FAdd(tol, "0.1"), scale)))
Coordinates(c) == LET s == Sfermions(c.f)
                  IN (IF Len(s) = 1 THEN MassMatrix(Sf(c, s[1])) ELSE MassMatrix(Sf(c, s[1])) \o MassMatrix(Sf(c, s[2])))
                     \o <<Arg(c, "mu")>> \o (IF c.f \in {"as", "abs"} THEN <<Arg(c, "mg")>> ELSE <<>>)
Line ==
  /\ Ev("line")
  /\ N >= 10 /\ \A i \in 1..4 : FEq(T(i), <<"-2", "-1", "1", "2">>[i])
  /\ \E i \in 5..N : FEq(T(i), "0")
  \* it is a line
  /\ LET q == [i \in 1..N |-> Coordinates(Call(i))]  k == DOMAIN q[1]
     IN \A j \in k : LET y == [i \in 1..N |-> q[i][j]]  n == FSeqMax([i \in 1..N |-> FAbs(y[i])])
                         slope == FDiv(FSub(y[4], y[1]), "4")  mid == FDiv(FAdd(y[4], y[1]), "2")
                     IN \A i \in 1..N : Chk(<<"bad group: not a line", j, i>>, FLe(FAbs(FSub(y[i], FAdd(mid, FMul(slope, T(i))))), FAdd(FMul("1e-9", n), "1e-6")))
  /\ LET c == [i \in 1..N |-> Call(i)]
         y == [i \in 1..N |-> Light(c[i])]
     IN /\ LineOf(y, "2e-2", FAdd("1e-10", FSeqMax([i \in 1..4 |-> FAbs(y[i])])), "light Higgs mass")
        /\ FEq(Arg(Call(1), "heavy"), "0") \/ Tol(Call(1).f) = "inf" \/
             \A k \in 1..3 : LineOf([i \in 1..N |-> Entries(c[i].m)[k]], Tol(Call(1).f), FSeqMax([i \in 1..4 |-> Size(c[i].m)]), <<"entry", k>>)

Init == l = 1
Next == Relabel \/ Heavy \/ Charge \/ ChargeY \/ Mirror \/ NoYb \/ Line
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
