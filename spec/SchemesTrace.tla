---------------------------- MODULE SchemesTrace ----------------------------
(***************************************************************************)
(* Validates recorded threshold corrections in several schemes (C14):      *)
(*   Schemes  answers to queries (correction, scheme) of a spec behaviour  *)
(*            at one point; also without the logarithms of the scale       *)
(*   Trunc    the conversion of the 3-loop lambda correction and the       *)
(*            correction itself, truncated in the stop mixing, at points   *)
(*            that differ in the stop mixing x only                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Ev(x) == l <= Len(Trace) /\ e.event = x /\ l' = l + 1
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE

S == INSTANCE Series WITH Add <- FAdd, Mul <- FMul, Neg <- FNeg, Zero <- "0", One <- "1"
\* strong corrections, in the order of the calculator; all others do not depend on the scheme
Rec(v) == [g |-> v[1], y |-> v[2], y2 |-> v[3], l0 |-> v[4], l1 |-> v[5], l2 |-> v[6]]
AbsRec(v) == Rec([i \in 1..6 |-> FAbs(v[i])])
Seq6(r) == <<r.g, r.y, r.y2, r.l0, r.l1, r.l2>>
\* size of the terms of the conversion
Size(v) == Seq6(S!Convert([AbsRec(v) EXCEPT !.g = FNeg(FAbs(v[1])), !.y = FNeg(FAbs(v[2])), !.y2 = FNeg(FAbs(v[3]))]))
Close(a, b, size) == FSame(a, b) \/ FLe(FAbs(FSub(a, b)), FMul("1e-10", FAdd(size, FAbs(a))))
Known == {"DRBARPRIME", "TEST"}
Scheme(s) == <<"H3m", "DRBARPRIME", "H3mMDRBAR", "MDRBARPRIME", "TEST">>[s + 1]

Converted(ref, dr) == LET x == Seq6(S!Convert(Rec(ref)))  z == Size(ref)
                      IN \A c \in DOMAIN dr : Chk(<<"re-expansion", c, FStr(dr[c])>>, Close(dr[c], IF c <= 6 THEN x[c] ELSE ref[c], IF c <= 6 THEN z[c] ELSE "0"))

Query == LET x == Seq6(S!Convert(Rec(e.ref)))  z == Size(e.ref)
             want(c, s) == IF s = "DRBARPRIME" /\ c <= 6 THEN x[c] ELSE e.ref[c]
             size(c) == IF c <= 6 THEN z[c] ELSE "0"
         IN \A k \in DOMAIN e.query : LET r == e.query[k]  s == Scheme(r.s) IN
              IF s \in Known
                THEN /\ Chk(<<"silent", r.c, s>>, ~r.said /\ ~r.thrown)
                     /\ Chk(<<"re-expansion", r.c, s, FStr(r.val), FStr(want(r.c, s))>>, Close(r.val, want(r.c, s), size(r.c)))
                ELSE /\ Chk(<<"reported", r.c, s>>, r.said \/ r.thrown)
                     /\ Chk(<<"not mixed", r.c, s, FStr(r.val)>>, r.thrown \/ Close(r.val, e.ref[r.c], size(r.c)))

Init == l = 1
Schemes == /\ Ev("Schemes")
           /\ Query
           /\ Converted(e.nolog, e.nologdr)
           /\ \A c \in 1..6 : Chk(<<"logs omitted", c, FStr(e.nolog[c]), FStr(e.at[c])>>, FClose(e.nolog[c], e.at[c], "1e-7", "1e-7"))

\* ---------------------------------------------------------------- truncation
Rel(a, b) == FDiv(FAbs(FSub(a, b)), FMin(a, b))
Near == {p \in (1..4) \X (1..4) : p[1] < p[2] /\ FLe(Rel(e.mass[p[1]], e.mass[p[2]]), "0.021")}
RECURSIVE Spread(_)
Spread(ps) == IF ps = {} THEN "0" ELSE LET p == CHOOSE x \in ps : TRUE IN FMax(Rel(e.mass[p[1]], e.mass[p[2]]), Spread(ps \ {p}))
\* near equal masses, where the limits for equal masses are used, corrections of the order of the distance are neglected
Tol == IF Near = {} THEN "1e-7" ELSE FAdd("2e-5", FMul("10", Spread(Near)))

Weight(n, k, t) == FProd([j \in 1..n |-> IF j = k THEN 1 ELSE FDiv(FSub(t, e.x[j]), FSub(e.x[k], e.x[j]))])
\* the polynomial of degree n - 1 through the first n values v
At(n, v, t) == FDot([k \in 1..n |-> Weight(n, k, t)], [k \in 1..n |-> v[k]])
RECURSIVE Pow(_, _)
Pow(t, n) == IF n = 0 THEN "1" ELSE FMul(t, Pow(t, n - 1))
Col(c) == [i \in DOMAIN e.val |-> e.val[i][c]]
\* v(x) = x^n * (polynomial of degree d)
IsPoly(name, v, n, d, size) ==
  LET w == [i \in 1..(d + 1) |-> FDiv(v[i], Pow(e.x[i], n))]
  IN \A i \in (d + 2)..Len(e.x) :
       LET z == FMul(Pow(e.x[i], n), At(d + 1, w, e.x[i]))
       IN Chk(<<name, n, d, FStr(e.x[i]), FStr(v[i]), FStr(z), FStr(size)>>, FLe(FAbs(FSub(v[i], z)), FMul(Tol, size)))
Minus(a, b) == [i \in DOMAIN a |-> FSub(a[i], b[i])]
Max(v) == FSeqMax([i \in DOMAIN v |-> FAbs(v[i])])

\* columns
Full == 2  Shift(k, o, x) == 3 + 4*(k - 3) + 2*o + x  Term(k, o) == 11 + 2*(k - 4) + o  Lam(k, o) == 17 + 2*(k - 3) + o
Trunc == /\ Ev("Trunc")
         /\ LET f == Col(Full)  z == Max(f)  la == Col(Lam(6, 1))  zl == Max(la)
            IN /\ Chk("finite", \A i \in DOMAIN e.val : \A c \in DOMAIN e.val[i] : FFinite(e.val[i][c]) /\ FFinite(e.at[i][c]))
               /\ IsPoly("conversion", f, 0, 6, z)
               /\ \A k \in {3, 4} : /\ IsPoly(<<"shift keeps up to", k>>, Col(Shift(k, 1, 1)), 0, k, z)
                                    /\ IsPoly(<<"shift drops more than", k>>, Minus(f, Col(Shift(k, 1, 1))), k + 1, 5 - k, z)
               /\ \A k \in 4..6 : IsPoly(<<"term", k>>, Col(Term(k, 1)), k, 0, z)
               /\ \A k \in 3..6 : /\ IsPoly(<<"lambda keeps up to", k>>, Col(Lam(k, 1)), 0, k, zl)
                                  /\ k > 4 \/ IsPoly(<<"lambda drops more than", k>>, Minus(la, Col(Lam(k, 1))), k + 1, 4 - k, zl)
               \* omitted logarithms: the value at the scale of the lighter stop
               /\ \A i \in DOMAIN e.val :
                    LET same(a, b, name) == Chk(<<"logs omitted", name, FStr(e.x[i]), FStr(a), FStr(b)>>, FLe(FAbs(FSub(a, b)), FMul(FMax(Tol, "1e-6"), z)))
                    IN /\ same(e.val[i][1], e.at[i][2], "conversion")
                       /\ \A k \in {3, 4} : same(e.val[i][Shift(k, 0, 0)], e.at[i][Shift(k, 1, 1)], <<"shift", k>>)
                       /\ \A k \in {3, 4} : same(FSub(e.val[i][Shift(k, 1, 0)], e.val[i][Shift(k, 1, 1)]),
                                                 FSum([j \in 1..(7 - (k + 1)) |-> FSub(e.val[i][Term(k + j, 0)], e.val[i][Term(k + j, 1)])]), <<"shift with logs", k>>)
                       /\ \A k \in 4..6 : same(e.val[i][Term(k, 0)], e.at[i][Term(k, 1)], <<"term", k>>)
                       /\ \A k \in 3..6 : same(e.val[i][Lam(k, 0)], e.at[i][Lam(k, 1)], <<"lambda", k>>)
Next == Schemes \/ Trunc
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
