----------------------------- MODULE MixingTrace -----------------------------
(***************************************************************************)
(* Validates groups of evaluations of one correction without higgsinos at  *)
(* points with the same mixing of the sfermions (C24, see Mixing.tla).     *)
(* The calls of a group: the point itself, the point with its slots        *)
(* changed by relative 1e-13 (about.noisy calls together, they measure the *)
(* rounding errors), points with other mu, At, Ab, Atau such that          *)
(*      Xt = At - mu vd/vu, Xb = Ab - mu vu/vd, Xtau = Atau - mu vu/vd     *)
(* are the same.                                                           *)
(*   hier    one-, two-, three-loop matrix of a hierarchy (about.h, sector *)
(*           t or b, scheme m or -, loop order)                            *)
(*   lam     three-loop correction to the quartic coupling of a hierarchy  *)
(*   exact   exact one- and two-loop matrices, O(at), O(at*as), same for b *)
(*   fo      one-loop matrix in the gaugeless limit and its derivative     *)
(*   lim     threshold correction about.k                                  *)
(*   eft     order about.k of the effective theory alone, about.n loops    *)
(* Matrices are projected onto the direction of the vacuum, (vd, vu).      *)
(* The hierarchies h5, and h6 at two loops, keep this up to their          *)
(* truncation only.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.kind, e.name, l>>) /\ FALSE
Call(i) == e.calls[i]
Base == Call(1)
N == e.about.noisy
Others == (N + 1)..Len(e.calls)

\* ------------------------------------------------------------- the points
Moved == {"mu", "Au.8", "Ad.8", "Ae.8"}
Cot(p) == FDiv(p["vd"], p["vu"])
Tan(p) == FDiv(p["vu"], p["vd"])
SameMixing(p, s, f) ==
  LET b == Base.p x == FMul(p["mu"], f) y == FMul(b["mu"], f)
  IN Chk(<<"bad group: mixing", s>>, FLe(FAbs(FSub(FSub(p[s], x), FSub(b[s], y))), FMul("1e-14", FSum(<<FAbs(p[s]), FAbs(b[s]), FAbs(x), FAbs(y)>>))))
Related ==
  /\ Chk("bad group: slots", \A i \in DOMAIN e.calls : DOMAIN Call(i).p = DOMAIN Base.p)
  /\ Chk("bad group: calls", N >= 2 /\ Len(e.calls) > N)
  /\ \A i \in 2..N : \A s \in DOMAIN Base.p : Chk(<<"bad group: noise", s>>, FClose(Call(i).p[s], Base.p[s], "1.1e-13", "0"))
  /\ \A i \in Others : LET p == Call(i).p IN
       /\ \A s \in DOMAIN p \ Moved : Chk(<<"bad group: slot", s>>, FEq(p[s], Base.p[s]))
       /\ SameMixing(p, "Au.8", Cot(p)) /\ SameMixing(p, "Ad.8", Tan(p)) /\ SameMixing(p, "Ae.8", Tan(p))
       /\ Chk("bad group: not moved", FLe(FMul("0.1", FAbs(Base.p["mu"])), FAbs(FSub(p["mu"], Base.p["mu"]))))

\* ------------------------------------------------------------- the quantities
S(x) == ToString(x)
Flags(k) == [f \in 1..23 |-> "flag " \o S(f - 1) \o (IF f - 1 = k THEN " 1!" ELSE " 0!")]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
\* corrections without higgsinos: strong coupling, sfermions with Yukawa couplings, D terms
Thresholds == (0..8) \cup (11..14) \cup (16..22) \cup {25, 29, 35, 36, 39, 40, 41, 43}
EffOrders(n) == CASE n = 1 -> 3..11 [] n = 2 -> {12, 15, 19, 21} [] n = 3 -> {19}
Loops(n) == CASE n = 1 -> "1 0 0" [] n = 2 -> "0 1 0" [] n = 3 -> "0 0 1"
Op == LET b == e.about IN
  CASE e.kind = "hier" -> "calc!hier " \o S(b.h) \o " " \o b.q \o " " \o b.mdr \o " " \o Loops(b.n)
    [] e.kind = "lam" -> "calc!lam " \o S(b.h) \o " t " \o b.mdr
    [] e.kind = "exact" -> "calc!mt4" \o S(b.n) \o " 0 " \o b.q \o " - 0 0"
    [] e.kind = "fo" -> b.obj \o "!d1g"
    [] e.kind = "lim" -> e.kind \o "!t " \o S(b.k) \o " 1 1"
    [] e.kind = "eft" -> "eft!" \o Cat(Flags(b.k)) \o S(b.n) \o (IF b.n = 3 THEN " 1 1 1" ELSE " 1 1")
Covered == LET b == e.about IN
  CASE e.kind = "fo" -> b.obj \in {"fo", "foat"} [] e.kind = "lim" -> b.k \in Thresholds [] e.kind = "eft" -> b.k \in EffOrders(b.n) [] OTHER -> TRUE
Quantities == Chk("bad group: operation", Covered /\ \A i \in DOMAIN e.calls : Call(i).o = Op)

\* number of matrices among the outputs
Mats == CASE e.kind \in {"hier", "exact"} -> 1 [] e.kind = "fo" -> 2 [] OTHER -> 0
Terms(i, j) == LET p == Call(i).p v == Call(i).v k == 4 * (j - 1) IN
  << FProd(<<p["vd"], p["vd"], v[k + 1]>>), FProd(<<"2", p["vd"], p["vu"], v[k + 2]>>), FProd(<<p["vu"], p["vu"], v[k + 4]>>) >>
Value(i, j) == IF Mats = 0 THEN Call(i).v[j] ELSE FSum(Terms(i, j))
Size(i, j) == IF Mats = 0 THEN FAbs(Call(i).v[j]) ELSE FSumAbs(Terms(i, j))
Outputs == 1..(IF Mats = 0 THEN Len(Base.v) ELSE Mats)

Pattern(h) == CASE h \in 0..2 -> "h3" [] h = 3 -> "h4" [] h \in 4..5 -> "h5" [] h \in {6, 11} -> "h6" [] h \in 7..10 -> "h6b" [] h \in 12..13 -> "h9"
\* hierarchies that keep the relation exactly, or up to their truncation
Relative == LET b == e.about IN
  CASE e.kind = "hier" -> LET P == Pattern(b.h) IN
         (CASE P = "h5" -> IF b.n = 1 THEN "4e-3" ELSE "2e-2" [] P = "h6" /\ b.n = 2 -> "2e-6" [] OTHER -> "1e-9")
    [] e.kind \in {"lim", "eft"} -> "1e-7"
    [] OTHER -> "1e-9"
Known == \A i \in DOMAIN e.calls : Chk(<<"rejected", Call(i).o, Call(i).x>>, Call(i).x = "")
Noise(j) == FSeqMax([i \in 1..(N - 1) |-> FAbs(FSub(Value(i + 1, j), Value(1, j)))])
Tolerance(i, j) == FAdd(FMul(Relative, FMax(Size(1, j), Size(i, j))), FMul("1e3", Noise(j)))
SameMass == \A j \in Outputs : \A i \in Others :
  LET d == FAbs(FSub(Value(i, j), Value(1, j))) t == Tolerance(i, j) IN
  /\ Chk(<<Op, "not finite">>, FFinite(Value(i, j)) /\ FFinite(Value(1, j)))
  /\ Chk(<<Op, "output", j, "gives", FStr(Value(i, j)), "instead of", FStr(Value(1, j)), "deviation", FStr(d), "allowed", FStr(t)>>, FLe(d, t))

Group == /\ l <= Len(Trace)
         /\ (Related /\ Quantities /\ Known /\ SameMass) = TRUE
         /\ l' = l + 1
Init == l = 1
Spec == Init /\ [][Group]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"STUCK", d>>) /\ FALSE
=============================================================================
