----------------------------- MODULE LabelsTrace -----------------------------
(***************************************************************************)
(* Validates groups of evaluations of one quantity at points which differ  *)
(* by a redefinition of fields only (C23, see Labels.tla).                 *)
(* The calls of a group: the point itself, the point with its slots        *)
(* changed by relative 1e-13 (about.noisy calls together, they measure the *)
(* rounding errors), the point after the redefinition e.kind:              *)
(*   gen     first and second generation exchanged                         *)
(*   sign    mu, A, M1, M2 with the other sign; the strong coupling is off,*)
(*           as the gluino mass parameter must not be negative             *)
(*   mirror  the Higgs doublets exchanged together with top and bottom, in *)
(*           the gaugeless limit without leptons (hypercharges drop out):  *)
(*           the elements (1,1) and (2,2) of matrices are exchanged, and   *)
(*           the threshold corrections of top and bottom.                  *)
(* Known finding mixed-threshold-sign: the two corrections mixing top and   *)
(* bottom Yukawa couplings at two loops contain |mu| instead of mu.         *)
(* about.class says which outputs form one matrix (their errors are        *)
(* relative to its largest element).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.kind, e.name, l>>) /\ FALSE
Call(i) == e.calls[i]
Base == Call(1)
N == e.about.noisy
Others == (N + 1)..Len(e.calls)

\* ------------------------------------------------------------- the points
Nine == 0..8
Flavoured == {m \o "." \o ToString(i) : m \in {"mq2", "mu2", "md2", "ml2", "me2", "Yu", "Yd", "Ye", "Au", "Ad", "Ae"}, i \in Nine}
\* the slot of the base with the value of slot s after the redefinition (diagonal matrices)
GenImage(m) == [s \in {m \o "." \o ToString(i) : i \in Nine} |->
                  IF s = m \o ".0" THEN m \o ".4" ELSE IF s = m \o ".4" THEN m \o ".0" ELSE s]
GenMap == LET mats == {"mq2", "mu2", "md2", "ml2", "me2", "Yu", "Yd", "Ye", "Au", "Ad", "Ae"}
              all == [m \in mats |-> GenImage(m)]
          IN [s \in Flavoured |-> all[CHOOSE m \in mats : s \in DOMAIN all[m]][s]]
Swap(a, b) == LET M(x, y) == [s \in {x \o "." \o ToString(i) : i \in Nine} |-> y \o "." \o ToString(CHOOSE i \in Nine : s = x \o "." \o ToString(i))]
              IN M(a, b) @@ M(b, a)
MirrorMap == Swap("Yu", "Yd") @@ Swap("Au", "Ad") @@ Swap("mu2", "md2") @@ ("vu" :> "vd") @@ ("vd" :> "vu")
Negated == {"mu", "M1", "M2"} \cup {m \o "." \o ToString(i) : m \in {"Au", "Ad", "Ae"}, i \in Nine}
\* maps are built once for each group
Image(g, t, s) == CASE e.kind = "gen" -> Base.p[IF s \in DOMAIN g THEN g[s] ELSE s]
                    [] e.kind = "mirror" -> Base.p[IF s \in DOMAIN t THEN t[s] ELSE s]
                    [] e.kind = "sign" -> IF s \in Negated THEN FNeg(Base.p[s]) ELSE Base.p[s]
Small(s) == Chk(<<"bad group: coupling", s>>, FLe(FAbs(Base.p[s]), "1.1e-5"))
Related ==
  /\ Chk("bad group: slots", \A i \in DOMAIN e.calls : DOMAIN Call(i).p = DOMAIN Base.p)
  /\ Chk("bad group: noise", N >= 2 /\ Len(e.calls) > N)
  /\ \A i \in 2..N : \A s \in DOMAIN Base.p : Chk(<<"bad group: noise", s>>, FClose(Call(i).p[s], Base.p[s], "1.1e-13", "0"))
  /\ \A g \in {GenMap} : \A t \in {MirrorMap} : \A i \in Others : \A s \in DOMAIN Base.p :
       Chk(<<"bad group: slot", s>>, FEq(Call(i).p[s], Image(g, t, s)))
  /\ e.kind = "mirror" => \A s \in {"g1", "g2", "Ye.8", "Ye.4", "Yu.0", "Yu.4", "Yd.0", "Yd.4"} : Small(s)
  /\ e.kind = "sign" => Small("g3")

\* ------------------------------------------------------------- the quantities
Thr(k) == "thr!t " \o ToString(k) \o " 1 1"
\* lambda: yb^4 and yt^4; Yukawa couplings: yb(yb^2) and yt(yt^2); vacuum expectation value: yb^2 and yt^2
MirrorOp == (Thr(17) :> Thr(3)) @@ (Thr(44) :> Thr(27)) @@ (Thr(35) :> Thr(25))
Op(o) == IF e.kind = "mirror" /\ o \in DOMAIN MirrorOp THEN MirrorOp[o] ELSE o
Quantities == \A i \in DOMAIN e.calls :
  /\ Chk("bad group: operation", Call(i).o = IF i \in Others THEN Op(Base.o) ELSE Base.o)
  /\ Chk("bad group: outputs", \A m \in DOMAIN Base.v : \E c \in DOMAIN e.about.class : \E j \in DOMAIN e.about.class[c] : e.about.class[c][j] = m)
\* output of the redefined point to compare output m with: matrices are given by rows
Elem(m) == IF e.kind = "mirror" /\ Len(Base.v) % 4 = 0 THEN ((m - 1) \div 4) * 4 + 5 - (((m - 1) % 4) + 1) ELSE m

SameVerdict == \A i \in DOMAIN e.calls : Chk(<<"verdict depends on the labels", Call(i).x, Base.x>>, (Call(i).x = "") <=> (Base.x = ""))

Norm(s) == FSeqMax([j \in DOMAIN s |-> FAbs(Base.v[s[j]])])
Diff(i, n) == IF FFinite(Call(i).v[n]) THEN FAbs(FSub(Call(i).v[n], Base.v[n])) ELSE "0"
Noise(s) == FSeqMax([j \in DOMAIN s |-> FSeqMax([i \in 1..(N - 1) |-> Diff(i + 1, s[j])])])
Tolerance(c, s) == FSum(<<FMul(e.about.tols[c], Norm(s)), FMul("1e3", Noise(s)),
                          IF e.about.dims[s[1]] = 1 THEN FMul("1e-12", Base.p["MA"]) ELSE IF e.about.dims[s[1]] = 2 THEN FMul("1e-13", FMax(Base.p["mq2.8"], FMul(Base.p["MA"], Base.p["MA"]))) ELSE "0">>)
Same(i, m, t) ==
  \/ ~FFinite(Base.v[m]) /\ ~FFinite(Call(i).v[Elem(m)])
  \/ LET d == FAbs(FSub(Call(i).v[Elem(m)], Base.v[m])) IN
     Chk(<<Base.o, "output", m, "gives", FStr(Call(i).v[Elem(m)]), "instead of", FStr(Base.v[m]), "deviation", FStr(FDiv(d, t))>>, FLe(d, t))
SamePhysics == \A c \in DOMAIN e.about.class : \A s \in {e.about.class[c]} : \A t \in {Tolerance(c, s)} : \A j \in DOMAIN s : \A i \in Others : Same(i, s[j], t)

Mixed == {"eft!flag 18 1!2 1 1", "eft!flag 20 1!2 1 1", Thr(33), Thr(34)}
Known == IOEnv.KNOWN = "mixed" /\ e.kind = "sign" /\ Base.o \in Mixed

Group == /\ l <= Len(Trace)
         /\ (Related /\ Quantities /\ SameVerdict /\ (Base.x = "" => (Known \/ SamePhysics))) = TRUE
         /\ l' = l + 1
Init == l = 1
Spec == Init /\ [][Group]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"STUCK", d>>) /\ FALSE
=============================================================================
