-------------------------- MODULE CovarianceTrace --------------------------
(***************************************************************************)
(* Validates groups of evaluations of one quantity at the same parameter   *)
(* point given in different units of mass (C18, see Covariance.tla).       *)
(* Every slot of the point has a mass dimension (fixed here), about.dims   *)
(* gives those of the outputs; about.class says which outputs form one     *)
(* matrix (their errors are relative to its largest element).              *)
(* The calls of a group: the point itself (unit 1), the point with its     *)
(* slots changed by relative 1e-13 (unit 1; they measure the rounding      *)
(* errors), the point in other units.                                      *)
(* Unit k multiplies a slot of dimension d by k^d.  Then every call is     *)
(* rejected or none (SameVerdict), and an output of dimension d is k^d     *)
(* times that of the point (Scales).                                       *)
(*                                                                         *)
(* Known finding h6b-squark-distance: the hierarchies h6b* take the        *)
(* difference of squark and stop mass where the difference of the squared  *)
(* masses belongs.  Their three-loop terms are polynomials of degree 2 in  *)
(* it, hence in a unit k a polynomial of degree 2 in 1/k: Polynomial.      *)
(* Groups of kind "equal" have equal squark and stop masses, there they    *)
(* have to scale like all others.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, e.kind, e.name, l>>) /\ FALSE
Call(i) == e.calls[i]
Unit(i) == e.about.units[i]
Calls == DOMAIN e.calls
Base == Call(1)
Power(k, d) == CASE d = 0 -> "1" [] d = 1 -> k [] d = 2 -> FMul(k, k)

\* ------------------------------------------------------------- mass dimensions of the input
Dimless == {"g1", "g2", "g3", "theta_t", "theta_b", "theta_tau", "s2t", "s2b", "s2tau", "massLimit3LThreshold"}
Yukawas == {m \o g : m \in {"Yu.", "Yd.", "Ye."}, g \in {ToString(i) : i \in 0..8}}
Squared == {m \o g : m \in {"mq2.", "mu2.", "md2.", "ml2.", "me2."}, g \in {ToString(i) : i \in 0..8}}
SlotDim(s) == IF s \in Dimless \cup Yukawas THEN 0 ELSE IF s \in Squared THEN 2 ELSE 1
Related == \A i \in Calls :
  /\ Chk("bad group: slots", DOMAIN Call(i).p = DOMAIN Base.p)
  /\ \A s \in DOMAIN Base.p : Chk(<<"bad group: slot", s>>, FSame(Call(i).p[s], Base.p[s]) \/ FClose(Call(i).p[s], FMul(Power(Unit(i), SlotDim(s)), Base.p[s]), "1.1e-13", "0"))
  /\ Chk("bad group: operation", Call(i).o = Base.o)
  /\ Chk("bad group: outputs", \A m \in DOMAIN Base.v : \E c \in DOMAIN e.about.class : \E j \in DOMAIN e.about.class[c] : e.about.class[c][j] = m)

\* ------------------------------------------------------------- verdict
SameVerdict == \A i \in Calls : Chk(<<"verdict depends on the unit", Unit(i), Call(i).x, Base.x>>, (Call(i).x = "") <=> (Base.x = ""))

\* ------------------------------------------------------------- outputs
Dim(m) == e.about.dims[m]
\* in units of the base
Out(i, m) == FDiv(Call(i).v[m], Power(Unit(i), Dim(m)))
Norm(s) == FSeqMax([j \in DOMAIN s |-> FAbs(Base.v[s[j]])])
\* the calls 2..about.noisy
Diff(i, n) == IF FFinite(Call(i).v[n]) THEN FAbs(FSub(Call(i).v[n], Base.v[n])) ELSE "0"
Noise(s) == FSeqMax([j \in DOMAIN s |-> FSeqMax([i \in 1..(e.about.noisy - 1) |-> Diff(i + 1, s[j])])])
\* outputs which depend on the three-loop corrections of h6b*
Affected(m) == e.about.selected /\ FLe("7", Base.v[1]) /\ FLe(Base.v[1], "10") /\ m \in {e.about.deep[j] : j \in DOMAIN e.about.deep}
Tolerance(c, s) == FAdd(FMul(e.about.tols[c], Norm(s)), FAdd(FMul("1e3", Noise(s)), IF Dim(s[1]) = 1 THEN FMul("1e-12", Base.p["MA"]) ELSE IF Dim(s[1]) = 2 THEN FMul("1e-13", FMax(Base.p["mq2.8"], FMul(Base.p["MA"], Base.p["MA"]))) ELSE "0"))
Scaled(i, m, t) ==
  \/ ~FFinite(Base.v[m]) /\ ~FFinite(Call(i).v[m])
  \/ \A o \in {Out(i, m)} : LET d == FAbs(FSub(o, Base.v[m])) IN
     Chk(<<Base.o, "output", m, "unit", Unit(i), "gives", FStr(o), "instead of", FStr(Base.v[m]), "deviation", FStr(FDiv(d, t))>>, FLe(d, t))
Scales == \A c \in DOMAIN e.about.class : \A s \in {e.about.class[c]} : \A t \in {Tolerance(c, s)} : \A j \in DOMAIN s :
  \/ Affected(s[j])
  \/ \A i \in (e.about.noisy + 1)..Len(e.calls) : Scaled(i, s[j], t)

\* ------------------------------------------------------------- h6b*: polynomial of degree 2 in 1/k, units 1, k, k/2, k/4, k/8
Known == IOEnv.KNOWN
Mat == {1, 2, 4}
Mx(i) == FMax(FAbs(Out(i, 1)), FMax(FAbs(Out(i, 2)), FAbs(Out(i, 4))))
Poly == \A m \in Mat : \A u \in {[j \in 1..4 |-> FDiv("1", Unit(j + 1))]} : \A y \in {<<Out(2, m), Out(3, m), Out(4, m), Out(5, m)>>} :
   LET d1(a, b) == FDiv(FSub(y[b], y[a]), FSub(u[b], u[a]))
       d2(a, b, c) == FDiv(FSub(d1(b, c), d1(a, b)), FSub(u[c], u[a]))
       d3 == FDiv(FSub(d2(2, 3, 4), d2(1, 2, 3)), FSub(u[4], u[1]))
       range == FSub(u[4], u[1])
       dev == FDiv(FAbs(FMul(d3, FMul(range, FMul(range, range)))), FMax(FMax(Mx(2), Mx(3)), FMax(Mx(4), Mx(5))))
   IN Chk(<<"not a polynomial of degree 2", m, FStr(dev)>>, FLe(dev, "1e-5"))
Covariant == \A m \in Mat : LET n == Len(e.calls) IN FLe(FAbs(FSub(Out(n, m), Base.v[m])), FMul("1e-6", FMax(FAbs(Base.v[1]), FAbs(Base.v[4]))))
Polynomial == /\ Poly
              /\ Known = "h6b" \/ Chk("three-loop corrections of h6b", Covariant)

\* ------------------------------------------------------------- the trace
Group == /\ l <= Len(Trace)
         /\ (Related /\ SameVerdict /\ (Base.x = "" => IF e.kind = "poly" THEN Polynomial ELSE Scales)) = TRUE
         /\ l' = l + 1
Init == l = 1
Spec == Init /\ [][Group]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"STUCK", d>>) /\ FALSE
=============================================================================
