---------------------------- MODULE UncertaintyTrace ----------------------------
(***************************************************************************)
(* Validates recorded expansion uncertainties (C03):                       *)
(*   Unc: one request (hierarchy, loop orders, mass matrix below it), the  *)
(*        corrections at full depth and with each single switch lowered,   *)
(*        and the values returned by repeated requests;                    *)
(*   Rep: the uncertainties stored in a complete result.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

R13(a) == FMul("1.3", a)
R01(a) == FMul("0.1", a)
H == INSTANCE Hierarchy WITH Lt <- FLt, Minus <- FSub, Abs <- FAbs, X13 <- R13, X01 <- R01

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last     \* last: the uncertainties of the last requests
vars == <<l, last>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
e == Trace[l]
Light(m) == FSqrt(FEigMin2(m))

Init == l = 1 /\ last = <<>>

\* sum over exactly the expansion variables of the family
Expected(h, mm, full, low) ==
  LET mh == Light(FMatAdd(mm, full))
      D(v) == FSub(mh, Light(FMatAdd(mm, low[v])))
      vs == CHOOSE s \in [1 .. Cardinality(H!ExpVars(h)) -> H!ExpVars(h)] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
  IN FNorm([i \in DOMAIN vs |-> D(vs[i])])

Good(got, h, mm, full, low) ==
  LET want == Expected(h, mm, full, low)
      mh == Light(FMatAdd(mm, full))
  IN IF FIsNaN(want) THEN FIsNaN(got)
     ELSE /\ Chk("defined", FFinite(got))
          /\ Chk("non-negative", FLe(0, got))
          /\ Chk("quadratic sum of one-step truncations", FClose(got, want, "1e-6", FMul("1e-9", FAdd(mh, FSqrt(FMatMaxAbs(full))))))

Unc == /\ Ev("Unc")
       /\ \A i \in DOMAIN e.vals : Chk("same on every request", FSame(e.vals[i], e.vals[1]))
       /\ Good(e.vals[1], e.h, e.mm, e.full, e.low)
       /\ Chk("full depth restored", e.restored)
       /\ UNCHANGED last

\* a complete result: order 1 is zero by default, orders 2 and 3 are those of the selected hierarchy
Rep == /\ Ev("Rep")
       /\ Chk("one-loop uncertainty is zero by default", FEq(e.u1, 0))
       /\ Good(e.u2, e.h, FMatAdd(e.m0, e.m1), e.full2, e.low2)
       /\ Good(e.u3, e.h, FMatAdd(FMatAdd(e.m0, e.m1), e.m2), e.full3, e.low3)
       /\ Chk("full depth restored", e.restored)
       /\ UNCHANGED last
Next == Unc \/ Rep
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
