----------------------------- MODULE SelectionTrace -----------------------------
(***************************************************************************)
(* Validates recorded hierarchy selections against Selection: per point    *)
(*   Begin  masses, soft parameters, tree-level mass matrix                *)
(*   Cand   (once per hierarchy) exact and expanded corrections,           *)
(*          uncertainties, as obtained by separate public calls            *)
(*   End    what compareHierarchies / calculateDMh3L returned or threw     *)
(* The recorder logs all 14 candidates; which of them count, the errors,   *)
(* and the selection are decided here.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64

R13(a) == FMul("1.3", a)
R01(a) == FMul("0.1", a)
H == INSTANCE Hierarchy WITH Lt <- FLt, Minus <- FSub, Abs <- FAbs, X13 <- R13, X01 <- R01

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pt, seen, st
vars == <<l, pt, seen, st>>

Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
e == Trace[l]

Tol == "1e-9"
Light(m) == FSqrt(FEigMin2(m))

Init == l = 1 /\ pt = <<>> /\ seen = <<>> /\ st = "idle"

\* average light squark mass: geometric mean of the ten squark masses
MeanSq(p) ==
  LET v2 == FAdd(FMul(p.vu, p.vu), FMul(p.vd, p.vd))
      c2b == FDiv(FSub(FMul(p.vd, p.vd), FMul(p.vu, p.vu)), v2)
      sw2 == FSub(1, FDiv(FMul(p.MW, p.MW), FMul(p.MZ, p.MZ)))
      mz2 == FMul(p.MZ, p.MZ)
      mb2 == FMul(p.Mb, p.Mb)
      bL == FSum(<<p.mq3, mb2, FNeg(FMul(FMul(FSub("0.5", FDiv(sw2, 3)), mz2), c2b))>>)
      bR == FSum(<<p.md3, mb2, FNeg(FMul(FMul(FDiv(sw2, 3), mz2), c2b))>>)
      logs == <<FLog(p.mq1), FLog(p.mu1), FLog(p.mq1), FLog(p.md1), FLog(p.mq2), FLog(p.mu2), FLog(p.mq2), FLog(p.md2), FLog(FAbs(bL)), FLog(FAbs(bR))>>
  IN FExp(FMul("0.05", FSum(logs)))

TreeOk(p, t) ==
  LET tb == FDiv(p.vu, p.vd)
      sc == FDiv(FMul(p.vu, p.vd), FAdd(FMul(p.vu, p.vu), FMul(p.vd, p.vd)))   \* sin(2 beta)/2
      mz2 == FMul(p.MZ, p.MZ)
      ma2 == FMul(p.MA, p.MA)
      tr == <<<<FMul(sc, FAdd(FDiv(mz2, tb), FMul(ma2, tb))), FNeg(FMul(sc, FAdd(mz2, ma2)))>>,
              <<FNeg(FMul(sc, FAdd(mz2, ma2))), FMul(sc, FAdd(FMul(mz2, tb), FDiv(ma2, tb)))>>>>
  IN FLe(FMatMaxAbs(FMatSub(tr, t)), FMul("1e-11", FMatMaxAbs(tr)))

Begin == /\ Ev("Begin") /\ st = "idle"
         /\ Chk("average light squark mass", FClose(e.mq, MeanSq(e.p), "1e-9", 0))
         /\ Chk("ordered sfermion masses", ~FLt(e.m2, e.m1))
         /\ pt' = e /\ seen' = <<>> /\ st' = "run"

Suit(h) == H!Suitable(h, pt.m1, pt.m2, pt.mg, pt.mq)

Cand == /\ Ev("Cand") /\ st = "run"
        /\ seen' = IF ~Suit(e.h) THEN seen ELSE
             LET exact == Light(FMatAdd(FMatAdd(pt.tree, e.M1), e.M2))
                 expd  == Light(FMatAdd(FMatAdd(pt.tree, e.M1), e.X2))
                 d     == FAbs(FSub(exact, expd))
                 r     == FDiv(d, exact)
             IN Append(seen, [h |-> e.h, abs |-> d, rel |-> r, u2 |-> e.u2, u3 |-> e.u3, mh |-> exact,
                              err |-> FNorm(<<r, FDiv(e.u2, expd)>>)])
        /\ UNCHANGED <<pt, st>>

Ids == {seen[i].h : i \in DOMAIN seen}
Rec(h) == seen[CHOOSE i \in DOMAIN seen : seen[i].h = h]
Finite == {i \in DOMAIN seen : ~FIsNaN(seen[i].err)}

\* the selected one is suitable and minimal; among exactly equal errors it is the first
GoodChoice(h) ==
  /\ Chk("selected hierarchy is suitable", h \in Ids)
  /\ \/ Chk("defined error preferred", Finite = {}) /\ FIsNaN(Rec(h).err)
     \/ /\ ~FIsNaN(Rec(h).err)
        /\ Chk("smallest combined error",
               \A i \in Finite : FLe(Rec(h).err, FAdd(FMul(seen[i].err, "1.0000001"), Tol)))
        /\ Chk("first of equal errors", \A i \in Finite : FEq(seen[i].err, Rec(h).err) => seen[i].h >= h)

End == /\ Ev("End") /\ st = "run"
       /\ Chk("tree-level matrix", TreeOk(pt.p, e.tree0))
       /\ IF Ids = {}
            THEN /\ Chk("no suitable hierarchy: no result", ~e.ok)
                 /\ Chk("no suitable hierarchy: none selected", e.cmp = -1)
            ELSE /\ Chk("result although suitable hierarchies exist", e.ok)
                 /\ GoodChoice(e.h)
                 /\ Chk("compareHierarchies agrees", e.cmp = e.h)
                 /\ \A x \in {e.full, e.sel} :
                    /\ Chk("absolute two-loop deviation", FClose(x.abs, Rec(e.h).abs, "1e-6", FMul(Tol, Rec(e.h).mh)))
                    /\ Chk("relative two-loop deviation", FClose(x.rel, Rec(e.h).rel, "1e-6", Tol))
                    /\ Chk("two-loop expansion uncertainty", FClose(x.u2, Rec(e.h).u2, "1e-6", FMul(Tol, Rec(e.h).mh)))
                    /\ Chk("three-loop expansion uncertainty", FClose(x.u3, Rec(e.h).u3, "1e-6", FMul(Tol, Rec(e.h).mh)))
       /\ st' = "idle" /\ UNCHANGED <<pt, seen>>

Next == Begin \/ Cand \/ End
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
