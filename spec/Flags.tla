------------------------------- MODULE Flags -------------------------------
(***************************************************************************)
(* Switches of the coupling orders.  A calculation at a loop order is a    *)
(* base part and a sum of terms; a term is on iff one of its switches is   *)
(* on, and its value does not depend on the other switches.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Names == <<"G12G22", "G14", "G24", "G12YB2", "G22YB2", "YB4", "G12YTAU2", "G22YTAU2", "YTAU4", "G12YT2", "G22YT2", "YT4",
           "G32YB4", "YB6", "YT6", "YTAU2YB4", "YTAU2YT4", "YTAU6", "YT2YB4", "G32YT4", "YB2YT4", "YTAU4YB2", "ONLY_AT_AS">>
Set(names) == {i \in 1..Len(Names) : Names[i] \in names}
Single(names) == {{i} : i \in Set(names)}

\* terms of the effective-theory result per loop order
EFTTerms(n) ==
    CASE n = 1 -> Single({"G12G22", "G14", "G24", "G12YB2", "G22YB2", "YB4", "G12YTAU2", "G22YTAU2", "YTAU4", "G12YT2", "G22YT2", "YT4"})
      [] n = 2 -> Single({"G32YB4", "YB6", "YT6", "YTAU2YB4", "YTAU6", "YT2YB4", "G32YT4", "YB2YT4", "YTAU4YB2"})
      [] OTHER -> {}
\* terms of the fixed-order 2-loop result; the tau-bottom term has two switches
FOTerms(n) == IF n = 2 THEN Single({"G32YT4", "G32YB4", "YT6", "YTAU6"}) \cup {Set({"YTAU2YB4", "YTAU4YB2"})} ELSE {}
Terms(kind, n) == IF kind = "eft" THEN EFTTerms(n) ELSE FOTerms(n)
\* switches that are on in a new object (for non-vanishing couplings)
Defaults(kind) ==
    CASE kind = "eft"  -> Set({"YT4", "G32YT4", "YT6", "YTAU2YT4"})
      [] kind = "fo"   -> 1..Len(Names) \ Set({"ONLY_AT_AS"})
      [] kind = "foat" -> 1..Len(Names) \ Set({"YB6", "YTAU6", "YTAU2YB4", "YTAU4YB2", "G32YB4"})
On(t, on) == t \cap on # {}
----------------------------------------------------------------------------
(* Design model.  Terms share sub-expressions which are calculated only if  *)
(* one of the switches in their guard is on.  The result of the design is   *)
(* the sum of the terms that are on, with sub-expressions that have not     *)
(* been calculated counting as missing.                                     *)
CONSTANTS Orders, MaxOps, Gen, Design
VARIABLES on, bad, done, steps, val
vars == <<on, bad, done, steps, val>>

\* users of the sub-expressions (those of the 2-loop effective-theory result)
Users == [dlambdayb4 |-> Set({"YB6", "YTAU2YB4", "YT2YB4", "G32YB4"}), dlambdayt4 |-> Set({"YT6", "YB2YT4"}),
          dvyt2 |-> Set({"YT6", "YT2YB4"}), dvyb2 |-> Set({"YB6", "YTAU4YB2", "YB2YT4"}), dvytau2 |-> Set({"YTAU2YB4", "YTAU6"}),
          dlambdaytau4 |-> Set({"YTAU4YB2", "YTAU6"})]
Guard == IF Design = "good" THEN Users ELSE [Users EXCEPT !.dvyb2 = @ \ Set({"YB2YT4"})]
Calculated(o) == {s \in DOMAIN Guard : Guard[s] \cap o # {}}
Missing(o) == {su \in (DOMAIN Users) \X o : su[2] \in Users[su[1]] /\ su[1] \notin Calculated(o)}
\* the value of the design as a set of contributions; a missing sub-expression removes the part that depends on it
Parts(t) == {<<t, s>> : s \in {x \in DOMAIN Users : t \in Users[x]} \cup {"own"}}
DesignValue(o) == UNION {{p \in Parts(t) : p[2] = "own" \/ p[2] \in Calculated(o)} : t \in o}
SpecValue(o) == UNION {Parts(t) : t \in o}

Init == on \in (IF Gen THEN {{}} ELSE SUBSET Orders) /\ bad = {} /\ done = 0 /\ steps = <<>> /\ val = DesignValue(on)
Log(x) == steps' = IF Gen THEN Append(steps, x) ELSE steps
Switch(o, v) ==
    /\ done < MaxOps /\ done' = done + 1
    /\ on' = IF v = 1 THEN on \cup {o} ELSE IF v = 0 THEN on \ {o} ELSE on
    /\ bad' = IF v \in {0, 1} THEN bad \ {o} ELSE bad \cup {o}
    /\ val' = DesignValue(on')
    /\ Log([op |-> "s", o |-> o - 1, v |-> v])
All(v) ==
    /\ done < MaxOps /\ done' = done + 1
    /\ on' = (IF v = 1 THEN Orders ELSE {}) /\ bad' = {} /\ val' = DesignValue(on')
    /\ Log([op |-> "a", o |-> 0, v |-> v])
Eval(n) ==
    /\ Gen /\ done < MaxOps /\ done' = done + 1 /\ UNCHANGED <<on, bad, val>>
    /\ Log([op |-> "e", o |-> n, v |-> 0])
Next == \/ \E o \in Orders : \E v \in 0..2 : Switch(o, v)
        \/ \E v \in 0..1 : All(v)
        \/ \E n \in 0..3 : Eval(n)
Spec == Init /\ [][Next]_vars
Additive == val = SpecValue(on)
Complete == Missing(on) = {}
\* setting a switch twice is the same as setting it once
GenDone == IF Gen /\ done = MaxOps THEN PrintT("~BEH " \o ToJson(steps)) ELSE TRUE
=============================================================================
