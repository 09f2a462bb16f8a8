------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* What the library writes where.  Users construct calculators, verbosely  *)
(* or not and possibly at the same time, complete points and calculate.    *)
(* Everything is written to the error stream; the banner once per process, *)
(* by the first verbose hierarchy calculator; one message per sfermion     *)
(* sector which had to be completed, by the verbose completion of the      *)
(* user's point, and none by the completions the library performs inside.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
SectorSeq == <<"t", "b", "tau">>
Sectors == {"t", "b", "tau"}
\* operations of a user; those which print the banner, those with a verbosity
Kinds == {"calc", "eft", "thr", "validate", "fo", "foat"}
Banners(k) == k = "calc"
HasVerbosity(k) == k \notin {"fo", "foat"}
\* is a sector incomplete, given what was supplied? m: both masses, th: angle, s2: sine
Incomplete(m, th, s2) == ~m \/ (~th /\ ~s2)
----------------------------------------------------------------------------
CONSTANTS Users, MaxOps, Design, Gen
VARIABLES pc, op, flag, printed, err, outp, sectors, done, steps
vars == <<pc, op, flag, printed, err, outp, sectors, done, steps>>
NoOp == [kind |-> "none", v |-> FALSE, miss |-> {}, bad |-> FALSE]
Init == /\ pc = [u \in Users |-> "idle"] /\ op = [u \in Users |-> NoOp] /\ flag = FALSE /\ printed = 0
        /\ err = [u \in Users |-> <<>>] /\ outp = 0 /\ sectors = [u \in Users |-> {}] /\ done = 0 /\ steps = <<>>
Start(u, k, v, m, b) ==
    /\ pc[u] = "idle" /\ done < MaxOps /\ done' = done + 1
    /\ op' = [op EXCEPT ![u] = [kind |-> k, v |-> v /\ HasVerbosity(k), miss |-> m, bad |-> b]]
    /\ sectors' = [sectors EXCEPT ![u] = m]
    /\ err' = [err EXCEPT ![u] = <<>>]
    /\ pc' = [pc EXCEPT ![u] = "banner"]
    /\ steps' = IF Gen THEN Append(steps, [kind |-> k, v |-> v, miss |-> m, bad |-> b]) ELSE steps
    /\ UNCHANGED <<flag, printed, outp>>
Banner(u) == /\ pc[u] = "banner"
             /\ LET want == Banners(op[u].kind) /\ op[u].v IN
                IF Design = "PerObject"
                THEN printed' = printed + (IF want THEN 1 ELSE 0) /\ UNCHANGED flag /\ pc' = [pc EXCEPT ![u] = "complete"]
                ELSE IF Design = "CheckThenSet"
                THEN /\ pc' = [pc EXCEPT ![u] = IF want /\ ~flag THEN "print" ELSE "complete"] /\ UNCHANGED <<flag, printed>>
                ELSE /\ printed' = printed + (IF want /\ ~flag THEN 1 ELSE 0) /\ flag' = (flag \/ want)
                     /\ pc' = [pc EXCEPT ![u] = "complete"]
             /\ UNCHANGED <<op, err, outp, sectors, done, steps>>
PrintBanner(u) == /\ pc[u] = "print" /\ printed' = printed + 1 /\ flag' = TRUE /\ pc' = [pc EXCEPT ![u] = "complete"]
            /\ UNCHANGED <<op, err, outp, sectors, done, steps>>
Messages(m) == SelectSeq(SectorSeq, LAMBDA s : s \in m)
Complete(u) == /\ pc[u] = "complete"
               /\ err' = [err EXCEPT ![u] = @ \o (IF op[u].v THEN Messages(sectors[u]) ELSE <<>>)]
               /\ sectors' = [sectors EXCEPT ![u] = {}]
               /\ pc' = [pc EXCEPT ![u] = IF op[u].bad THEN "idle" ELSE "calculate"]
               /\ UNCHANGED <<op, flag, printed, outp, done, steps>>
\* the library completes points of its own (a third-generation-only variant, say) while it calculates
Calculate(u) == /\ pc[u] = "calculate"
                /\ \E inner \in SUBSET Sectors :
                     err' = [err EXCEPT ![u] = @ \o (IF Design = "InnerVerbose" THEN Messages(inner) ELSE <<>>)]
                /\ outp' = outp + (IF Design = "DebugPrint" THEN 1 ELSE 0)
                /\ pc' = [pc EXCEPT ![u] = "idle"]
                /\ UNCHANGED <<op, flag, printed, sectors, done, steps>>
Next == \E u \in Users :
          \/ \E k \in Kinds, v, b \in BOOLEAN, m \in SUBSET Sectors : Start(u, k, v, m, b)
          \/ Banner(u) \/ PrintBanner(u) \/ Complete(u) \/ Calculate(u)
Spec == Init /\ [][Next]_vars
Clean == outp = 0
BannerOnce == printed <= 1 /\ (printed = 1 => flag)
ExactlyTheCompleted == \A u \in Users : pc[u] = "idle" /\ op[u].kind # "none" =>
                          err[u] = IF op[u].v THEN Messages(op[u].miss) ELSE <<>>
GenDone == IF Gen /\ done = MaxOps /\ \A u \in Users : pc[u] = "idle" THEN PrintT("~BEH " \o ToJson(steps)) ELSE TRUE
=============================================================================
