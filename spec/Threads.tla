------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Threads which calculate on objects of their own.  Most routines keep    *)
(* everything in local variables; the routines in Stateful communicate     *)
(* with their subroutines through one storage area of the process (the     *)
(* Fortran common block) and are therefore entered under a lock.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Stateful == {"ddshiggs_", "ddsodd_"}
Pure     == {"dszhiggs_", "dszodd_", "tausqhiggs_", "tausqodd_", "taubot_", "taubotodd_"}
Routines == Stateful \cup Pure
----------------------------------------------------------------------------
CONSTANTS Threads, Calls, Design
Prog == {"ddshiggs_", "ddsodd_", "dszhiggs_"}       \* what a thread may call
\* the lock which guards a routine ("none": no lock)
Lock(r) == IF r \notin Stateful THEN "none"
           ELSE CASE Design = "NoLock" /\ r = "ddsodd_" -> "none"
                  [] Design = "TwoLocks" -> r
                  [] Design = "PerThread" -> "own"
                  [] OTHER -> "mtx"
VARIABLES pc, todo, cur, scratch, owner, res
vars == <<pc, todo, cur, scratch, owner, res>>
None == 0
Locks == {"mtx"} \cup Stateful
\* an input is identified with the thread and the number of the call
Input(t) == <<t, todo[t]>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ todo = [t \in Threads |-> Calls]
        /\ cur = [t \in Threads |-> "dszhiggs_"] /\ scratch = <<0, 0>>
        /\ owner = [x \in Locks |-> None] /\ res = [t \in Threads |-> <<>>]
Call(t, r) == /\ pc[t] = "idle" /\ todo[t] > 0
              /\ cur' = [cur EXCEPT ![t] = r] /\ pc' = [pc EXCEPT ![t] = "want"]
              /\ UNCHANGED <<todo, scratch, owner, res>>
Acquire(t) == /\ pc[t] = "want"
              /\ LET x == Lock(cur[t]) IN
                 IF x \in {"none", "own"} THEN UNCHANGED owner
                 ELSE owner[x] = None /\ owner' = [owner EXCEPT ![x] = t]
              /\ pc' = [pc EXCEPT ![t] = IF cur[t] \in Stateful THEN "store" ELSE "local"]
              /\ UNCHANGED <<todo, cur, scratch, res>>
Release(t) == IF Lock(cur[t]) \in {"none", "own"} THEN UNCHANGED owner ELSE owner' = [owner EXCEPT ![Lock(cur[t])] = None]
Store(t) == /\ pc[t] = "store" /\ scratch' = Input(t)
            /\ IF Design = "EarlyRelease" THEN Release(t) ELSE UNCHANGED owner
            /\ pc' = [pc EXCEPT ![t] = "load"]
            /\ UNCHANGED <<todo, cur, res>>
Load(t) == /\ pc[t] = "load" /\ res' = [res EXCEPT ![t] = Append(@, scratch)]
           /\ IF Design = "EarlyRelease" THEN UNCHANGED owner ELSE Release(t)
           /\ todo' = [todo EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<cur, scratch>>
Local(t) == /\ pc[t] = "local" /\ res' = [res EXCEPT ![t] = Append(@, Input(t))]
            /\ todo' = [todo EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<cur, scratch, owner>>
Next == \/ \E t \in Threads, r \in Prog : Call(t, r)
        \/ \E t \in Threads : Acquire(t)
        \/ \E t \in Threads : Store(t)
        \/ \E t \in Threads : Load(t)
        \/ \E t \in Threads : Local(t)
Fair == \A t \in Threads : WF_vars((\E r \in Prog : Call(t, r)) \/ Store(t) \/ Load(t) \/ Local(t)) /\ SF_vars(Acquire(t))
Spec == Init /\ [][Next]_vars /\ Fair
\* the result of a call depends on its own input only
OwnResults == \A t \in Threads : \A i \in DOMAIN res[t] : res[t][i] = <<t, Calls + 1 - i>>
Inside(t) == pc[t] \in {"store", "load"}
Exclusive == \A s, t \in Threads : Inside(s) /\ Inside(t) => s = t
AllFinish == <>(\A t \in Threads : todo[t] = 0)
=============================================================================
