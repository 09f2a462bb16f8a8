--------------------------- MODULE ThreadsTrace ---------------------------
(* Accepts the recorded run of several threads iff it is one of module Threads:                       *)
(*   Enter t r | Leave t r : the execution of a routine, in the order of a process-wide counter        *)
(*   Done t op got alone   : an operation of thread t is finished; digests of its result and of the    *)
(*                           result of the same operation in a process with one thread                 *)
(*   Monitor races         : conflicting accesses not ordered by the locks (monitored build)           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, inside, ops
vars == <<l, inside, ops>>
T == INSTANCE Threads WITH Threads <- {}, Calls <- 0, Design <- "good", pc <- <<>>, todo <- <<>>, cur <- <<>>, scratch <- <<>>, owner <- <<>>, res <- <<>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]
\* inside: set of <<thread, routine>> being executed
Enter == /\ Ev("Enter")
         /\ Chk("known routine", E.r \in T!Routines)
         /\ Chk("one routine at a time per thread", \A x \in inside : x[1] # E.t)
         /\ Chk(<<"exclusive", E.r>>, E.r \in T!Stateful => \A x \in inside : x[2] \notin T!Stateful)
         /\ inside' = inside \cup {<<E.t, E.r>>} /\ UNCHANGED ops
Leave == /\ Ev("Leave")
         /\ Chk("was inside", <<E.t, E.r>> \in inside)
         /\ inside' = inside \ {<<E.t, E.r>>} /\ UNCHANGED ops
Done == /\ Ev("Done")
        /\ Chk(<<"result as when run alone", E.op>>, E.got = E.alone)
        /\ ops' = ops + 1 /\ UNCHANGED inside
Monitor == /\ Ev("Monitor") /\ Chk("accesses are ordered", E.races = <<>>) /\ UNCHANGED <<inside, ops>>
Init == l = 1 /\ inside = {} /\ ops = 0
Next == Enter \/ Leave \/ Done \/ Monitor
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
