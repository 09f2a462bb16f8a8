------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* The state the library keeps between operations, and why it may not      *)
(* matter.                                                                 *)
(*                                                                         *)
(* A process holds objects (calculators).  Besides its parameter point an  *)
(* object has HIDDEN state: the expansion switches `depth`, which an       *)
(* uncertainty estimate lowers and must put back even if it is left by an  *)
(* exception; and the process has hidden state: the Fortran work area      *)
(* `scratch` used by the two-loop routines, and the flag saying that the   *)
(* banner has been printed.  Every operation writes its arguments to the   *)
(* scratch area before it reads them, and runs with the switches it chose. *)
(*                                                                         *)
(* Property: a result is a function of <<operation, point>> only.          *)
(*                                                                         *)
(* The constants RestoreOnThrow, RestoreOnReturn, WriteScratch and         *)
(* CopyDepth describe the implementation; setting one of them to FALSE     *)
(* gives a broken design which TLC must reject (configurations             *)
(* HistoryBad*.cfg); all TRUE is the design of the library.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Objs, Points, Plain, Lowering, Throwing, MaxDone, Gen,
          RestoreOnThrow, RestoreOnReturn, WriteScratch, CopyDepth

Ops == Plain \cup Lowering \cup Throwing
None == "none"
Idle == <<>>

VARIABLES
    point,    \* [Objs -> Points \cup {None}]: the point an object was made from
    depth,    \* [Objs -> {"full", "low"}]
    scratch,  \* what the shared work area holds
    banner,
    run,      \* the operation being executed, or Idle
    results,  \* set of <<op, point, value>>
    done,     \* number of finished operations
    steps     \* the behaviour, for replay (only if Gen)

vars == <<point, depth, scratch, banner, run, results, done, steps>>

Init == /\ point = [o \in Objs |-> None] /\ depth = [o \in Objs |-> "full"]
        /\ scratch = None /\ banner = FALSE /\ run = Idle /\ results = {} /\ done = 0
        /\ steps = <<>>

Log(s) == steps' = IF Gen THEN Append(steps, s) ELSE steps

New(o, p) ==
    /\ run = Idle
    /\ done < MaxDone
    /\ point' = [point EXCEPT ![o] = p]
    /\ depth' = [depth EXCEPT ![o] = "full"]
    /\ banner' = TRUE
    /\ Log([op |-> "new", o |-> o, p |-> p])
    /\ done' = IF Gen THEN done + 1 ELSE done
    /\ UNCHANGED <<scratch, run, results>>

Copy(o, q) ==
    /\ run = Idle /\ o # q /\ point[o] # None
    /\ done < MaxDone
    /\ point' = [point EXCEPT ![q] = point[o]]
    /\ depth' = [depth EXCEPT ![q] = IF CopyDepth THEN depth[o] ELSE "full"]
    /\ Log([op |-> "copy", o |-> o, p |-> q])
    /\ done' = IF Gen THEN done + 1 ELSE done
    /\ UNCHANGED <<scratch, banner, run, results>>

Start(o, op) ==
    /\ run = Idle /\ done < MaxDone /\ point[o] # None
    /\ run' = <<o, op, "entered">>
    /\ Log([op |-> "op", o |-> o, p |-> op])
    /\ UNCHANGED <<point, depth, scratch, banner, results, done>>

\* the switches the operation wants are set ...
Lower ==
    /\ run # Idle /\ run[3] = "entered" /\ run[2] \in Lowering \cup Throwing
    /\ depth' = [depth EXCEPT ![run[1]] = "low"]
    /\ run' = <<run[1], run[2], "lowered">>
    /\ UNCHANGED <<point, scratch, banner, results, done, steps>>

\* ... the arguments are put into the shared work area ...
Load ==
    /\ run # Idle
    /\ \/ run[3] = "entered" /\ run[2] \in Plain
       \/ run[3] = "lowered" /\ run[2] \in Lowering
    /\ scratch' = IF WriteScratch \/ scratch = None THEN point[run[1]] ELSE scratch
    /\ run' = <<run[1], run[2], "loaded">>
    /\ UNCHANGED <<point, depth, banner, results, done, steps>>

\* ... and the value is computed from the area and the switches.
Finish ==
    /\ run # Idle /\ run[3] = "loaded"
    /\ results' = results \cup {<<run[2], point[run[1]], <<scratch, depth[run[1]]>>>>}
    /\ depth' = IF run[2] \in Lowering /\ RestoreOnReturn
                THEN [depth EXCEPT ![run[1]] = "full"] ELSE depth
    /\ run' = Idle /\ done' = done + 1
    /\ UNCHANGED <<point, scratch, banner, steps>>

Throw ==
    /\ run # Idle /\ run[2] \in Throwing /\ run[3] = "lowered"
    /\ depth' = IF RestoreOnThrow THEN [depth EXCEPT ![run[1]] = "full"] ELSE depth
    /\ run' = Idle /\ done' = done + 1
    /\ UNCHANGED <<point, scratch, banner, results, steps>>

Next ==
    \/ \E o \in Objs, p \in Points : New(o, p)
    \/ \E o, q \in Objs : Copy(o, q)
    \/ \E o \in Objs, op \in Ops : Start(o, op)
    \/ Lower \/ Load \/ Finish \/ Throw

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Results are a function of operation and point ...
Pure == \A r, s \in results : r[1] = s[1] /\ r[2] = s[2] => r[3] = s[3]
\* ... namely the one a fresh process computes.
Fresh == \A r \in results :
            r[3] = <<r[2], IF r[1] \in Lowering THEN "low" ELSE "full">>
\* Between operations nothing of an estimate is left behind.
Restored == run = Idle => \A o \in Objs : depth[o] = "full"

GenDone == IF Gen /\ done = MaxDone /\ run = Idle
           THEN PrintT("~BEH " \o ToJson(steps)) ELSE TRUE
=============================================================================
