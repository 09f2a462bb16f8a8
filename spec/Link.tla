-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* A session of a Mathematica front end with the library.                  *)
(*                                                                         *)
(* A request is an argument list, of which the library checks the number   *)
(* of arguments, reads the parameter list, completes and checks the point, *)
(* calculates, and writes one expression to the link.  Output of the       *)
(* library on the standard streams is diverted meanwhile and becomes       *)
(* messages, which are part of the same expression:                        *)
(*   CompoundExpression[Info[m1], CompoundExpression[Info[m2], ... payload]]*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* the documented names, in the order in which they are sent
Names(ab) == <<"hierarchyID", "hierarchyName", IF ab THEN "MsbottomMDRPrime" ELSE "MstopMDRPrime", "Mh2",
               "Mh2ShiftDRbarPrimeToMDRPrime", "Mh2ShiftDRbarPrimeToH3m", "expansionUncertainty", "Mh2EFTAt", "Mh2FO",
               "Mh2FOAt", "lambda", "lambdaUncertainty", "lambdaShiftDRbarPrimeToMSbar">>
\* positional parameter list
M33(n) == [i \in 1..9 |-> n \o "." \o ToString(i - 1)]
V2(n) == [i \in 1..2 |-> n \o "." \o ToString(i - 1)]
Settings == <<"bottom", "loopOrder", "verbose">>
Mandatory == <<"scale", "mu", "g1", "g2", "g3", "vd", "vu">> \o M33("mq2") \o M33("md2") \o M33("mu2") \o M33("ml2")
             \o M33("me2") \o M33("Au") \o M33("Ad") \o M33("Ae") \o M33("Yu") \o M33("Yd") \o M33("Ye")
             \o <<"MA", "M1", "M2", "MG">>
OptMasses == <<"MW", "MZ", "Mt", "Mb", "Mtau">>
Sectors == <<<<"MSt", "s2t">>, <<"MSb", "s2b">>, <<"MStau", "s2tau">>>>
Layout == Settings \o Mandatory \o OptMasses \o V2("MSt") \o V2("MSb") \o V2("MStau") \o <<"s2t", "s2b", "s2tau">>
N == Len(Layout)
ASSUME N = 127

(* ---- outgoing tokens: <<"F", head, n>>, <<"S"|"T"|"I"|"R", value>>, <<"E">> (end of packet) ---- *)
\* number of expressions still missing after the first k tokens of an expression, or -1 if something follows a complete one
Missing(s) ==
    LET need[k \in 0..Len(s)] ==
            IF k = 0 THEN 1
            ELSE LET r == need[k - 1] IN
                 IF r < 0 THEN r
                 ELSE IF s[k][1] = "E" THEN (IF r = 0 /\ k = Len(s) THEN 0 ELSE -1)
                 ELSE IF r = 0 THEN -1
                 ELSE r - 1 + (IF s[k][1] = "F" THEN s[k][3] ELSE 0)
    IN  need[Len(s)]
\* exactly one complete expression, nothing behind it
Complete(s) == Len(s) > 0 /\ s[1][1] # "E" /\ Missing(s) = 0
IsMsg(s, k, f) == k + 2 <= Len(s) /\ s[k] = <<"F", "CompoundExpression", 2>> /\ s[k + 1] = <<"F", f, 1>> /\ s[k + 2][1] = "T"
\* number of leading information messages, their texts, and what follows them
NInfo(s) == LET n[k \in 0..(Len(s) \div 3)] == IF IsMsg(s, 3 * k + 1, "HimalayaInfoMessage") THEN (IF k = Len(s) \div 3 THEN k ELSE n[k + 1]) ELSE k
            IN n[0]
Infos(s) == [i \in 1..NInfo(s) |-> s[3 * i][2]]
Rest(s) == SubSeq(s, 3 * NInfo(s) + 1, Len(s))
IsFailure(r) == Len(r) \in {4, 5} /\ IsMsg(r, 1, "HimalayaErrorMessage") /\ r[4] = <<"S", "$Failed">> /\ (Len(r) = 5 => r[5] = <<"E">>)
----------------------------------------------------------------------------
(* Design model.  Kinds of requests:                                         *)
(*  "ok" "tachyon" (refused by the completion) "diverges" (fails in the      *)
(*  calculation) "short" (wrong length) "symbol" (not a number) "noargs"     *)
CONSTANTS MaxReq, Design, Gen, Rules
VARIABLES pc, req, dead, diverted, buf, arose, out, done, hist
vars == <<pc, req, dead, diverted, buf, arose, out, done, hist>>
Kinds == {"ok", "tachyon", "diverges", "short", "symbol", "noargs"}
Idle == [kind |-> "none", verbose |-> FALSE, bottom |-> FALSE, loops |-> 0]

Init == pc = "idle" /\ req = Idle /\ dead = FALSE /\ diverted = FALSE /\ buf = <<>> /\ arose = <<>> /\ out = <<>>
        /\ done = 0 /\ hist = <<>>
Put(s) == out' = IF dead THEN out ELSE out \o s
Msgs(f, b) == IF b = <<>> THEN <<>> ELSE
    LET m[i \in 1..Len(b)] == <<<<"F", "CompoundExpression", 2>>, <<"F", f, 1>>, <<"T", b[i]>>>> \o (IF i = Len(b) THEN <<>> ELSE m[i + 1]) IN m[1]
Say(t) == IF diverted THEN buf' = Append(buf, t) /\ arose' = Append(arose, t) ELSE UNCHANGED <<buf, arose>>

Receive(k, v, b, n) ==
    /\ pc = "idle" /\ done < MaxReq /\ ~diverted
    /\ req' = [kind |-> k, verbose |-> v, bottom |-> b, loops |-> n]
    /\ pc' = "check" /\ out' = <<>> /\ arose' = <<>> /\ buf' = <<>> /\ dead' = FALSE
    /\ hist' = IF Gen THEN Append(hist, [kind |-> k, verbose |-> v, bottom |-> b, loops |-> n, fault |-> FALSE]) ELSE hist
    /\ UNCHANGED <<diverted, done>>
LinkDies == /\ pc # "idle" /\ ~dead /\ dead' = TRUE
            /\ hist' = IF Gen THEN [hist EXCEPT ![Len(hist)].fault = TRUE] ELSE hist
            /\ UNCHANGED <<pc, req, diverted, buf, arose, out, done>>
CheckArgs == /\ pc = "check"
             /\ pc' = IF req.kind = "noargs" THEN "return" ELSE "divert"
             /\ UNCHANGED <<req, dead, diverted, buf, arose, out, done, hist>>
Divert == /\ pc = "divert" /\ diverted' = TRUE /\ pc' = "read"
          /\ UNCHANGED <<req, dead, buf, arose, out, done, hist>>
Read == /\ pc = "read"
        /\ pc' = IF req.kind \in {"short", "symbol"} THEN "unwind" ELSE "fill"
        /\ UNCHANGED <<req, dead, diverted, buf, arose, out, done, hist>>
Fill == /\ pc = "fill"                                 \* complete and check the point
        /\ \/ req.verbose /\ Say(Len(arose) + 1)
           \/ UNCHANGED <<buf, arose>>
        /\ pc' = IF req.kind = "tachyon" THEN "unwind" ELSE IF Design = "PutEarly" THEN "open" ELSE "compute"
        /\ UNCHANGED <<req, dead, diverted, out, done, hist>>
Compute == /\ pc = "compute"
           /\ \/ Say(Len(arose) + 1)                   \* a warning
              \/ UNCHANGED <<buf, arose>>
           /\ pc' = IF req.kind = "diverges" THEN "unwind"
                    ELSE IF Design = "PutEarly" THEN "put" ELSE IF Design = "FlushLate" THEN "open" ELSE "flush"
           /\ UNCHANGED <<req, dead, diverted, out, done, hist>>
Flush == /\ pc = "flush" /\ Put(Msgs("HimalayaInfoMessage", buf)) /\ buf' = <<>>
         /\ pc' = "open"
         /\ UNCHANGED <<req, dead, diverted, arose, done, hist>>
Open == /\ pc = "open" /\ Put(<<<<"F", "List", Rules>>>>)
        /\ pc' = IF Design = "PutEarly" THEN "compute" ELSE "put"
        /\ UNCHANGED <<req, dead, diverted, buf, arose, done, hist>>
PutRules == /\ pc = "put"
            /\ Put([i \in 1..Rules |-> <<"I", i>>])
            /\ pc' = "close"
            /\ UNCHANGED <<req, dead, diverted, buf, arose, done, hist>>
Close == /\ pc = "close" /\ diverted' = FALSE
         /\ Put(<<<<"E">>>> \o Msgs("HimalayaInfoMessage", buf)) /\ buf' = <<>>
         /\ pc' = "return"
         /\ UNCHANGED <<req, dead, arose, done, hist>>
\* the failure path: give back the streams (which hands on what is buffered), then report
Unwind == /\ pc = "unwind"
          /\ IF Design = "ReportFirst" /\ diverted
             THEN /\ Put(<<<<"F", "CompoundExpression", 2>>, <<"F", "HimalayaErrorMessage", 1>>, <<"T", 0>>, <<"S", "$Failed">>>>)
                  /\ pc' = "late" /\ UNCHANGED <<diverted, buf>>
             ELSE /\ Put(Msgs("HimalayaInfoMessage", buf)) /\ buf' = <<>>
                  /\ diverted' = (Design = "NoRestore") /\ pc' = "report"
          /\ UNCHANGED <<req, dead, arose, done, hist>>
Late == /\ pc = "late" /\ Put(Msgs("HimalayaInfoMessage", buf)) /\ buf' = <<>> /\ diverted' = FALSE /\ pc' = "return"
        /\ UNCHANGED <<req, dead, arose, done, hist>>
Report == /\ pc = "report"
          /\ Put(<<<<"F", "CompoundExpression", 2>>, <<"F", "HimalayaErrorMessage", 1>>, <<"T", 0>>, <<"S", "$Failed">>>>)
          /\ pc' = "return"
          /\ UNCHANGED <<req, dead, diverted, buf, arose, done, hist>>
Return == /\ pc = "return" /\ pc' = "idle" /\ done' = done + 1
          /\ UNCHANGED <<req, dead, diverted, buf, arose, out, hist>>
Next == \/ \E k \in Kinds, v, b \in BOOLEAN, n \in 0..3 : Receive(k, v, b, n)
        \/ LinkDies \/ CheckArgs \/ Divert \/ Read \/ Fill \/ Compute \/ Flush \/ Open \/ PutRules \/ Close \/ Unwind
        \/ Late \/ Report \/ Return
Fair == WF_vars(CheckArgs \/ Divert \/ Read \/ Fill \/ Compute \/ Flush \/ Open \/ PutRules \/ Close \/ Unwind \/ Late \/ Report \/ Return)
Spec == Init /\ [][Next]_vars /\ Fair

Answered == pc = "idle" /\ done > 0
StreamsGivenBack == pc = "idle" => ~diverted
AnsweredCompletely ==
    Answered /\ ~dead =>
       IF req.kind = "noargs" THEN out = <<>>
       ELSE /\ Complete(out)
            /\ Infos(out) = arose
            /\ IF req.kind = "ok" THEN Rest(out)[1] = <<"F", "List", Rules>> ELSE IsFailure(Rest(out))
EveryRequestReturns == (pc # "idle") ~> (pc = "idle")
GenDone == IF Gen /\ done = MaxReq /\ pc = "idle" THEN PrintT("~BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
