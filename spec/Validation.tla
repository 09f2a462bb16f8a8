----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Completion and rejection of a parameter point.                          *)
(*                                                                         *)
(* A point is abstracted to: the state of the soft-breaking parameters,    *)
(* of the gluino mass and of the two vacuum expectation values, whether    *)
(* the gauge boson / fermion masses are set, and for each of the third-    *)
(* generation sfermion sectors what the user supplied (masses, angle, sine *)
(* of twice the angle), in which order the supplied masses are, and        *)
(* whether the mass matrix implied by the other parameters is tachyonic.   *)
(* The machine performs the steps of the completion one by one.            *)
(*                                                                         *)
(* ValidationTrace checks the real function against the concrete meaning   *)
(* of the same steps; the cases printed by TLC at the end of each run of   *)
(* this machine (~BEH) are turned into concrete points for it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sectors,      \* e.g. {"t", "b", "tau"}
          Kinds,        \* what may be supplied
          Healthy,      \* only points without a defect outside the sfermion sectors
          Gen           \* print the cases

VARIABLES case,    \* the point as supplied (never changes)
          pt,      \* the point as it is now
          pc       \* "soft","gluino","yukawa","vev","fill","angle","compute","sort","split","ok","rejected"
vars == <<case, pt, pc>>

\* supplied: masses given? angle given? sine given? in order? tachyonic?
Supplied ==
  [none  |-> [m |-> FALSE, th |-> FALSE, s2 |-> FALSE, sorted |-> TRUE,  tach |-> FALSE],
   nonet |-> [m |-> FALSE, th |-> FALSE, s2 |-> FALSE, sorted |-> TRUE,  tach |-> TRUE],
   all   |-> [m |-> TRUE,  th |-> TRUE,  s2 |-> TRUE,  sorted |-> TRUE,  tach |-> FALSE],
   alld  |-> [m |-> TRUE,  th |-> TRUE,  s2 |-> TRUE,  sorted |-> FALSE, tach |-> FALSE],
   allt  |-> [m |-> TRUE,  th |-> TRUE,  s2 |-> TRUE,  sorted |-> TRUE,  tach |-> TRUE],
   mth   |-> [m |-> TRUE,  th |-> TRUE,  s2 |-> FALSE, sorted |-> TRUE,  tach |-> FALSE],
   mthd  |-> [m |-> TRUE,  th |-> TRUE,  s2 |-> FALSE, sorted |-> FALSE, tach |-> TRUE],
   ms2   |-> [m |-> TRUE,  th |-> FALSE, s2 |-> TRUE,  sorted |-> TRUE,  tach |-> FALSE],
   ms2d  |-> [m |-> TRUE,  th |-> FALSE, s2 |-> TRUE,  sorted |-> FALSE, tach |-> FALSE],
   m     |-> [m |-> TRUE,  th |-> FALSE, s2 |-> FALSE, sorted |-> FALSE, tach |-> FALSE],
   mt    |-> [m |-> TRUE,  th |-> FALSE, s2 |-> FALSE, sorted |-> TRUE,  tach |-> TRUE],
   th    |-> [m |-> FALSE, th |-> TRUE,  s2 |-> FALSE, sorted |-> TRUE,  tach |-> FALSE],
   m1    |-> [m |-> FALSE, th |-> TRUE,  s2 |-> TRUE,  sorted |-> TRUE,  tach |-> FALSE]]

Cases == [soft : {"ok", "neg"}, mg : {"ok", "zero", "neg"}, vu : {"ok", "bad", "nan"}, vd : {"ok", "bad", "nan"},
          bosons : BOOLEAN, kind : [Sectors -> Kinds]]

Init == /\ case \in Cases
        /\ Healthy => case.soft = "ok" /\ case.mg # "neg" /\ case.vu = "ok" /\ case.vd = "ok"
        /\ pt = [soft |-> case.soft, mg |-> case.mg, vu |-> case.vu, vd |-> case.vd, yukawa |-> "raw", bosons |-> case.bosons,
                 sf |-> [s \in Sectors |-> Supplied[case.kind[s]] @@ [computed |-> FALSE]]]
        /\ pc = "soft"

Reject == pc' = "rejected" /\ UNCHANGED <<case, pt>>
Go(next) == pc' = next /\ UNCHANGED case

CheckSoft   == pc = "soft"   /\ IF pt.soft = "neg" THEN Reject ELSE Go("gluino") /\ UNCHANGED pt
CheckGluino == pc = "gluino" /\ IF pt.mg = "neg" THEN Reject ELSE Go("yukawa") /\ UNCHANGED pt
Yukawas     == pc = "yukawa" /\ Go("vev") /\ pt' = [pt EXCEPT !.yukawa = "diagonal"]
CheckVev    == pc = "vev"    /\ IF pt.vu # "ok" \/ pt.vd # "ok" THEN Reject ELSE Go("fill") /\ UNCHANGED pt
Fill        == pc = "fill"   /\ Go("angle") /\ pt' = [pt EXCEPT !.bosons = TRUE]
Angle       == pc = "angle"  /\ Go("compute")
               /\ pt' = [pt EXCEPT !.sf = [s \in Sectors |->
                            [@[s] EXCEPT !.th = @ \/ pt.sf[s].s2, !.s2 = @ \/ pt.sf[s].th]]]
Incomplete(s) == ~pt.sf[s].m \/ ~pt.sf[s].th \/ ~pt.sf[s].s2
Compute     == /\ pc = "compute"
               /\ IF \E s \in Sectors : Incomplete(s) /\ pt.sf[s].tach THEN Reject
                  ELSE /\ Go("sort")
                       /\ pt' = [pt EXCEPT !.sf = [s \in Sectors |->
                            IF Incomplete(s) THEN [m |-> TRUE, th |-> TRUE, s2 |-> TRUE, sorted |-> TRUE,
                                                   tach |-> pt.sf[s].tach, computed |-> TRUE]
                            ELSE @[s]]]
Sort        == pc = "sort" /\ Go("split")
               /\ pt' = [pt EXCEPT !.sf = [s \in Sectors |-> [@[s] EXCEPT !.sorted = TRUE]]]
Split       == pc = "split" /\ Go("ok") /\ UNCHANGED pt
\* validating once more
Again       == pc = "ok" /\ Go("soft") /\ UNCHANGED pt
Next == CheckSoft \/ CheckGluino \/ Yukawas \/ CheckVev \/ Fill \/ Angle \/ Compute \/ Sort \/ Split \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Defect == \/ case.soft = "neg" \/ case.mg = "neg" \/ case.vu # "ok" \/ case.vd # "ok"
          \/ \E s \in Sectors : LET k == Supplied[case.kind[s]] IN k.tach /\ (~k.m \/ (~k.th /\ ~k.s2))
RejectedIffDefect == /\ pc = "rejected" => Defect
                     /\ pc = "ok" => ~Defect
Completed == pc = "ok" => /\ pt.bosons /\ pt.yukawa = "diagonal"
                          /\ \A s \in Sectors : ~Incomplete(s) /\ pt.sf[s].sorted
Respected == pc = "ok" => \A s \in Sectors : LET k == Supplied[case.kind[s]] IN
                pt.sf[s].computed <=> (~k.m \/ (~k.th /\ ~k.s2))
Idempotent == [][pc = "ok" => UNCHANGED pt]_vars
\* once accepted, a point is accepted whenever it is validated again, and stays as it is
StaysOk == [][pt.yukawa = "diagonal" /\ (\A s \in Sectors : ~Incomplete(s) /\ pt.sf[s].sorted) => pt' = pt \/ pc = "fill"]_vars
Decides == <>(pc \in {"ok", "rejected"})

GenCase == IF Gen /\ (pc = "ok" \/ pc = "rejected")
           THEN PrintT("~BEH " \o ToJson([case |-> case, outcome |-> pc])) ELSE TRUE
=============================================================================
