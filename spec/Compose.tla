------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Order of the steps that build a complete result.  The lambda correction *)
(* passes through a slot of the result object: the three-loop hierarchy    *)
(* calculation leaves the bare expansion there, the lambda step replaces   *)
(* it by the finished value.  Every other hierarchy calculation (for the   *)
(* uncertainty with truncated expansions, for the other mass scheme) works *)
(* on a copy of the object.  Explored: every order of the steps compatible *)
(* with their data dependencies.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Design      \* "good", "UncInPlace", "MdrInPlace", "LateLambda"
VARIABLES done, obj, out
vars == <<done, obj, out>>
\* obj: the slots of the object that is returned (as provenance); out: the values of the copy
Steps == {"select", "h3", "m1", "m2", "unc", "lambda", "eft", "mdr", "diag"}
Needs == [select |-> {}, h3 |-> {"select"}, m1 |-> {"select"}, m2 |-> {"select"}, unc |-> {"m1", "m2", "h3"},
          lambda |-> {"h3"}, eft |-> {"lambda"}, mdr |-> {"h3", "m1", "m2"}, diag |-> {"m1", "m2", "h3"}]
Slot == {"hier", "bare", "lam", "dmh0", "dmh1", "dmh2", "dmh3", "shift", "masses", "eft3", "mh2"}
Init == done = {} /\ obj = [s \in Slot |-> "zero"] /\ out = "zero"
\* a three-loop hierarchy calculation on an object leaves bare lambda and masses there
Calc(o, scheme, depth) == [o EXCEPT !.bare = <<o.hier, scheme, depth>>, !.masses = <<o.hier, scheme>>]
Run(s) ==
    /\ s \notin done /\ Needs[s] \subseteq done /\ done' = done \cup {s}
    /\ out' = out
    /\ obj' = CASE s = "select" -> [obj EXCEPT !.hier = "chosen", !.dmh0 = "tree"]
                [] s = "h3"     -> [Calc(obj, "DR", "full") EXCEPT !.dmh3 = <<obj.hier, "DR">>]
                [] s = "m1"     -> [obj EXCEPT !.dmh1 = "DR"]
                [] s = "m2"     -> [obj EXCEPT !.dmh2 = "DR"]
                [] s = "unc"    -> IF Design = "UncInPlace" THEN Calc(obj, "DR", "truncated") ELSE obj
                [] s = "lambda" -> [obj EXCEPT !.lam = <<"finished", obj.bare>>]
                [] s = "eft"    -> [obj EXCEPT !.eft3 = obj.lam]
                [] s = "mdr"    -> IF Design = "MdrInPlace"
                                   THEN [Calc(obj, "MDR", "full") EXCEPT !.shift = <<obj.dmh3, "MDR">>]
                                   ELSE [obj EXCEPT !.shift = <<obj.dmh3, "MDR">>, !.masses = <<obj.hier, "MDR">>]
                [] s = "diag"   -> [obj EXCEPT !.mh2 = <<obj.dmh0, obj.dmh1, obj.dmh2, obj.dmh3>>]
Next == \E s \in Steps : Run(s)
Spec == Init /\ [][Next]_vars
Complete == done = Steps
Composed == Complete =>
    /\ obj.lam = <<"finished", <<"chosen", "DR", "full">>>>
    /\ obj.eft3 = obj.lam
    /\ obj.dmh3 = <<"chosen", "DR">> /\ obj.shift = <<obj.dmh3, "MDR">>
    /\ obj.masses = <<"chosen", "MDR">>
    /\ obj.mh2 = <<"tree", "DR", "DR", <<"chosen", "DR">>>>
=============================================================================
