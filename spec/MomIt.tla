------------------------------- MODULE MomIt -------------------------------
(***************************************************************************)
(* The two-loop part of the fixed-order calculation of the Higgs mass that *)
(* comes from the momentum of the one-loop self-energy (C16):              *)
(*                                                                         *)
(*     p2 = Tree + Loop(p2),     Loop(p) = c + (s p) div 4                 *)
(*                                                                         *)
(* off    neglects the momentum dependence beyond one loop                 *)
(* pert   expands: derivative of Loop times Loop(0)                        *)
(* num    iterates, from Tree, until two values agree within Prec or Max   *)
(*        steps have been made; the one-loop part Loop(Tree) is subtracted *)
(* Integers stand for real numbers.  The iteration need not converge.      *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Trees, Cs, Max, Prec, Fault
Slopes == -5..5
VARIABLES mode, tree, c, s, pc, p, dm, n, conv, result
vars == <<mode, tree, c, s, pc, p, dm, n, conv, result>>
Abs(x) == IF x < 0 THEN -x ELSE x
Loop(x) == c + (s * x) \div 4
Init == /\ mode \in {"off", "pert", "num"} /\ tree \in Trees /\ c \in Cs /\ s \in Slopes
        /\ pc = "start" /\ p = 0 /\ dm = 0 /\ n = 0 /\ conv = FALSE /\ result = 0
Keep == UNCHANGED <<mode, tree, c, s>>
Neglect == /\ pc = "start" /\ mode = "off" /\ pc' = "done" /\ result' = 0 /\ Keep /\ UNCHANGED <<p, dm, n, conv>>
Expand == /\ pc = "start" /\ mode = "pert" /\ pc' = "done" /\ result' = (s * Loop(0)) \div 4 /\ Keep /\ UNCHANGED <<p, dm, n, conv>>
Start == /\ pc = "start" /\ mode = "num" /\ pc' = "iterate" /\ p' = (IF Fault = "start" THEN 0 ELSE tree)
         /\ Keep /\ UNCHANGED <<dm, n, conv, result>>
Iterate == /\ pc = "iterate" /\ ~conv /\ (n < Max \/ (Fault = "nolimit" /\ n <= Max))
           /\ dm' = tree + Loop(p)
           /\ p' = (IF Fault = "damped" THEN (p + tree + Loop(p)) \div 2 ELSE tree + Loop(p))
           /\ conv' = (IF Fault = "nocheck" THEN n > 0 ELSE Abs(tree + Loop(p) - p) <= Prec)
           /\ n' = n + 1
           /\ Keep /\ UNCHANGED <<pc, result>>
Finish == /\ pc = "iterate" /\ (conv \/ n >= Max) /\ pc' = "done"
          /\ result' = (CASE Fault = "onelooptwice" -> dm - tree [] OTHER -> dm - tree - Loop(tree))
          /\ Keep /\ UNCHANGED <<p, dm, n, conv>>
Next == Neglect \/ Expand \/ Start \/ Iterate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Orbit(_)
Orbit(k) == IF k = 0 THEN tree ELSE tree + Loop(Orbit(k - 1))
Done == pc = "done"
\* cut off after Max steps
Bounded == n <= Max
\* the momentum of the iteration is the value of the previous step
OnOrbit == mode = "num" /\ n > 0 => p = Orbit(n) /\ dm = Orbit(n)
\* the end is self-consistent, or the last allowed step
SelfConsistent == Done /\ mode = "num" => IF n < Max THEN Abs(Orbit(n) - Orbit(n - 1)) <= Prec ELSE TRUE
NotTooEarly == Done /\ mode = "num" => \A k \in 1..(n - 1) : Abs(Orbit(k) - Orbit(k - 1)) > Prec
\* only the part beyond one loop: nothing if the self-energy does not depend on the momentum
BeyondOneLoop == Done /\ s = 0 => result = 0
\* tree + one loop + result = value at the last momentum
Total == Done /\ mode = "num" => tree + Loop(tree) + result = Orbit(n)
Terminates == <>Done
=============================================================================
