------------------------------- MODULE Selection -------------------------------
(***************************************************************************)
(* Selection of the mass hierarchy (C02): the candidates are visited in    *)
(* the order of their numbers; an unsuitable one is skipped; a suitable    *)
(* one replaces the best one so far iff its error is strictly smaller.     *)
(* Design model over a small grid of masses and errors.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Masses, Errors        \* finite sets of naturals; masses in units where 1.3 and 0.1 are exact (tens)

ILt(a, b) == a < b
IMinus(a, b) == a - b
IAbs(a) == IF a < 0 THEN -a ELSE a
I13(a) == (13 * a) \div 10
I01(a) == a \div 10
H == INSTANCE Hierarchy WITH Lt <- ILt, Minus <- IMinus, Abs <- IAbs, X13 <- I13, X01 <- I01

VARIABLES m,        \* masses
          next,     \* next candidate
          seen,     \* suitable candidates visited so far, with their errors
          best,     \* selected so far (-1: none)
          bestErr,  \* its error (-1: none)
          out       \* "run", "done", "fail"
vars == <<m, next, seen, best, bestErr, out>>

Init == /\ m \in {x \in [m1 : Masses, m2 : Masses, mg : Masses, mq : Masses] : x.m1 < x.m2}
        /\ next = 0 /\ seen = <<>> /\ best = -1 /\ bestErr = -1 /\ out = "run"

Suit(h) == H!Suitable(h, m.m1, m.m2, m.mg, m.mq)

Skip == /\ out = "run" /\ next \in H!HIds /\ ~Suit(next)
        /\ next' = next + 1 /\ UNCHANGED <<m, seen, best, bestErr, out>>

Take(e) == /\ out = "run" /\ next \in H!HIds /\ Suit(next)
           /\ seen' = Append(seen, <<next, e>>)
           /\ IF bestErr < 0 \/ e < bestErr
                THEN best' = next /\ bestErr' = e
                ELSE UNCHANGED <<best, bestErr>>
           /\ next' = next + 1 /\ UNCHANGED <<m, out>>

Finish == /\ out = "run" /\ next = 14 /\ best >= 0 /\ out' = "done" /\ UNCHANGED <<m, next, seen, best, bestErr>>
Fail   == /\ out = "run" /\ next = 14 /\ best < 0  /\ out' = "fail" /\ UNCHANGED <<m, next, seen, best, bestErr>>

Next == Skip \/ (\E e \in Errors : Take(e)) \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SeenErr(h) == LET s == {i \in DOMAIN seen : seen[i][1] = h} IN seen[CHOOSE i \in s : TRUE][2]
SeenIds == {seen[i][1] : i \in DOMAIN seen}

OnlySuitable == best >= 0 => Suit(best)
Minimal == \A h \in SeenIds : bestErr <= SeenErr(h)
FirstWins == \A h \in SeenIds : SeenErr(h) = bestErr => best <= h
AllSuitableSeen == out # "run" => SeenIds = {h \in H!HIds : Suit(h)}
FailIffNone == /\ out = "fail" => \A h \in H!HIds : ~Suit(h)
               /\ out = "done" => \E h \in H!HIds : Suit(h)
Terminates == <>(out # "run")

\* facts about the table itself
TableFacts ==
  /\ \A h \in H!HIds : H!Mother(H!Mother(h)) = H!Mother(h)
  /\ \A h \in H!HIds : H!ExpVars(h) # {} /\ H!ExpVars(h) \subseteq H!Depths \ {"threeLoop", "Mst"}
\* every hierarchy is reachable, and so is the failure
ASSUME TableFacts
Grid4 == {x \in [m1 : Masses, m2 : Masses, mg : Masses, mq : Masses] : x.m1 < x.m2}
ASSUME \A h \in H!HIds : \E x \in Grid4 : H!Suitable(h, x.m1, x.m2, x.mg, x.mq)
ASSUME \E x \in Grid4 : \A h \in H!HIds : ~H!Suitable(h, x.m1, x.m2, x.mg, x.mq)
=============================================================================
