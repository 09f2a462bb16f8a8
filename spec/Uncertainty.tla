------------------------------ MODULE Uncertainty ------------------------------
(***************************************************************************)
(* Expansion uncertainty (C03): the full-depth value is evaluated first,   *)
(* then, for each expansion variable of the family, the value with exactly *)
(* this one switch lowered; the switch is put back before the next one.    *)
(* Any evaluation may fail, upon which everything is put back (this is     *)
(* what C01 relies on).  The operation may be entered from the selection,  *)
(* which itself has lowered "threeLoop" and "Mst" temporarily.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ILt(a, b) == a < b
IMinus(a, b) == a - b
IAbs(a) == IF a < 0 THEN -a ELSE a
I13(a) == (13 * a) \div 10
I01(a) == a \div 10
H == INSTANCE Hierarchy WITH Lt <- ILt, Minus <- IMinus, Abs <- IAbs, X13 <- I13, X01 <- I01

VARIABLES h,       \* hierarchy
          pc,      \* "idle", "select", "full", "low", "raised"
          depth,   \* switch per expansion variable, 1 = full depth
          stack,   \* saved switches: sequence of <<variable, old value>>
          evals,   \* evaluations of this operation: sets of lowered variables
          todo,    \* variables still to be lowered
          calls    \* operations done
vars == <<h, pc, depth, stack, evals, todo, calls>>

Full == [d \in H!Depths |-> 1]
Lowered == {d \in H!Depths : depth[d] = 0}
Push(d, v) == /\ stack' = Append(stack, <<d, depth[d]>>) /\ depth' = [depth EXCEPT ![d] = v]

Init == /\ h \in H!HIds /\ pc = "idle" /\ depth = Full /\ stack = <<>> /\ evals = <<>> /\ todo = {} /\ calls = 0

\* compareHierarchies lowers two switches for its own comparison
EnterSelection == /\ pc = "idle" /\ calls < 2
                  /\ stack' = <<<<"threeLoop", 1>>, <<"Mst", 1>>>>
                  /\ depth' = [depth EXCEPT !["threeLoop"] = 0, !["Mst"] = 0]
                  /\ pc' = "select" /\ UNCHANGED <<h, evals, todo, calls>>
\* the uncertainty is always evaluated at full depth
Start == /\ pc \in {"idle", "select"} /\ calls < 2
         /\ stack' = stack \o <<<<"Mst", depth["Mst"]>>, <<"threeLoop", depth["threeLoop"]>>>>
         /\ depth' = [depth EXCEPT !["threeLoop"] = 1, !["Mst"] = 1]
         /\ evals' = <<>> /\ todo' = H!ExpVars(h) /\ pc' = "full" /\ UNCHANGED <<h, calls>>
EvalFull == /\ pc = "full" /\ evals' = Append(evals, Lowered) /\ pc' = "low" /\ UNCHANGED <<h, depth, stack, todo, calls>>
EvalLow(v) == /\ pc = "low" /\ Lowered = {} /\ v \in todo
              /\ Push(v, 0) /\ pc' = "eval" /\ todo' = todo \ {v} /\ UNCHANGED <<h, evals, calls>>
EvalDone == /\ pc = "eval" /\ evals' = Append(evals, Lowered)
            /\ LET s == stack[Len(stack)] IN depth' = [depth EXCEPT ![s[1]] = s[2]]
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ pc' = "low" /\ UNCHANGED <<h, todo, calls>>
Pop2 == /\ LET n == Len(stack) IN
             /\ depth' = [depth EXCEPT ![stack[n][1]] = stack[n][2], ![stack[n - 1][1]] = stack[n - 1][2]]
             /\ stack' = SubSeq(stack, 1, n - 2)
Finish == /\ pc = "low" /\ todo = {} /\ Pop2
          /\ pc' = (IF Len(stack) > 2 THEN "select" ELSE "idle")
          /\ calls' = calls + 1 /\ UNCHANGED <<h, evals, todo>>
LeaveSelection == /\ pc = "select" /\ Pop2 /\ pc' = "idle" /\ calls' = calls + 1 /\ UNCHANGED <<h, evals, todo>>
\* an evaluation fails: the switches are put back one after the other
Raise == /\ pc \in {"full", "eval", "select"} /\ pc' = "raised" /\ UNCHANGED <<h, depth, stack, evals, todo, calls>>
Unwind == /\ pc = "raised" /\ stack # <<>>
          /\ LET s == stack[Len(stack)] IN depth' = [depth EXCEPT ![s[1]] = s[2]]
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<h, pc, evals, todo, calls>>
Unwound == /\ pc = "raised" /\ stack = <<>> /\ pc' = "idle" /\ evals' = <<>> /\ todo' = {} /\ calls' = calls + 1 /\ UNCHANGED <<h, depth, stack>>

Next == EnterSelection \/ Start \/ EvalFull \/ (\E v \in H!Depths : EvalLow(v)) \/ EvalDone \/ Finish \/ LeaveSelection
        \/ Raise \/ Unwind \/ Unwound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Restored == pc = "idle" => depth = Full /\ stack = <<>>
OneAtATime == pc \in {"full", "low", "eval"} => Cardinality(Lowered) <= 1
EvaluationsRight ==
  /\ \A i \in DOMAIN evals : IF i = 1 THEN evals[i] = {} ELSE \E v \in H!ExpVars(h) : evals[i] = {v}
  /\ \A i, j \in DOMAIN evals : i # j => evals[i] # evals[j]
Complete == (pc = "low" /\ todo = {}) => {evals[i] : i \in DOMAIN evals} = {{}} \cup {{v} : v \in H!ExpVars(h)}
ReturnsToIdle == []<>(pc = "idle")
=============================================================================
