------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The result object as a store.  A slot is a quantity and a loop order    *)
(* (or 0 for quantities without one); each slot holds the last value       *)
(* written to it and nothing else changes it.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* admitted loop orders and number of components of each quantity
PerLoop == [DMh |-> [lo |-> 0, hi |-> 3, w |-> 4], DMh2 |-> [lo |-> 0, hi |-> 3, w |-> 1],
            ExpUnc |-> [lo |-> 1, hi |-> 3, w |-> 1], DLambda |-> [lo |-> 0, hi |-> 3, w |-> 1],
            DLambdaShift |-> [lo |-> 0, hi |-> 3, w |-> 1], EFT |-> [lo |-> 0, hi |-> 3, w |-> 1],
            FO |-> [lo |-> 0, hi |-> 3, w |-> 1], FOAt |-> [lo |-> 0, hi |-> 3, w |-> 1]]
Single  == [Hierarchy |-> 1, AbsDiff |-> 1, RelDiff |-> 1, MDRShift |-> 4, H3mShift |-> 4, MDRMasses |-> 2,
            LambdaH3m |-> 1, LambdaEFT |-> 1, LambdaNonLog |-> 1, XtUnc |-> 1]
\* flags with a limited range of values
Flag    == [MDRFlag |-> [lo |-> 0, hi |-> 1, init |-> 0], Scheme |-> [lo |-> 0, hi |-> 3, init |-> 1]]

Slots == ({<<q, n>> : q \in DOMAIN PerLoop, n \in 0..3} \ {<<"ExpUnc", 0>>})
         \cup {<<q, 0>> : q \in DOMAIN Single} \cup {<<q, 0>> : q \in DOMAIN Flag}
ASSUME \A q \in DOMAIN PerLoop : {n \in 0..3 : <<q, n>> \in Slots} = PerLoop[q].lo..PerLoop[q].hi

Zero(w) == [i \in 1..w |-> 0]
Empty == [s \in Slots |-> IF s[1] \in DOMAIN PerLoop THEN Zero(PerLoop[s[1]].w)
                          ELSE IF s[1] \in DOMAIN Single THEN Zero(Single[s[1]]) ELSE <<Flag[s[1]].init>>]

\* does the store accept this write?
Admitted(q, n, v) == IF q \in DOMAIN PerLoop THEN n \in PerLoop[q].lo..PerLoop[q].hi
                     ELSE IF q \in DOMAIN Flag THEN v[1] \in Flag[q].lo..Flag[q].hi ELSE TRUE
\* what is kept of a value: masses are kept in ascending order
Kept(q, v, Gt(_, _)) == IF q = "MDRMasses" /\ Gt(v[1], v[2]) THEN <<v[2], v[1]>> ELSE v
Written(s, q, n, v, Gt(_, _)) == IF Admitted(q, n, v) THEN [s EXCEPT ![<<q, n>>] = Kept(q, v, Gt)] ELSE s

Notation == <<"h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2">>
----------------------------------------------------------------------------
(* Design model: two objects, every write, copies. *)
\* Vals and Orders are shifted by one (configuration files know no negative numbers)
CONSTANTS Objs, Vals, Quantities, Orders, MaxOps, Gen
VARIABLES st, ref, done, steps
vars == <<st, ref, done, steps>>
\* ref: for every object the sequence of accepted writes since its creation (through copies)
Init == st = [o \in Objs |-> Empty] /\ ref = [o \in Objs |-> <<>>] /\ done = 0 /\ steps = <<>>
Log(x) == steps' = IF Gen THEN Append(steps, x) ELSE steps
GtInt(a, b) == a > b
Width(q) == IF q \in DOMAIN PerLoop THEN PerLoop[q].w ELSE IF q \in DOMAIN Single THEN Single[q] ELSE 1
Write(o, q, n, x, y) ==
    LET v == IF Width(q) = 1 THEN <<x>> ELSE [i \in 1..Width(q) |-> IF i = 1 THEN x ELSE y] IN
    /\ done < MaxOps /\ done' = done + 1
    /\ q \notin DOMAIN PerLoop => n = 0
    /\ Width(q) > 1 \/ x = y
    /\ st' = [st EXCEPT ![o] = Written(@, q, n, v, GtInt)]
    /\ ref' = IF Gen THEN ref ELSE IF Admitted(q, n, v) THEN [ref EXCEPT ![o] = Append(@, <<q, n, Kept(q, v, GtInt)>>)] ELSE ref
    /\ Log([op |-> "w", o |-> o, q |-> q, n |-> n])
Copy(o, p) ==
    /\ o # p /\ done < MaxOps /\ done' = done + 1
    /\ st' = [st EXCEPT ![p] = st[o]] /\ ref' = [ref EXCEPT ![p] = ref[o]]
    /\ Log([op |-> "c", o |-> o, q |-> "", n |-> p])
Next == \/ \E o \in Objs, q \in Quantities, n \in {k - 1 : k \in Orders}, x, y \in {k - 1 : k \in Vals} :
              Write(o, q, n, x, y)
        \/ \E o, p \in Objs : Copy(o, p)
Spec == Init /\ [][Next]_vars

LastWrite(h, s) == LET i == {k \in DOMAIN h : h[k][1] = s[1] /\ h[k][2] = s[2]}
                   IN IF i = {} THEN Empty[s] ELSE h[CHOOSE k \in i : \A j \in i : j <= k][3]
\* every slot holds the last accepted write to it
ReadsLastWrite == ~Gen => \A o \in Objs, s \in Slots : st[o][s] = LastWrite(ref[o], s)
Ascending == \A o \in Objs : st[o][<<"MDRMasses", 0>>][1] <= st[o][<<"MDRMasses", 0>>][2]
\* a step changes one object, and a write one slot of it
OneSlot == [][\A o, p \in Objs : o # p => st'[o] = st[o] \/ st'[p] = st[p]]_vars
GenDone == IF Gen /\ done = MaxOps THEN PrintT("~BEH " \o ToJson(steps)) ELSE TRUE
=============================================================================
