---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Accepts a recorded session of one process iff every result in it is the *)
(* one a fresh process produced for the same operation, parameter point    *)
(* and settings (events Base; each was computed in a process of its own),  *)
(* whatever came before.  An object remembers the point it was made from   *)
(* and the settings made on it, nothing else.                              *)
(*                                                                         *)
(*   Base  kind op pt cfg dig    result in a fresh process                 *)
(*   New   o kind pt ok          an object is constructed (or refused)     *)
(*   Copy  o from                copy construction / assignment            *)
(*   Set   o key val             a setting is changed                      *)
(*   Op    o op dig keep         an operation; keep: the caller's point    *)
(*                               has not been modified                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo, obj
vars == <<l, memo, obj>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]
Settings(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == l = 1 /\ memo = <<>> /\ obj = <<>>

Base ==
    /\ Ev("Base")
    /\ LET k == <<E.kind, E.op, E.pt, Settings(E.cfg)>> IN
        /\ Chk("one-baseline", k \notin DOMAIN memo)
        /\ memo' = Put(memo, k, E.dig)
    /\ UNCHANGED obj

New ==
    /\ Ev("New")
    /\ LET k == <<E.kind, "new", E.pt, {}>> IN
        /\ Chk("baseline", k \in DOMAIN memo)
        /\ Chk("construction", memo[k] = E.dig)
        /\ Chk("point-kept", E.keep)
        \* a refused construction leaves no object
        /\ obj' = IF E.ok THEN Put(obj, E.o, [kind |-> E.kind, pt |-> E.pt, cfg |-> {}])
                  ELSE [x \in DOMAIN obj \ {E.o} |-> obj[x]]
    /\ UNCHANGED memo

Copy ==
    /\ Ev("Copy")
    /\ Chk("live", E.from \in DOMAIN obj)
    /\ obj' = Put(obj, E.o, obj[E.from])
    /\ UNCHANGED memo

Set ==
    /\ Ev("Set")
    /\ Chk("live", E.o \in DOMAIN obj)
    /\ obj' = [obj EXCEPT ![E.o].cfg = {s \in @ : s[1] # E.key} \cup {<<E.key, E.val>>}]
    /\ UNCHANGED memo

Op ==
    /\ Ev("Op")
    /\ Chk("live", E.o \in DOMAIN obj)
    /\ LET b == obj[E.o]
           k == <<b.kind, E.op, b.pt, b.cfg>> IN
        /\ Chk("baseline", k \in DOMAIN memo)
        /\ Chk(<<"result", b.kind, E.op, b.pt>>, memo[k] = E.dig)
        /\ Chk("point-kept", E.keep)
    /\ UNCHANGED <<memo, obj>>

Next == Base \/ New \/ Copy \/ Set \/ Op
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
