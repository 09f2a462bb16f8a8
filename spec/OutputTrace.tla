---------------------------- MODULE OutputTrace ----------------------------
(* Accepts the recorded output of one process iff it is that of module Output.                                 *)
(*   Op kind v pt supplied(by sector: m th s2) failed digest                                                    *)
(*      out (bytes on standard output) banners infos (sectors in order; "?" for other text) shown other          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, flag, memo
vars == <<l, flag, memo>>
O == INSTANCE Output WITH Users <- {}, MaxOps <- 0, Design <- "good", Gen <- FALSE, pc <- <<>>, op <- <<>>, printed <- 0, err <- <<>>,
                          outp <- 0, sectors <- <<>>, done <- 0, steps <- <<>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Miss(e) == {s \in O!Sectors : O!Incomplete(e.supplied[s].m, e.supplied[s].th, e.supplied[s].s2)}
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Op == /\ Ev("Op")
      /\ LET v == E.v /\ O!HasVerbosity(E.kind)
             want == O!Banners(E.kind) /\ v IN
         /\ Chk("standard output untouched", E.out = 0)
         /\ Chk("banner once", E.banners = IF want /\ ~flag THEN 1 ELSE 0)
         /\ IF E.failed THEN Chk("messages up to the failure", Prefix(E.infos, IF v THEN O!Messages(Miss(E)) ELSE <<>>))
                        ELSE Chk("exactly the completed sectors", E.infos = IF v THEN O!Messages(Miss(E)) ELSE <<>>)
         /\ Chk("values shown", \A i \in DOMAIN E.shown : Len(E.shown[i].num) = 4 =>
                    \A k \in 1..4 : FClose(E.shown[i].num[k], E.completed[E.shown[i].sector][k], "1e-4", "1e-5"))
         /\ flag' = (flag \/ want)
         \* the result does not depend on the verbosity
         /\ LET k == <<E.kind, E.pt>> IN
            IF k \in DOMAIN memo THEN Chk("result independent of verbosity", memo[k] = E.digest) /\ UNCHANGED memo
            ELSE memo' = Put(memo, k, E.digest)
\* misuse is reported, on the error stream
Misuse == /\ Ev("Misuse")
          /\ Chk("standard output untouched", E.out = 0)
          /\ Chk(<<"misuse is reported", E.kind>>, E.bad <=> E.text)
          /\ UNCHANGED <<flag, memo>>
\* whatever the settings, warnings do not go to the standard output
Setting == /\ Ev("Setting")
           /\ Chk("standard output untouched", E.out = 0)
           /\ UNCHANGED <<flag, memo>>
Init == l = 1 /\ flag = FALSE /\ memo = <<>>
Next == Op \/ Misuse \/ Setting
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
