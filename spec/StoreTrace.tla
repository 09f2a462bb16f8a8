----------------------------- MODULE StoreTrace -----------------------------
(* Accepts a recorded session with result objects iff every object reads as the store of module Store.     *)
(*   New o ab | Write o q n val ok | Copy o from | Refuse o q n ok   each followed by the full contents `now` of `o`; *)
(*   Probe: a read at order n with ok = accepted.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj
vars == <<l, obj>>
S == INSTANCE Store WITH Objs <- {}, Vals <- {}, Quantities <- {}, Orders <- {}, MaxOps <- 0, Gen <- FALSE,
                         st <- obj, ref <- obj, done <- 0, steps <- <<>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]
Gt(a, b) == FLt(b, a)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* E.now: sequence of <<quantity, order, values>>
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FSame(a[i], b[i])
Readable == S!Slots \ {<<"XtUnc", 0>>}          \* the mixing uncertainty is visible in the total only
Reads(now, o) ==
    /\ Chk("all slots", {<<now[i][1], now[i][2]>> : i \in DOMAIN now} = Readable)
    /\ \A i \in DOMAIN now :
         Chk(<<"reads back", now[i][1], now[i][2]>>, SameSeq(now[i][3], o.s[<<now[i][1], now[i][2]>>]))
Derived(e, o) ==
    /\ Chk("bottom flag", e.ab = o.ab)
    /\ Chk("uncertainty 0-2", \A i \in 1..3 : FEq(e.unc[i], 0))
    /\ Chk("uncertainty 3", FClose(e.unc[4], FAdd(FAbs(o.s[<<"XtUnc", 0>>][1]),
                                             FAbs(FSub(o.s[<<"LambdaEFT", 0>>][1], o.s[<<"LambdaH3m", 0>>][1]))), "1e-15", 0))
    /\ Chk("names", \A i \in 1..14 : e.notation[i] = S!Notation[i])
\* The report: for every line the quantities whose values it shows, in this order
Report == <<<<>>, <<>>, <<<<"MDRMasses", 0, 1>>>>, <<<<"MDRMasses", 0, 2>>>>, <<<<"AbsDiff", 0, 1>>>>, <<<<"RelDiff%", 0, 1>>>>>>
  \o [n \in 1..4 |-> [k \in 1..4 |-> <<"DMh", n - 1, k>>]]
  \o [n \in 1..3 |-> <<<<"ExpUnc", n, 1>>>>]
  \o <<[k \in 1..4 |-> <<"MDRShift", 0, k>>], [k \in 1..4 |-> <<"H3mShift", 0, k>>]>>
  \o [n \in 1..3 |-> <<<<"DLambda", n - 1, 1>>>>] \o <<<<<<"DLambda", 3, 1>>, <<"Unc3", 0, 1>>>>>>
  \o [n \in 1..4 |-> <<<<"DLambdaShift", n - 1, 1>>>>] \o [n \in 1..4 |-> <<<<"EFT", n - 1, 1>>>>]
  \o <<<<<<"FO", 0, 1>>>>>> \o [n \in 1..3 |-> <<<<"FOAt", n, 1>>>>] \o [n \in 1..3 |-> <<<<"FO", n, 1>>>>]
Shown(e, o, r) == CASE r[1] = "RelDiff%" -> FMul(o.s[<<"RelDiff", 0>>][1], 100)
                    [] r[1] = "Unc3"     -> e.unc[4]
                    [] OTHER             -> o.s[<<r[1], r[2]>>][r[3]]
Near6(a, b) == FSame(a, b) \/ FClose(a, b, "6e-6", 0)
Printed(e, o) ==
    /\ Chk("report scheme", e.scheme = IF o.s[<<"Scheme", 0>>][1] \in {0, 2} THEN "H3m scheme" ELSE "DR'")
    /\ Chk("report particle", e.sbottoms = o.ab)
    /\ Chk("report lines", Len(e.report) = Len(Report))
    /\ \A i \in 3..Len(Report) :
         Chk(<<"report", Report[i]>>, Len(e.report[i]) = Len(Report[i])
                                      /\ \A k \in DOMAIN Report[i] : Near6(e.report[i][k], Shown(e, o, Report[i][k])))
    /\ Chk("report name", LET h == e.hier IN h \in 0..13 => e.hname = S!Notation[h + 1])
    /\ Chk("report hierarchy", FSame(ToString(e.hier), o.s[<<"Hierarchy", 0>>][1]))
State(e, o) == Printed(e, o) /\ Reads(e.now, o) /\ Derived(e, o)
\* every other object reads as before
Others(e) == \A i \in DOMAIN e.others : Chk("other object", e.others[i][1] \in DOMAIN obj /\ Reads(e.others[i][2], obj[e.others[i][1]]))

New == /\ Ev("New")
       /\ LET o == [ab |-> E.b, s |-> S!Empty] IN State(E, o) /\ obj' = Put(obj, E.o, o)
       /\ Others(E)
Write ==
    /\ Ev("Write")
    /\ LET v == IF E.q \in DOMAIN S!Flag THEN <<E.int>> ELSE E.val
           o == obj[E.o]
           n == [o EXCEPT !.s = S!Written(@, E.q, E.n, v, Gt)] IN
        /\ Chk("refused iff out of range", E.ok = S!Admitted(E.q, E.n, v))
        /\ State(E, n)
        /\ obj' = [obj EXCEPT ![E.o] = n]
    /\ Others(E)
Copy ==
    /\ Ev("Copy")
    /\ State(E, obj[E.from])
    /\ obj' = Put(obj, E.o, obj[E.from])
    /\ Others(E)
Probe ==
    /\ Ev("Probe")
    /\ Chk("read refused iff out of range", E.ok = (E.n \in (IF E.q = "Unc" THEN 0..3 ELSE S!PerLoop[E.q].lo..S!PerLoop[E.q].hi)))
    /\ UNCHANGED obj
    /\ State(E, obj[E.o])

Init == l = 1 /\ obj = <<>>
Next == New \/ Write \/ Copy \/ Probe
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
