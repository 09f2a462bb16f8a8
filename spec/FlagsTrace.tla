---------------------------- MODULE FlagsTrace ----------------------------
(* Accepts a recorded session with the switches of one object of kind "eft", "fo" or "foat".                        *)
(*   Units kind: base[n], unit[t] = per loop order the value with only switch t on (for n = 0..3; "fo": n = 2 only)   *)
(*   New | Switch o v msgs | All v | Eval n val                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils, Real64
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind, unit, on, bad
vars == <<l, kind, unit, on, bad>>
F == INSTANCE Flags WITH Orders <- {}, MaxOps <- 0, Gen <- FALSE, Design <- "good", done <- 0, steps <- <<>>, val <- {}
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]
AtAs == CHOOSE i \in F!Set({"ONLY_AT_AS"}) : TRUE
Off == "off"
Mode(o) == IF kind # "eft" /\ AtAs \in o THEN 2 ELSE 1          \* which evaluation of the terms applies
\* unit.base[m][n+1], unit.one[m][t][n+1]: vectors of components (m: mode)
Base(o, n) == unit.base[Mode(o)][n + 1]
One(o, t, n) == unit.one[Mode(o)][CHOOSE i \in t : TRUE][n + 1]
Acc(s, f(_)) == FoldSet(LAMBDA x, a : FAdd(f(x), a), "0", s)
Sum(o, n, k) == LET b == Base(o, n)[k] IN
    FAdd(b, Acc({t \in F!Terms(kind, n) : F!On(t, o)}, LAMBDA t : FSub(One(o, t, n)[k], b)))
Size(o, n, k) == LET b == Base(o, n)[k] IN
    FAdd(FAbs(b), Acc({t \in F!Terms(kind, n) : F!On(t, o)}, LAMBDA t : FAbs(FSub(One(o, t, n)[k], b))))
Fits(v, o, n) == /\ Len(v) = Len(Base(o, n))
                 /\ \A k \in DOMAIN v : FLe(FAbs(FSub(v[k], Sum(o, n, k))), FMul("1e-9", Size(o, n, k)))
Units ==
    /\ Ev("Units") /\ kind' = E.kind /\ on' = {} /\ bad' = {}
    /\ unit' = [base |-> E.base, one |-> E.one]
    /\ Chk("known kind", E.kind \in {"eft", "fo", "foat"})
    \* everything off: no correction beyond the base part; a switch acts on its own loop order and its own term only
    /\ \A m \in DOMAIN E.base : \A n \in DOMAIN E.base[m] :
         /\ Chk("off is zero", (E.kind = "eft" /\ n \in {2, 3}) => \A k \in DOMAIN E.base[m][n] : FEq(E.base[m][n][k], 0))
         /\ \A o \in DOMAIN E.one[m] :
              Chk(<<"own loop order", n - 1, o>>,
                  \A k \in DOMAIN E.base[m][n] :
                     (\A t \in F!Terms(E.kind, n - 1) : o \notin t) => FSame(E.one[m][o][n][k], E.base[m][n][k]))
         /\ \A t \in F!Terms(E.kind, n - 1) : \A o, q \in t :
              Chk(<<"switches of one term", n - 1, t>>, \A k \in DOMAIN E.base[m][n] : FSame(E.one[m][o][n][k], E.one[m][q][n][k]))
New == Ev("New") /\ on' = F!Defaults(kind) /\ bad' = {} /\ UNCHANGED <<kind, unit>>
Switch ==
    /\ Ev("Switch")
    /\ Chk("invalid values are reported", (E.v \notin {0, 1}) = (E.msgs > 0))
    /\ on' = IF E.v = 1 THEN on \cup {E.o + 1} ELSE on \ {E.o + 1}
    /\ bad' = IF E.v \in {0, 1} THEN bad \ {E.o + 1} ELSE bad \cup {E.o + 1}
    /\ UNCHANGED <<kind, unit>>
All == Ev("All") /\ on' = (IF E.v = 1 THEN 1..22 ELSE {}) /\ bad' = {} /\ UNCHANGED <<kind, unit>>
\* a switch with an invalid value may count as on or off, but touches nothing else
Eval ==
    /\ Ev("Eval")
    /\ Chk(<<"sum of the terms that are on", E.n>>,
           \E b \in SUBSET {i \in bad : \E t \in F!Terms(kind, E.n) : i \in t} : Fits(E.val, on \cup b, E.n))
    /\ UNCHANGED <<kind, unit, on, bad>>
Init == l = 1 /\ kind = "" /\ unit = <<>> /\ on = {} /\ bad = {}
Next == Units \/ New \/ Switch \/ All \/ Eval
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
