----------------------------- MODULE LinkTrace -----------------------------
(* Accepts a recorded session with the Mathematica link iff every request is answered as module Link demands.      *)
(* Focus (environment): "protocol" - form of the replies, messages, streams; "slots" - meaning of the values        *)
(*   Request kind n allreal fault list | rc thrown intact cout cerr puts out | named direct (if decodable)           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real64
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l
vars == <<l>>
L == INSTANCE Link WITH MaxReq <- 0, Design <- "good", Gen <- FALSE, Rules <- 13, pc <- "idle", req <- 0, dead <- FALSE,
                        diverted <- FALSE, buf <- <<>>, arose <- <<>>, out <- <<>>, done <- 0, hist <- <<>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, l>>) /\ FALSE
Ev(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
E == Trace[l]
Has(r, f) == f \in DOMAIN r

WrongCall(e) == e.kind \in {"nohead", "args0", "args2"}
Unreadable(e) == e.kind \in {"noinner", "nopacket"} \/ ~e.allreal \/ e.n # L!N
Refused(e) == Unreadable(e) \/ e.direct.error
ExpectedInfos(e) == IF Unreadable(e) THEN <<>> ELSE e.direct.msgs

Protocol(e) ==
    /\ Chk("no exception leaves the library", ~e.thrown)
    /\ Chk("standard streams are given back", e.intact)
    /\ Chk("nothing is written to standard output", e.cout = 0)
    /\ Chk("at most the delivered part", e.fault >= 0 => e.puts <= e.fault)
    /\ Chk("nothing follows a complete expression", e.out = <<>> \/ L!Missing(e.out) >= 0)
    /\ IF WrongCall(e)
       THEN Chk("a wrong call is reported", (e.rc # 0 /\ e.out = <<>>)
                                            \/ (e.rc = 0 /\ (e.fault < 0 => L!Complete(e.out) /\ L!IsFailure(L!Rest(e.out)))))
       ELSE /\ Chk("all output goes to the link", e.cerr = 0)
            /\ e.fault < 0 =>
                 /\ Chk("answered", e.rc = 0)
                 /\ Chk("one complete expression", L!Complete(e.out))
                 /\ Chk("informational messages in the order they arose", L!Infos(e.out) = ExpectedInfos(e))
                 /\ LET r == L!Rest(e.out) IN
                    IF Refused(e)
                    THEN /\ Chk("failure is reported", L!IsFailure(r))
                         /\ Chk("cause", IF Unreadable(e) THEN r[3][2] # "" ELSE r[3][2] = e.direct.what)
                    ELSE /\ Chk("result", r[1] = <<"F", "List", 13>>)
                         /\ Chk("the request is discarded before it is answered", e.discarded)

(* ---- values ---- *)
Pos(n) == CHOOSE i \in 1..L!N : L!Layout[i] = n
Given(e, n) == CASE n \in {L!OptMasses[i] : i \in 1..5} -> FLt(0, e.list[Pos(n)])
                 [] \E s \in 1..3 : n \in {L!Sectors[s][1] \o ".0", L!Sectors[s][1] \o ".1", L!Sectors[s][2]} ->
                      LET s == CHOOSE s \in 1..3 : n \in {L!Sectors[s][1] \o ".0", L!Sectors[s][1] \o ".1", L!Sectors[s][2]} IN
                      /\ FLt(0, e.list[Pos(L!Sectors[s][1] \o ".0")]) /\ FLt(0, e.list[Pos(L!Sectors[s][1] \o ".1")])
                      /\ FLe(FAbs(e.list[Pos(L!Sectors[s][2])]), 1)
                 [] OTHER -> TRUE
\* the recorder used the library with the point this list stands for
Decoded(e) == \A i \in 4..L!N : LET n == L!Layout[i] IN
    IF Given(e, n) THEN FEq(e.named[n], e.list[i]) \/ FSame(e.named[n], e.list[i]) ELSE FIsNaN(e.named[n])
ASSUME L!Layout[4] = "scale" /\ L!Layout[127] = "s2tau"

R(x) == <<"R", x>>
List(s) == <<<<"F", "List", Len(s)>>>> \o s
Reals(v) == List([i \in DOMAIN v |-> R(v[i])])
Mat(m) == <<<<"F", "List", 2>>>> \o Reals(m[1]) \o Reals(m[2])
Mats(m) == <<<<"F", "List", 4>>>> \o Mat(m[1]) \o Mat(m[2]) \o Mat(m[3]) \o Mat(m[4])
Zero22 == <<<<0, 0>>, <<0, 0>>>>
Expected(d) == <<<<<<"I", d.hid>>>>, <<<<"S", d.hname>>>>, Reals(d.mdrm), Mats(d.mh), Mats(<<Zero22, Zero22, Zero22, d.mdr>>),
                 Mats(<<Zero22, Zero22, Zero22, d.h3m>>), Reals(d.unc), Reals(d.eft), Reals(d.fo), Reals(d.at), Reals(d.lam),
                 Reals(d.lamUnc), Reals(d.lamShift)>>
Size(v) == FSeqMax([i \in DOMAIN v |-> IF v[i][1] = "R" /\ ~FIsNaN(v[i][2]) THEN FAbs(v[i][2]) ELSE 0])
SameTok(a, b, abs) == a[1] = b[1] /\ IF a[1] = "R" THEN FClose(a[2], b[2], "1e-7", abs) ELSE a = b
\* the values under a name agree; orders beyond the requested one need not be calculated
SameValue(got, exp, loops, perloop) ==
    /\ Len(got) = Len(exp)
    /\ \A i \in DOMAIN exp : \/ SameTok(got[i], exp[i], FMul("1e-9", Size(exp)))
                             \/ perloop /\ i - 2 > loops /\ got[i][1] = "R" /\ FEq(got[i][2], 0)
Header(n) == <<<<"F", "Rule", 2>>, <<"S", n>>>>
Offset(x, k) == LET o[i \in 1..k] == IF i = 1 THEN 1 ELSE o[i - 1] + 2 + Len(x[i - 1]) IN o[k]
Values(e) ==
    LET r == L!Rest(e.out)  x == Expected(e.direct)  ab == ~FEq(e.list[1], 0)
        names == L!Names(ab)
        loops == CHOOSE k \in 0..3 : FEq(e.list[2], k) IN
    \A k \in 1..13 : LET o == Offset(x, k) + 1  n == Len(x[k]) IN
        /\ Chk(<<"name", names[k]>>, o + n + 1 <= Len(r) /\ SubSeq(r, o, o + 1) = Header(names[k]))
        /\ Chk(<<"value", names[k]>>, SameValue(SubSeq(r, o + 2, o + 1 + n), x[k], loops, k \in 7..10))
Slots(e) ==
    (~WrongCall(e) /\ ~Unreadable(e)) =>
      /\ Chk("the list stands for the point", Decoded(e))
      /\ \A n \in DOMAIN e.decoded \cap DOMAIN e.completed :
           Chk(<<"lands in its own place", n>>, FClose(e.decoded[n], e.completed[n], "1e-12", 0))
      /\ (e.fault < 0 /\ ~e.direct.error) => Values(e)
      /\ (e.fault < 0 /\ e.direct.error) => Chk("refused as the library does", L!IsFailure(L!Rest(e.out)))
Request == /\ Ev("Request")
           /\ IF Focus = "protocol" THEN Protocol(E) ELSE Slots(E)
\* the order in which the package puts the parameters into the list
Package == /\ Ev("Package")
           /\ Chk("order of the package", E.names = [i \in 1..L!N |-> IF L!Layout[i] = "MG" THEN "M3" ELSE L!Layout[i]])
           /\ Chk("documented names of the package", \A n \in {L!Names(b)[k] : b \in BOOLEAN, k \in 1..13} :
                      n \in {E.outputs[k] : k \in DOMAIN E.outputs})
           \* what the package sends for an optional parameter which is not given has to count as not given
           /\ \A n \in DOMAIN E.defaults :
                Chk(<<"default of the package", n>>, IF n \in {"s2t", "s2b", "s2tau"} THEN FLt(1, FAbs(E.defaults[n])) ELSE FLe(E.defaults[n], 0))
Init == l = 1
Next == Request \/ Package
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
