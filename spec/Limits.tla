------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Choice of the formula for the corrections with stops, gluinos and       *)
(* squarks at (nearly) equal masses (C13).                                 *)
(*                                                                         *)
(* Masses are positions on a line (grid units); two masses are "near" if   *)
(* their distance is below the window W, and the expressions for general   *)
(* masses have lost their precision if their distance is at most N.  A     *)
(* calculator is constructed for a spectrum: it classifies the spectrum    *)
(* and may keep the general expressions as long as these are precise.      *)
(* Every query then takes the formula of the chosen limit, translated to   *)
(* one that exists for the requested correction.                           *)
(*                                                                         *)
(* Design flaw switches (CONSTANT Bug) reproduce classes of mistakes; the  *)
(* invariants must fail for each of them.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pos,      \* grid positions
          W, N,     \* window, range in which the general formula is imprecise (N < W)
          Bug       \* "none" or the name of a design flaw

VARIABLES m,      \* [Q, U, G, S |-> position]: stop_L, stop_R, gluino, light squarks
          lim,    \* limit stored in the calculator
          st,     \* "start", "ready"
          log     \* queries made: sequence of <<correction, formula>>
vars == <<m, lim, st, log>>

D(a, b) == IF a < b THEN b - a ELSE a - b
Near(a, b) == D(m[a], m[b]) < W

Corr == {"yt_as", "yt_as2", "lambda_at", "lambda_at_as", "lambda_at_as2", "vev_yt2"}
Lims == {"GENERAL", "MQ3_EQ_MU3", "MQ3_EQ_M3", "MU3_EQ_M3", "MQ3_EQ_MU3_EQ_M3", "DEGENERATE"}

\* the case distinction of the constructor
CloseGluino(x) == D(x["U"], x["G"]) < W \/ (D(x["Q"], x["G"]) < W /\ Bug # "GluinoToOneStop")
Class == IF Near("Q", "U") /\ CloseGluino(m) /\ Near("G", "S") THEN "DEGENERATE"
         ELSE IF Near("Q", "U") /\ CloseGluino(m) THEN "MQ3_EQ_MU3_EQ_M3"
         ELSE IF Near("Q", "U") THEN "MQ3_EQ_MU3"
         ELSE IF Near("Q", "G") /\ Bug # "NoQG" THEN "MQ3_EQ_M3"
         ELSE IF Near("U", "G") THEN "MU3_EQ_M3"
         ELSE "GENERAL"

\* formula used for correction c if the limit L is stored
Formula(c, L) ==
  IF c \in {"lambda_at", "vev_yt2"}
    THEN IF L \in {"MQ3_EQ_MU3", "MQ3_EQ_MU3_EQ_M3", "DEGENERATE"} /\ ~(Bug = "Translate" /\ L = "DEGENERATE")
           THEN "MQ3_EQ_MU3" ELSE "GENERAL"
    ELSE IF c \in {"yt_as", "lambda_at_as"} /\ L = "DEGENERATE" THEN "MQ3_EQ_MU3_EQ_M3"
    ELSE L

Pair(a, b) == {a, b}
\* pairs of masses at whose equality the formula F of correction c has a (removable) singularity
Poles(c, F) ==
  IF c \in {"lambda_at", "vev_yt2"} THEN IF F = "GENERAL" THEN {Pair("Q", "U")} ELSE {}
  ELSE CASE F = "GENERAL"          -> {Pair("Q", "U"), Pair("Q", "G"), Pair("U", "G")}
         [] F = "MQ3_EQ_MU3"       -> {Pair("Q", "G")}
         [] F = "MQ3_EQ_M3"        -> {Pair("Q", "U")}
         [] F = "MU3_EQ_M3"        -> {Pair("Q", "U")}
         [] F = "MQ3_EQ_MU3_EQ_M3" -> IF c \in {"yt_as2", "lambda_at_as2"} THEN {Pair("G", "S")} ELSE {}
         [] F = "DEGENERATE"       -> {}
\* masses the formula F takes to be equal
Assumes(F) == CASE F = "GENERAL"          -> {}
                [] F = "MQ3_EQ_MU3"       -> {Pair("Q", "U")}
                [] F = "MQ3_EQ_M3"        -> {Pair("Q", "G")}
                [] F = "MU3_EQ_M3"        -> {Pair("U", "G")}
                [] F = "MQ3_EQ_MU3_EQ_M3" -> {Pair("Q", "U"), Pair("U", "G")}
                [] F = "DEGENERATE"       -> {Pair("Q", "U"), Pair("U", "G"), Pair("G", "S")}
Dist(P) == LET a == CHOOSE x \in P : TRUE  b == CHOOSE x \in P \ {a} : TRUE IN D(m[a], m[b])

\* the expressions for general masses are precise for all corrections
Precise == \A c \in Corr \ (IF Bug = "OneCorrection" THEN {"yt_as", "yt_as2", "lambda_at_as", "lambda_at_as2"} ELSE {}) :
             \A P \in Poles(c, "GENERAL") : Dist(P) > N

Init == /\ m \in [{"Q", "U", "G", "S"} -> Pos]
        /\ lim = "GENERAL" /\ st = "start" /\ log = <<>>

TakeLimit == /\ st = "start" /\ lim' = Class /\ st' = "ready" /\ UNCHANGED <<m, log>>
KeepGeneral == /\ st = "start" /\ Class # "GENERAL" /\ Precise
               /\ lim' = "GENERAL" /\ st' = "ready" /\ UNCHANGED <<m, log>>
Query(c) == /\ st = "ready" /\ Len(log) < 3
            /\ log' = Append(log, <<c, Formula(c, lim)>>)
            /\ lim' = IF Bug = "QueryTranslates" THEN Formula(c, lim) ELSE lim
            /\ UNCHANGED <<m, st>>
Next == TakeLimit \/ KeepGeneral \/ \E c \in Corr : Query(c)
Spec == Init /\ [][Next]_vars

\* no query evaluates a formula where it is imprecise ...
NoPole == \A i \in DOMAIN log : \A P \in Poles(log[i][1], log[i][2]) : Dist(P) > N
\* ... or for masses that are not nearly equal (a chain of two windows for the stops and the gluino)
Accurate == \A i \in DOMAIN log : \A P \in Assumes(log[i][2]) :
              Dist(P) < W \/ (P \subseteq {"Q", "U", "G"} /\ Cardinality(Assumes(log[i][2])) > 1 /\ Dist(P) < 2*W)
\* the formula used for a correction does not depend on previous queries
NoMemory == \A i, j \in DOMAIN log : log[i][1] = log[j][1] => log[i][2] = log[j][2]
\* the classification respects the exchange of the two stops
SwapName(L) == CASE L = "MQ3_EQ_M3" -> "MU3_EQ_M3" [] L = "MU3_EQ_M3" -> "MQ3_EQ_M3" [] OTHER -> L
Swapped == [m EXCEPT !["Q"] = m["U"], !["U"] = m["Q"]]
ClassOf(x) == IF D(x["Q"], x["U"]) < W /\ CloseGluino(x) /\ D(x["G"], x["S"]) < W THEN "DEGENERATE"
              ELSE IF D(x["Q"], x["U"]) < W /\ CloseGluino(x) THEN "MQ3_EQ_MU3_EQ_M3"
              ELSE IF D(x["Q"], x["U"]) < W THEN "MQ3_EQ_MU3"
              ELSE IF D(x["Q"], x["G"]) < W THEN "MQ3_EQ_M3"
              ELSE IF D(x["U"], x["G"]) < W THEN "MU3_EQ_M3" ELSE "GENERAL"
\* (with the gluino half way between two different stops either limit is right)
Swap == \/ ClassOf(Swapped) = SwapName(ClassOf(m))
        \/ Near("Q", "G") /\ Near("U", "G") /\ ~Near("Q", "U")

Behaviour == PrintT("~BEH " \o ToJson([m |-> m, log |-> [i \in DOMAIN log |-> log[i][1]]]))
Emit == Len(log) < 3 \/ Behaviour
=============================================================================
