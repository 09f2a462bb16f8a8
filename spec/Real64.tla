------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic for TLC.                                     *)
(*                                                                         *)
(* A "real" is either a STRING with a decimal / hexadecimal floating point *)
(* literal (that is how the harness writes them into a trace: "1.25",      *)
(* "nan", "inf"), a TLA+ integer, or the pair <<hi, lo>> of the two 32-bit *)
(* halves of its IEEE representation (what the operators below return).    *)
(* The definitions given here are only place holders: Real64.java (same    *)
(* directory) overrides every one of them when TLC runs.                   *)
(***************************************************************************)
LOCAL Missing == CHOOSE x \in {} : TRUE   \* evaluated only if the override is absent

FAdd(a, b) == Missing      \* a + b
FSub(a, b) == Missing      \* a - b
FMul(a, b) == Missing      \* a * b
FDiv(a, b) == Missing      \* a / b
FNeg(a)    == Missing
FAbs(a)    == Missing
FSqrt(a)   == Missing
FLog(a)    == Missing
FSin(a)    == Missing
FCos(a)    == Missing
FAtan(a)   == Missing
FAsin(a)   == Missing
FAcos(a)   == Missing
FExp(a)    == Missing
FPow(a, b) == Missing
FMax(a, b) == Missing      \* NaN if one argument is NaN
FMin(a, b) == Missing
FLt(a, b)  == Missing      \* BOOLEAN, IEEE semantics
FLe(a, b)  == Missing
FEq(a, b)  == Missing      \* IEEE equality (nan # nan, 0 = -0)
FSame(a, b) == Missing     \* same value, or both NaN
FIsNaN(a)  == Missing
FFinite(a) == Missing
FClose(a, b, rel, abs) == Missing  \* |a-b| <= rel*max(|a|,|b|) + abs, or both NaN, or equal infinities
FSum(s)    == Missing      \* sum of a sequence
FSumAbs(s) == Missing      \* sum of absolute values of a sequence
FNorm(s)   == Missing      \* Euclidean norm of a sequence
FProd(s)   == Missing      \* product of a sequence
FSeqMax(s) == Missing      \* largest / smallest element of a sequence (NaN if one is NaN)
FSeqMin(s) == Missing
FVecSub(s, t) == Missing
FDot(s, t) == Missing      \* scalar product of two sequences
FMatMul(a, b) == Missing   \* product of two matrices (sequence of rows)
FTranspose(a) == Missing
FMatMaxAbs(a) == Missing   \* largest absolute entry
FMatSub(a, b) == Missing
FMatAdd(a, b) == Missing
FMatScale(c, a) == Missing
FMatTrace(a)  == Missing
FEigMin2(m)   == Missing   \* smallest eigenvalue of a symmetric 2x2 matrix
FEigMax2(m)   == Missing   \* largest  eigenvalue of a symmetric 2x2 matrix
FStr(a)    == Missing      \* decimal STRING, for messages
=============================================================================
