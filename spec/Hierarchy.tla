------------------------------- MODULE Hierarchy -------------------------------
(***************************************************************************)
(* The 14 mass hierarchies of the three-loop calculation: names, families, *)
(* expansion variables, and the documented mass orderings in which each of *)
(* them may be used.                                                       *)
(*                                                                         *)
(* The orderings are stated over an abstract ordered domain of masses, so  *)
(* that the design model (integers) and the trace specification (IEEE      *)
(* doubles) use one and the same definition.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Lt(_, _),      \* a < b
          Minus(_, _),   \* a - b
          Abs(_),        \* |a|
          X13(_),        \* 1.3 * a
          X01(_)         \* 0.1 * a

LOCAL Le(a, b) == ~Lt(b, a)          \* never used with undefined masses
LOCAL Gt(a, b) == Lt(b, a)
LOCAL Ge(a, b) == ~Lt(a, b)

HNames == <<"h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2">>
HIds == 0 .. 13
Name(h) == HNames[h + 1]

Mother(h) ==
  CASE h \in {0, 1, 2}       -> 0
    [] h = 3                 -> 3
    [] h \in {4, 5}          -> 4
    [] h \in {6, 11}         -> 6
    [] h \in {7, 8, 9, 10}   -> 7
    [] h \in {12, 13}        -> 12

Depths == {"threeLoop", "Mst", "Dmglst1", "Dmsqst1", "Dmst12", "At", "lmMsusy", "Msq", "Msusy", "Dmglst2", "Dmsqst2", "Mgl"}

\* the variables a family is expanded in
ExpVars(h) ==
  CASE Mother(h) = 0  -> {"Dmglst1", "Dmsqst1", "Dmst12"}
    [] Mother(h) = 3  -> {"At", "lmMsusy", "Msq", "Msusy"}
    [] Mother(h) = 4  -> {"Dmglst1", "Msq"}
    [] Mother(h) = 6  -> {"Dmglst2", "Msq"}
    [] Mother(h) = 7  -> {"Dmglst2", "Dmsqst2"}
    [] Mother(h) = 12 -> {"Dmsqst1", "Dmst12", "Mgl"}

(* m1 <= m2: sfermion masses; mg: gluino; mq: average light squark mass *)
Suitable(h, m1, m2, mg, mq) ==
  LET gap   == Gt(Minus(m2, m1), X01(m1))                        \* sfermions well separated
      near1 == Lt(Minus(mg, m1), Abs(Minus(mg, m2)))             \* gluino nearer to m1
      near2 == Lt(Minus(m2, mg), Abs(Minus(mg, m1)))             \* gluino nearer to m2
  IN  /\ ~Gt(m2, X13(mq))                                        \* light squarks may be at most 30% lighter
      /\ ~Gt(mg, X13(mq))
      /\ CASE Name(h) = "h3"      -> Gt(mg, m2)
           [] Name(h) = "h32q2g"  -> Ge(m2, mq) /\ Gt(m2, mg)
           [] Name(h) = "h3q22g"  -> Gt(mq, m2) /\ Gt(m2, mg)
           [] Name(h) = "h4"      -> Lt(m1, mq) /\ Ge(m1, mg)
           [] Name(h) = "h5"      -> gap /\ near1 /\ Lt(m2, mq) /\ Ge(m1, mg)
           [] Name(h) = "h5g1"    -> gap /\ near1 /\ Lt(m2, mq) /\ Gt(mg, m1)
           [] Name(h) = "h6"      -> gap /\ near2 /\ Lt(X13(m2), mq) /\ Ge(m2, mg)
           [] Name(h) = "h6g2"    -> gap /\ near2 /\ Lt(X13(m2), mq) /\ Gt(mg, m2)
           [] Name(h) = "h6b"     -> gap /\ near2 /\ Ge(m2, mq) /\ Ge(m2, mg)
           [] Name(h) = "h6b2qg2" -> gap /\ near2 /\ Ge(m2, mq) /\ Gt(mg, m2)
           [] Name(h) = "h6bq22g" -> gap /\ near2 /\ Gt(mq, m2) /\ Ge(m2, mg)
           [] Name(h) = "h6bq2g2" -> gap /\ near2 /\ Gt(mq, m2) /\ Gt(mg, m2)
           [] Name(h) = "h9"      -> Ge(m2, mq) /\ Lt(Minus(m2, m1), Minus(m1, mg))
           [] Name(h) = "h9q2"    -> Gt(mq, m2) /\ Gt(m1, mg)
=============================================================================
