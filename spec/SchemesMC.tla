---- MODULE SchemesMC ----
EXTENDS Schemes
MCVal == {-1, 2}
====
