---- MODULE MCEpw ----
EXTENDS Epw
====
