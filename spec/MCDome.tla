---- MODULE MCDome ----
EXTENDS Dome
====
