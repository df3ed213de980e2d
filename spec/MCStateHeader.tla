---- MODULE MCStateHeader ----
EXTENDS StateHeader
====
