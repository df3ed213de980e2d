---- MODULE MCPeriod ----
EXTENDS Period
====
