---- MODULE MCZoneHeat ----
EXTENDS ZoneHeat, TLC
Bound == n < 4
BoundDeep == n < 6
====
