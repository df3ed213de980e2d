---- MODULE MCPerezSky ----
EXTENDS PerezSky
MCPlace == [latitude |-> S!Rad("-33"), longitude |-> S!Rad("70.7"), meridian |-> S!Rad(60)]
MCDays == {10, 100, 190, 300}
MCDeepDays == {5, 60, 100, 172, 230, 300, 355}
MCWeathers == {[dew |-> 11, dif |-> 0, dir |-> 0], [dew |-> 11, dif |-> 200, dir |-> 0], [dew |-> 3, dif |-> 120, dir |-> 30], [dew |-> 15, dif |-> 90, dir |-> 150],
  [dew |-> 9, dif |-> 80, dir |-> 500], [dew |-> 5, dif |-> 60, dir |-> 900], [dew |-> 5, dif |-> 0, dir |-> 900]}
====
