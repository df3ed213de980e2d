---- MODULE MCSun ----
EXTENDS Sun
P(lat, lon, mer) == [latitude |-> Rad(lat), longitude |-> Rad(lon), meridian |-> Rad(mer)]
MCPlaces == {P(l, "70.7", 60) : l \in {"-80", "-60", "-33", "-10", "0.5", "23", "40", "66", "85"}} \cup {P("51", "-3", 0), P("-41", "-174", "-180")}
MCDays == {1 + 7 * k : k \in 0..52}
====
