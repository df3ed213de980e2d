---- MODULE MCClouds ----
EXTENDS Clouds
Rec(z, c, t, g, d) == [z |-> z, extra |-> "1360.5", cloud |-> c, temp |-> t, hum |-> "0.65", wind |-> 3, dew |-> d, pressure |-> 100000, global |-> g]
Few == {Rec(z, c, t, g, d) : z \in {"-0.3", "0.1", "0.5", "0.95"}, c \in {"0", "1"}, t \in {"-10", "25"}, g \in {"0", "700"}, d \in {"-5", "18"}}
Three == {Rec(z, c, "5.5", g, "8") : z \in {"-0.3", "0.2", "0.8"}, c \in {"0", "0.6", "1"}, g \in {"0", "500"}}
Four == {Rec(z, c, t, "100", "8") : z \in {"0.18", "0.8"}, c \in {"0", "1"}, t \in {"-10", "25"}}
R == {<<a, b>> : a, b \in Few} \cup {<<a, b, c>> : a, b, c \in Three} \cup {<<a, b, c, d>> : a, b, c, d \in Four}
====
