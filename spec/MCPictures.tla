---- MODULE MCPictures ----
EXTENDS Pictures
Levels == {0, 1, 2, 3, 127, 128, 200, 255, 256, 257, 511, 1000, 4095, 65535}
Some3 == {<<0, 0, 0>>, <<1, 2, 3>>, <<300, 5, 255>>, <<256, 257, 1>>}
One == {[w |-> 1, h |-> 1, px |-> <<<<a, b, c>>>>] : a, b, c \in Levels}
Six == {[w |-> s[1], h |-> s[2], px |-> p] : s \in {<<2, 3>>, <<3, 2>>, <<6, 1>>}, p \in {q \in [1..6 -> Some3] : q[1] # q[2]}}
I == One \cup (IF 1 = 1 THEN {im \in Six : im.px[6] = <<0, 0, 0>> \/ im.px[5] = <<1, 2, 3>>} ELSE {})
\* scales which go up, and what is placed on them
Up == \A a, b \in 0..8 : \A lo \in {0, 2} : a <= b => FLe(Place(a, lo, 7), Place(b, lo, 7)) /\ FLe(0, Place(a, lo, 7)) /\ FLe(Place(a, lo, 7), 1)
UpLog == \A a, b \in 0..8 : a <= b => FLe(LogPlace(a, 1, 7), LogPlace(b, 1, 7)) /\ FLe(0, LogPlace(a, 1, 7)) /\ FLe(LogPlace(a, 1, 7), 1)
Apart == \A a, b \in Some3 : FEq(Differ(a, b), Differ(b, a)) /\ FEq(Differ(a, a), 0)
Ramp == TLCEval([k \in 1..256 |-> <<FDiv(k - 1, 255), FDiv(k - 1, 510), F(1)>>])
Tints == \A p \in 0..20 : LET t == Tint(Ramp, FDiv(p, 20)) IN FNear(t[1], FDiv(p, 20)) /\ FNear(t[2], FDiv(p, 40)) /\ FNear(t[3], 1)
====
