---- MODULE PicturesGen ----
(* Images saved, read, damaged, compared and drawn in false colours (C27) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Dim(h) == R({1, 2, 3, 5, 8, 11})
Fill(h) == R({"any", "any", "grey", "edge", "dark", "huge", "one", "flat", "steps"})
Op(h) == [op |-> R({"new", "new", "save", "save", "load", "load", "diff", "cut", "paint"}), a |-> R(0..2), b |-> R(0..2), f |-> R(0..1), w |-> Dim(h), h |-> Dim(h), fill |-> Fill(h), swap |-> R({0, 0, 1})]
Store(h) == [mode |-> "store", ops |-> <<[op |-> "new", a |-> 0, b |-> 0, f |-> 0, w |-> Dim(h), h |-> Dim(h), fill |-> Fill(h), swap |-> 0],
                                         [op |-> "save", a |-> 0, b |-> 0, f |-> 0, w |-> 1, h |-> 1, fill |-> "any", swap |-> 0],
                                         [op |-> "load", a |-> 1, b |-> 0, f |-> 0, w |-> 1, h |-> 1, fill |-> "any", swap |-> 0],
                                         [op |-> "diff", a |-> 1, b |-> 0, f |-> 0, w |-> 1, h |-> 1, fill |-> "any", swap |-> 0]>> \o [j \in 1..R(2..10) |-> Op(j)]]
Raw(h) == [mode |-> "raw", head |-> R({"plain", "plain", "plain", "extra", "nofmt", "badfmt", "nosize", "badnum", "swapped", "flipped", "mirrored", "short"}), body |-> R({"exact", "exact", "exact", "cut", "pixel", "more", "none"}), w |-> Dim(h), h |-> Dim(h), nl |-> R({0, 1})]
False(h) == [mode |-> "false", map |-> R({"Radiance", "Inferno", "Magma", "Plasma", "Viridis"}), log |-> R({0, 1}), min |-> R({"none", "none", "low", "mid", "under"}), max |-> R({"none", "none", "top", "mid", "over"}), fill |-> R({"any", "grey", "steps", "dim", "dim", "flat"}), w |-> Dim(h), h |-> Dim(h)]
Map(h) == [mode |-> "map", map |-> R({"Radiance", "Inferno", "Magma", "Plasma", "Viridis"})]
Init == n = 0 /\ sc = [mode |-> "none"]
Next == /\ n < Many /\ n' = n + 1
        /\ sc' = IF n % 10 < 4 THEN Store(n) ELSE IF n % 10 < 6 THEN Raw(n) ELSE IF n % 10 = 9 THEN Map(n) ELSE False(n)
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
