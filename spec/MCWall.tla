---- MODULE MCWall ----
EXTENDS Wall, TLC
Sol(m, u) == [m |-> m, kind |-> "solid", u |-> u]
End(m) == [m |-> m, kind |-> "back"]
Cv(a, m) == [m |-> m, kind |-> "cavity", cav |-> [gas |-> "Air", th |-> "0.012", h |-> F(1), angle |-> FAcos(a), eout |-> "0.84", ein |-> "0.2"]]
Make(segs, fr, bk, cos, fh) ==
    [segs |-> segs, fa |-> [n \in 1..Len(segs) |-> IF n = 1 THEN "0.7" ELSE "0"], ba |-> [n \in 1..Len(segs) |-> IF n = Len(segs) THEN "0.5" ELSE "0"],
     front |-> [kind |-> fr], back |-> [kind |-> bk], fe |-> "0.84", be |-> "0.7", fh |-> fh, bh |-> "none", area |-> 12, perim |-> 14,
     cos |-> cos, nx |-> 0, ny |-> FSqrt(FSub(1, FMul(cos, cos))), wmod |-> "0.7"]
Builds(c) == {<<Sol(20000, 8), Sol(40000, 8), End(20000)>>,            \* brick
           <<Sol(0, "0.8"), End(0)>>,                                  \* light insulation
           <<Sol(20000, 8), Sol(20000, "0.8"), End(0)>>,               \* brick outside, insulation inside
           <<Sol(0, 200), Cv(c, 0), Sol(0, 200), End(0)>>}             \* double glazing
MCSurfaces == {Make(b, f, k, c, h) : b \in UNION {Builds(cc) : cc \in {0}}, f \in {"Space", "Outdoor"}, k \in {"Space", "Ambient", "Outdoor", "Adiabatic"}, c \in {0}, h \in {"none"}}
         \cup {Make(b, f, "Space", 1, h) : b \in Builds(1), f \in {"Space", "Outdoor"}, h \in {"none", "5"}}
Small == {w \in MCSurfaces : w.back.kind \in {"Space", "Adiabatic"}}
Bound == TLCGet("level") < 7
BoundDeep == TLCGet("level") < 13
====
