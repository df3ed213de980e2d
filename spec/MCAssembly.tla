---- MODULE MCAssembly ----
EXTENDS Assembly, TLC
CONSTANTS MaxTotal, MaxEach
Out == [t |-> "Outdoor", s |-> ""]
Sp(x) == [t |-> "Space", s |-> x]
Bs == {Out, Sp("s1"), Sp("s2")}
Total == Len(m.spaces) + Len(m.constructions) + Len(m.surfaces) + Len(m.fenestrations) + Len(m.hvacs) + Len(m.luminaires) + Len(m.objects)
MCInit == m = Empty
Room(kind) == Total < MaxTotal /\ Len(m[kind]) < MaxEach
Surfs == {[n |-> x, construction |-> "c1", front |-> f, back |-> b, cat |-> c, up |-> u, area |-> 16, holes |-> {}] :
          x \in {"w1"}, f \in {Out, Sp("s1")}, b \in {Out, Sp("s2")}, c \in {"GroundFloor", "ExteriorWall"}, u \in BOOLEAN}
Fens == {[n |-> x, cat |-> c, construction |-> k, parent |-> p, slot |-> s, up |-> u, front |-> Out, back |-> Sp("s1"), idx |-> -1] :
         x \in {"f1"}, c \in {"Window", "Opening"}, k \in {"c1", "cX"}, p \in {"", "w1", "wX"}, s \in {0, 1, 2}, u \in BOOLEAN}
FreeSlot(o) == IF o.parent = "" THEN TRUE ELSE IF Find(m.surfaces, o.parent) = 0 THEN TRUE
               ELSE o.slot \notin m.surfaces[Find(m.surfaces, o.parent)].holes
Dev == {[n |-> "d1", fresh |-> b, idx |-> -1] : b \in BOOLEAN}
Step ==
    \/ \E x \in {"s1", "s2"} : Room("spaces") /\ Add("spaces", [n |-> x])
    \/ Room("constructions") /\ Add("constructions", [n |-> "c1"])
    \/ \E o \in Surfs : Room("surfaces") /\ Add("surfaces", o)
    \/ \E o \in Fens : Room("fenestrations") /\ FreeSlot(o) /\ Add("fenestrations", o)
    \/ \E o \in Dev : Room("hvacs") /\ Add("hvacs", o)
    \/ \E o \in Dev : Room("luminaires") /\ Add("luminaires", o)
    \/ \E x \in {"", "s1"} : Room("objects") /\ Add("objects", [n |-> "o1", space |-> x])
    \/ ~m.taken /\ TakeState
MCSpec == MCInit /\ [][Step]_m
Monotone == [][\A k \in {"spaces", "constructions", "surfaces", "fenestrations", "hvacs", "luminaires", "objects"} :
                 Len(m'[k]) >= Len(m[k])]_m
====
