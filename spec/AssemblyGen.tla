---- MODULE AssemblyGen ----
(* Random construction histories, well-formed and ill-formed.  The argument h keeps TLC from evaluating the
   random choices once and for all. *)
EXTENDS Assembly, TLC, Json
CONSTANT Len0
VARIABLE hist
Out == [t |-> "Outdoor", s |-> ""]
Ground == [t |-> "Ground", s |-> ""]
Adiab == [t |-> "Adiabatic", s |-> ""]
Sp(x) == [t |-> "Space", s |-> x]
Bs == {Out, Ground, Adiab, Sp("s1"), Sp("s2"), Sp("s3")}
Cats == {"GroundFloor", "InteriorFloor", "ExteriorFloor", "ExteriorWall", "Roof", "Ceiling", "InteriorWall", "Other"}
R(S) == RandomElement(S)
Surf(h) == [n |-> R({"w1", "w2", "w3"}), construction |-> R({"c1", "c1", "c2", "c3"}), front |-> R(Bs), back |-> R(Bs), cat |-> R(Cats),
         up |-> R(BOOLEAN), area |-> 16, holes |-> {}]
Fen(h) == [n |-> R({"f1", "f2", "f3"}), cat |-> R({"Window", "Door", "Opening"}), construction |-> R({"c1", "c2", "c3"}),
        parent |-> R({"", "w1", "w2", "w3"}), slot |-> R({0, 1, 2, 3, 4}), up |-> R(BOOLEAN), front |-> R({Out, Sp("s1")}), back |-> R({Out, Sp("s2")}), idx |-> -1]
Dev(h) == [n |-> R({"d1", "d2"}), fresh |-> R({TRUE, TRUE, TRUE, FALSE}), idx |-> -1]
Obj(h) == [n |-> R({"o1", "o2"}), space |-> R({"", "s1", "s2", "s3"})]
FreeSlot(o) == IF o.parent = "" THEN TRUE ELSE IF Find(m.surfaces, o.parent) = 0 THEN TRUE
               ELSE o.slot \notin m.surfaces[Find(m.surfaces, o.parent)].holes
\* a clone of something already in a model can only exist once something is
CloneOk(k, o) == o.fresh \/ Len(m[k]) > 0
\* half of the histories start from a small building
W0(n, f, b, cat, up) == [n |-> n, construction |-> "c1", front |-> f, back |-> b, cat |-> cat, up |-> up, area |-> 16, holes |-> {}]
Prep == << <<"constructions", [n |-> "c1"]>>, <<"spaces", [n |-> "s1"]>>, <<"spaces", [n |-> "s2"]>>,
           <<"surfaces", W0("w1", Sp("s1"), Out, "GroundFloor", TRUE)>>,
           <<"surfaces", W0("w2", Sp("s2"), Sp("s1"), "InteriorFloor", FALSE)>> >>
RECURSIVE Fold(_)
Fold(k) == IF k = 0 THEN Empty ELSE Added(Fold(k - 1), Prep[k][1], Prep[k][2])
GInit == \/ m = Empty /\ hist = <<>>
         \/ m = Fold(Len(Prep)) /\ hist = Prep
Do(kind, o) == Add(kind, o) /\ hist' = Append(hist, <<kind, o>>)
Pick(h) == R(1..22)
GNext ==
    /\ Len(hist) < Len0
    /\ \E p \in {Pick(hist)} :
       CASE p \in 1..3 -> \E x \in {R({"s1", "s2", "s3"})} : Do("spaces", [n |-> x])
         [] p \in 4..6 -> \E x \in {R({"c1", "c2", "c3"})} : Do("constructions", [n |-> x])
         [] p = 7 -> \E x \in {R({"b1", "b2"})} : Do("substances", [n |-> x])
         [] p = 8 -> \E x \in {R({"t1", "t2"})} : Do("materials", [n |-> x])
         [] p = 9 -> \E x \in {R({"g1", "g2"})} : Do("buildings", [n |-> x])
         [] p \in 10..13 -> \E o \in {Surf(hist)} : Do("surfaces", o)
         [] p \in 14..17 -> \E o \in {Fen(hist)} : IF FreeSlot(o) THEN Do("fenestrations", o) ELSE Do("spaces", [n |-> "s1"])
         [] p = 18 \/ p = 19 -> \E o \in {Dev(hist)} : IF CloneOk("hvacs", o) THEN Do("hvacs", o) ELSE Do("spaces", [n |-> "s2"])
         [] p = 20 -> \E o \in {Dev(hist)} : IF CloneOk("luminaires", o) THEN Do("luminaires", o) ELSE Do("spaces", [n |-> "s1"])
         [] p = 21 -> \E o \in {Obj(hist)} : Do("objects", o)
         [] p = 22 -> IF R(1..4) = 1 THEN TakeState /\ hist' = Append(hist, <<"take", [n |-> ""]>>) ELSE Do("constructions", [n |-> "c1"])
GSpec == GInit /\ [][GNext]_<<m, hist>>
Emit == Len(hist) = Len0 => PrintT("SCN:" \o ToJson(hist))
====
