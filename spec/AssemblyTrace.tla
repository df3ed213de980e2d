---------------------------- MODULE AssemblyTrace ----------------------------
EXTENDS Assembly, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1

NameSeq(s) == [k \in 1..Len(s) |-> s[k].n]
SetOf(s) == {s[k] : k \in 1..Len(s)}
SameB(a, b) == a.t = b.t /\ a.s = b.s
Matches(s, mm) ==      \* the recorded snapshot s is the model mm
    /\ s.spaces = NameSeq(mm.spaces) /\ s.constructions = NameSeq(mm.constructions)
    /\ s.substances = NameSeq(mm.substances) /\ s.materials = NameSeq(mm.materials)
    /\ s.buildings = NameSeq(mm.buildings) /\ s.objects = NameSeq(mm.objects)
    /\ Len(s.surfaces) = Len(mm.surfaces)
    /\ \A k \in 1..Len(s.surfaces) : LET a == s.surfaces[k] b == mm.surfaces[k] IN
         /\ a.n = b.n /\ a.construction = b.construction /\ SameB(a.front, b.front) /\ SameB(a.back, b.back)
         /\ a.holes = Cardinality(b.holes) /\ FNear(a.area, AreaOf(b))
    /\ Len(s.fenestrations) = Len(mm.fenestrations)
    /\ \A k \in 1..Len(s.fenestrations) : LET a == s.fenestrations[k] b == mm.fenestrations[k] IN
         a.n = b.n /\ a.construction = b.construction /\ SameB(a.front, b.front) /\ SameB(a.back, b.back) /\ a.idx = b.idx
    /\ Len(s.hvacs) = Len(mm.hvacs)
    /\ \A k \in 1..Len(s.hvacs) : s.hvacs[k].n = mm.hvacs[k].n /\ s.hvacs[k].idx = mm.hvacs[k].idx
    /\ Len(s.luminaires) = Len(mm.luminaires)
    /\ \A k \in 1..Len(s.luminaires) : s.luminaires[k].n = mm.luminaires[k].n /\ s.luminaires[k].idx = mm.luminaires[k].idx
    /\ IF mm.taken THEN s.state = <<<<"taken", -1>>>> ELSE s.state = mm.state

Start == Event("start") /\ E.new /\ m' = Empty
Fresh(kind, o) == IF kind = "surfaces" THEN [o EXCEPT !.holes = SetOf(o.holes)] ELSE o
TAdd == /\ Event("add") /\ E.res # "panic"
        /\ LET o == Fresh(E.kind, E.o) IN Add(E.kind, o) /\ E.res = (IF Refused(m, E.kind, o) THEN "err" ELSE "ok")
        /\ Matches(E.snap, m')
TTake == /\ Event("take") /\ TakeState
         /\ E.res = (IF m.taken THEN "none" ELSE "state")
         /\ (E.res = "state" => E.got = m.state)
         /\ Matches(E.snap, m')
\* look-ups by name return the first object so called, or fail
TGet == /\ Event("get") /\ UNCHANGED m /\ E.res # "panic"
        /\ LET k == Find(m[E.kind], E.n) IN E.found = k
TSizes == /\ Event("sizes") /\ UNCHANGED m /\ E.res = "ok"
          /\ FNear(E.total, FloorArea(m, "*", Len(m.surfaces)))
          /\ {E.spaces[k].n : k \in 1..Len(E.spaces)} = Names(m.spaces)
          /\ \A k \in 1..Len(E.spaces) : FNear(E.spaces[k].area, FloorArea(m, E.spaces[k].n, Len(m.surfaces)))
Done == i = Len(Trace) /\ UNCHANGED <<i, m>>
TNext == Start \/ TAdd \/ TTake \/ TGet \/ TSizes \/ Done
TSpec == m = Empty /\ i = 0 /\ [][TNext]_<<m, i>>
==============================================================================
