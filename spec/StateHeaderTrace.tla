-------------------------- MODULE StateHeaderTrace --------------------------
EXTENDS StateHeader, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, names       \* names: the elements as printed
tvars == <<i, names>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Personal == {"Clothing"}
Operational == {"FenestrationOpenFraction", "HeatingCoolingPowerConsumption", "LuminairePowerConsumption"}
ClassOf(kind) == IF kind \in Personal THEN "P" ELSE IF kind \in Operational THEN "O" ELSE "H"

Reset == /\ Event("new") /\ E.new
         /\ elems' = <<>> /\ vals' = <<>> /\ taken' = FALSE /\ res' = "none" /\ names' = <<>>
\* what the header reports after the operation
Seen == /\ E.len = Len(elems') /\ E.empty = (elems' = <<>>)
        /\ E.n_ind = Len(SelectSeq(elems', LAMBDA x : x = "P"))
        /\ E.n_op = Len(SelectSeq(elems', LAMBDA x : x = "O"))
        /\ E.elems = names'
        /\ E.taken = taken'
        /\ (~taken' => /\ Len(E.vals) = Len(vals')
                       /\ \A k \in 1..Len(vals') : FEq(E.vals[k], vals'[k]))
TPush == /\ Event("push") /\ E.class = ClassOf(E.kind)
         /\ Push(ClassOf(E.kind), E.v)
         /\ E.res = res'
         /\ (E.res = "ok" => E.idx = Len(elems))        \* index of the new element, from 0
         /\ names' = IF E.res = "ok" THEN Append(names, E.name) ELSE names
         /\ Seen
TTake == /\ Event("take") /\ Take /\ names' = names
         /\ E.res = res'
         /\ (E.res = "values" => Len(E.got) = Len(vals) /\ \A k \in 1..Len(vals) : FEq(E.got[k], vals[k]))
         /\ Seen
TCopy == /\ Event("copy") /\ E.res = "ok" /\ UNCHANGED <<svars, names>>
         /\ LET want == Copied(E.class, E.origin, E.dest)
            IN Len(E.out) = Len(want) /\ \A k \in 1..Len(want) : FEq(E.out[k], want[k])
         /\ \A k \in 1..Len(E.origin) : FEq(E.origin[k], E.origin_after[k])
Done == i = Len(Trace) /\ UNCHANGED <<svars, tvars>>
TNext == Reset \/ TPush \/ TTake \/ TCopy \/ Done
TSpec == Init /\ i = 0 /\ names = <<>> /\ [][TNext]_<<svars, tvars>>
==============================================================================
