--------------------------- MODULE ControlApiTrace ---------------------------
(* Recorded models, Rust calls on their properties and control scripts.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
API == INSTANCE ControlApi WITH Objects <- {}, Refs <- {}, Statements <- {}, MaxStates <- 0, InitialState <- <<>>,
           objs <- <<>>, s <- <<>>, prog <- <<>>, pc <- 0, status <- ""
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, objs, s
tvars == <<i, objs, s>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0 /\ objs = <<>> /\ s = <<>>
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : FEq(a[k], b[k])
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : FClose(a[k], b[k], "1e-12", "1e-12")
Create == /\ Event("create") /\ E.new /\ objs' = E.objs /\ s' = E.state
\* Rust: E.obj, E.prop
Slot == objs[E.obj].slots[E.prop]
Get == /\ Event("get") /\ UNCHANGED <<objs, s>> /\ E.index = Slot
       /\ IF Slot = 0 THEN E.res = "none" ELSE E.res # "none" /\ FEq(E.res, s[Slot])
Set == /\ Event("set") /\ UNCHANGED objs /\ E.ok = (Slot # 0) /\ s' = E.state
       /\ Same(E.state, IF Slot = 0 THEN s ELSE [s EXCEPT ![Slot] = E.val])
Give == /\ Event("give") /\ UNCHANGED s /\ E.ok = (Slot = 0)
        /\ objs' = IF Slot = 0 THEN [objs EXCEPT ![E.obj].slots[E.prop] = E.place] ELSE objs
\* a script, from state s
Script == /\ Event("script") /\ UNCHANGED objs /\ s' = E.state
          /\ LET r == API!Run(objs, E.stmts, s) IN ToString(E.ok) = ToString(r.ok) /\ Near(E.state, r.s)
\* the physics, or anything else that shares the state
Others == Event("others") /\ UNCHANGED objs /\ Len(E.state) = Len(s) /\ s' = E.state
\* text that is not a script
Syntax == Event("syntax") /\ ~E.ok /\ UNCHANGED <<objs, s>>
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == Create \/ Get \/ Set \/ Give \/ Script \/ Others \/ Syntax \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
