----------------------------- MODULE ControlApi -----------------------------
(* What a control script (and the Rust methods behind it) may read and      *)
(* change: the properties of the objects of a model, each stored at its own *)
(* place ("slot") of the simulation state, once it has been given one.      *)
(*                                                                          *)
(* objs: sequence of [kind, name, slots: property -> place (0: not given)]. *)
(* A reference [kind, by, name, idx, prop]: idx counts from 0 among the     *)
(* objects of the kind.  kind "nothing": no reference.                      *)
(* A statement [cond, cmp, val, target, op, from, gain, off]:               *)
(*   if cond cmp val { target op gain * from + off }   (op: "=" or "+=";    *)
(*   "let": the value is kept and assigned by the next statement; "junk": a *)
(*   value that is not a number).                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt

OfKind(objs, kind) == SelectSeq(objs, LAMBDA o : o.kind = kind)
RECURSIVE Find(_, _, _)
Find(q, name, k) == IF k > Len(q) THEN 0 ELSE IF q[k].name = name THEN k ELSE Find(q, name, k + 1)
\* the place of a property; -1: there is no such object or property, or it has not been given a place
Which(q, r) == IF r.by = "name" THEN Find(q, r.name, 1)
               ELSE IF r.idx >= 0 /\ r.idx < Len(q) THEN r.idx + 1 ELSE 0
Place(objs, r) == LET q == OfKind(objs, r.kind) k == Which(q, r)
                  IN IF k = 0 THEN -1
                     ELSE IF r.prop \notin DOMAIN q[k].slots THEN -1
                     ELSE IF q[k].slots[r.prop] = 0 THEN -1 ELSE q[k].slots[r.prop]
None(r) == r.kind = "nothing"

\* the outcome of one statement in state s: [ok, s]
Fails(s) == [ok |-> FALSE, s |-> s]
Holds(objs, st, s) == LET p == Place(objs, st.cond) IN IF st.cmp = "<" THEN FLt(s[p], st.val) ELSE FLt(st.val, s[p])
Value(objs, st, s) == IF None(st.from) THEN F(st.off) ELSE FAdd(FMul(st.gain, s[Place(objs, st.from)]), st.off)
Do(objs, st, s) ==
    IF ~None(st.cond) /\ Place(objs, st.cond) = -1 THEN Fails(s)
    ELSE IF (IF None(st.cond) THEN FALSE ELSE ~Holds(objs, st, s)) THEN [ok |-> TRUE, s |-> s]
    ELSE IF ~None(st.from) /\ Place(objs, st.from) = -1 THEN Fails(s)
    ELSE IF Place(objs, st.target) = -1 \/ st.op = "junk" THEN Fails(s)
    ELSE LET p == Place(objs, st.target) v == Value(objs, st, s)
         IN [ok |-> TRUE, s |-> [s EXCEPT ![p] = IF st.op = "+=" THEN FAdd(s[p], v) ELSE v]]
\* a script stops at the first statement that fails; what it did before stays
RECURSIVE Run(_, _, _)
Run(objs, sc, s) == IF sc = <<>> THEN [ok |-> TRUE, s |-> s, at |-> 0]
                    ELSE LET r == Do(objs, Head(sc), s)
                         IN IF ~r.ok THEN [ok |-> FALSE, s |-> r.s, at |-> 1]
                            ELSE LET q == Run(objs, Tail(sc), r.s) IN IF q.ok THEN q ELSE [q EXCEPT !.at = q.at + 1]
-----------------------------------------------------------------------------
CONSTANTS Objects, Refs, Statements, MaxStates, InitialState
VARIABLES objs, s, prog, pc, status
cvars == <<objs, s, prog, pc, status>>
Init == objs \in Objects /\ s = InitialState /\ prog = <<>> /\ pc = 1 /\ status = "idle"
\* the physics give a property a place, once
Give == /\ status = "idle" /\ prog = <<>>
        /\ \E k \in 1..Len(objs), n \in 1..Len(s) : \E p \in DOMAIN objs[k].slots :
             /\ objs[k].slots[p] = 0 /\ \A j \in 1..Len(objs) : \A q \in DOMAIN objs[j].slots : objs[j].slots[q] # n
             /\ objs' = [objs EXCEPT ![k].slots[p] = n]
        /\ UNCHANGED <<s, prog, pc, status>>
Write == /\ status = "idle" /\ Len(prog) < MaxStates /\ \E st \in Statements : prog' = Append(prog, st)
         /\ UNCHANGED <<objs, s, pc, status>>
Call == status = "idle" /\ prog # <<>> /\ status' = "running" /\ pc' = 1 /\ UNCHANGED <<objs, s, prog>>
Step == /\ status = "running" /\ pc <= Len(prog)
        /\ LET r == Do(objs, prog[pc], s) IN s' = r.s /\ status' = (IF r.ok THEN "running" ELSE "failed")
        /\ pc' = pc + 1 /\ UNCHANGED <<objs, prog>>
Return == status = "running" /\ pc > Len(prog) /\ status' = "done" /\ UNCHANGED <<objs, s, prog, pc>>
Next == Give \/ Write \/ Call \/ Step \/ Return
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Call \/ Step \/ Return)

\* what the program as a whole does is what its statements do one by one
Whole == status \in {"done", "failed"} => LET r == Run(objs, prog, InitialState)
         IN r.ok = (status = "done") /\ r.s = s /\ (status = "failed" => r.at = pc - 1)
\* no two properties share a place
Private == \A j, k \in 1..Len(objs) : \A p \in DOMAIN objs[j].slots, q \in DOMAIN objs[k].slots :
             objs[j].slots[p] # 0 /\ objs[j].slots[p] = objs[k].slots[q] => j = k /\ p = q
\* a statement changes the property that it names and no other
Owned(r, k, p) == LET q == OfKind(objs, r.kind) IN /\ objs[k].kind = r.kind /\ r.prop = p
                  /\ IF r.by = "name" THEN objs[k].name = r.name
                     ELSE Cardinality({j \in 1..(k - 1) : objs[j].kind = r.kind}) = r.idx
Local == [][status = "running" => \A n \in 1..Len(s) : s'[n] # s[n] =>
              \E k \in 1..Len(objs) : \E p \in DOMAIN objs[k].slots : objs[k].slots[p] = n /\ Owned(prog[pc].target, k, p)]_cvars
FailsClean == [][status' = "failed" => s' = s]_cvars
\* what one reads after writing is what was written
Kept == [][status = "running" /\ pc <= Len(prog) /\ status' = "running" /\ None(prog[pc].cond) /\ None(prog[pc].from) /\ prog[pc].op = "=" =>
             FEq(s'[Place(objs, prog[pc].target)], prog[pc].off)]_cvars
Ends == (status = "running") ~> (status \in {"done", "failed"})
=============================================================================
