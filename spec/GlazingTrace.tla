---------------------------- MODULE GlazingTrace ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
GL == INSTANCE Glazing WITH Panes <- {}, MaxPanes <- 0, q <- 0, f <- 0, b <- 0, abs <- 0, out <- 0, thru <- 0, n <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0
Near(a, b) == FClose(a, b, "1e-9", "1e-9")
All(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Near(p[k], q[k])
SamePane(a, b) == Near(a.tau, b.tau) /\ Near(a.rf, b.rf) /\ Near(a.rb, b.rb)
Stack == /\ Event("stack") /\ E.res = "ok"
         /\ \A k \in 1..Len(E.panes) : Near(E.own[k].af, GL!Af(E.panes[k])) /\ Near(E.own[k].ab, GL!Ab(E.panes[k]))
         /\ LET al == GL!Alphas(E.panes)
            IN All(E.alphas, al) /\ (E.pair # <<>> => All(E.pair, al))
         /\ SamePane(E.comb, GL!Combined(E.panes))
System == /\ Event("system") /\ E.res = "ok"
          /\ LET s == GL!Seen(E.ls) IN Len(s) = Len(E.front) /\ \A k \in 1..Len(s) : SamePane(E.front[k], s[k])
          /\ All(E.fa, GL!FrontNodes(E.ls, E.el, Len(E.fa)))
          /\ All(E.ba, GL!BackNodes(E.ls, E.el, Len(E.ba)))
Done == i = Len(Trace) /\ UNCHANGED i
Next == Stack \/ System \/ Done
Spec == Init /\ [][Next]_i
=============================================================================
