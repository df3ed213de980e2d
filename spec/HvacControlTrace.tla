-------------------------- MODULE HvacControlTrace --------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
HC == INSTANCE HvacControl WITH Devices <- {}, Temps <- {}, devs <- 0, temp <- 0, power <- 0, last <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, c, state
tvars == <<i, c, state>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Cfg == Trace[c]
\* a device: [kind, target, hset, hpow, cset, cpow, idx]; tidx: space name -> index of its temperature
Create == /\ Event("create") /\ E.new /\ c' = i + 1 /\ state' = E.state
Set == Event("set") /\ state' = E.state /\ c' = c
Known(d) == d.target \in DOMAIN Cfg.tidx
Fails == \E k \in 1..Len(Cfg.devs) : HC!NeedsSpace(Cfg.devs[k]) /\ ~Known(Cfg.devs[k])
Expect(n) == LET own == {k \in 1..Len(Cfg.devs) : Cfg.devs[k].idx + 1 = n /\ HC!Managed(Cfg.devs[k])}
             IN IF own = {} THEN state[n]
                ELSE LET d == Cfg.devs[CHOOSE k \in own : TRUE] IN HC!Power(d, state[Cfg.tidx[d.target] + 1])
Control == /\ Event("control") /\ c' = c /\ state' = E.state
           /\ IF Fails THEN E.res = "err"
              ELSE /\ E.res = "ok" /\ Len(E.state) = Len(state)
                   /\ \A n \in 1..Len(state) : FEq(E.state[n], Expect(n))
Init == i = 0 /\ c = 0 /\ state = <<>>
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == Create \/ Set \/ Control \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
