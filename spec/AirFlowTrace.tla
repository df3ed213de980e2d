---------------------------- MODULE AirFlowTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
AF == INSTANCE AirFlow WITH Spaces <- {}, Temps <- {}, Winds <- {}, Configs <- {}, Buildings <- {},
                            cfg <- 0, temp <- 0, vol <- 0, tinf <- 0, wea <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, c, state     \* c: index of the event with the configuration; state: the state vector as last seen
tvars == <<i, c, state>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Cfg == Trace[c]
Init == i = 0 /\ c = 0 /\ state = <<>>
Ok(cfg) == \A s \in 1..Len(cfg.spaces) : AF!Admitted(cfg.spaces[s].inf, cfg.spaces[s].b)
\* creation: one infiltration volume and temperature (both zero) per space, at the index the space reports
Create == /\ Event("create") /\ E.new /\ c' = i + 1
          /\ IF Ok(E)
             THEN /\ E.res = "ok" /\ state' = E.state
                  /\ \A s \in 1..Len(E.spaces) : LET sp == E.spaces[s] IN
                       /\ E.elems[sp.vol + 1] = <<"SpaceInfiltrationVolume", s - 1>>
                       /\ E.elems[sp.tinf + 1] = <<"SpaceInfiltrationTemperature", s - 1>>
                       /\ FEq(E.state[sp.vol + 1], 0) /\ FEq(E.state[sp.tinf + 1], 0)
                  /\ Len(E.elems) = E.before + 2 * Len(E.spaces) /\ Len(E.state) = Len(E.elems)
             ELSE E.res = "err" /\ state' = <<>>
\* someone else (thermal model, controller) changes the state between steps
Set == /\ Event("set") /\ state' = E.state /\ c' = c
Expect(k) ==    \* the value of element k after the step
    LET Sp == Cfg.spaces
        own == {s \in 1..Len(Sp) : Sp[s].inf.type # "none" /\ (k = Sp[s].vol + 1 \/ k = Sp[s].tinf + 1)}
    IN IF own = {} THEN state[k]
       ELSE LET s == CHOOSE s \in own : TRUE
            IN IF k = Sp[s].tinf + 1 THEN F(E.w.t)
               ELSE AF!Volume(Sp[s].inf, Sp[s].b, Cfg.terrain, state[Sp[s].temp + 1], E.w)
March == /\ Event("march") /\ E.res = "ok" /\ Len(E.state) = Len(state)
         /\ \A k \in 1..Len(state) : FClose(E.state[k], Expect(k), "1e-9", "1e-12")
         /\ state' = E.state /\ c' = c
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == Create \/ Set \/ March \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
