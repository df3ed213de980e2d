---------------------------- MODULE PerezSkyTrace ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
P == INSTANCE PerezSky WITH Place <- 0, Days <- {}, Minutes <- 1, Weathers <- {}, Divisions <- {}, m <- 0, clock <- 0, w <- 0, vec <- 0, started <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, tregenza, patches
tvars == <<i, tregenza, patches>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Vec(q) == [x |-> F(q[1]), y |-> F(q[2]), z |-> F(q[3])]
Sun(q) == IF Len(q) = 0 THEN <<>> ELSE <<Vec(q)>>
Near(a, b) == FClose(a, b, "1e-6", "1e-6")
Init == i = 0 /\ tregenza = P!Patches(1) /\ patches = [k \in 1..3 |-> P!Patches(k)]
Old == UNCHANGED <<tregenza, patches>>
W(q) == [dew |-> F(q.dew), dif |-> F(q.dif), dir |-> F(q.dir)]
Sky == /\ Event("vector") /\ Old /\ E.res = "ok"
       /\ \E v \in {P!Vector(W(E.w), Sun(E.sun), P!S!ToSolar(E.p, E.n), E.units, E.albedo, E.sky, E.direct, tregenza, patches[E.m])} :
            Len(E.vec) = Len(v) /\ \A k \in 1..Len(v) : Near(E.vec[k], v[k])
\* a vector of another size is refused and not touched
Size == Event("size") /\ Old /\ (E.ok <=> E.len = P!D!NBins(E.m)) /\ (~E.ok => E.same)
Function == /\ Event("function") /\ Old /\ E.res = "ok"
            /\ \E s \in {P!Setup(W(E.w), Vec(E.sun), P!S!ToSolar(E.p, E.n), E.units, tregenza)} :
                 \A k \in 1..Len(E.at) : Near(E.at[k].v, P!Radiance(s, Vec(E.at[k].d)))
Parts == /\ Event("parts") /\ Old
         /\ Near(E.clearness, P!Clearness(F(E.w.dif), F(E.w.dir), F(E.z))) /\ Near(E.brightness, P!Brightness(F(E.w.dif), F(E.z), F(E.extra)))
         /\ Near(E.water, P!Water(E.w.dew)) /\ E.category + 1 = P!Category(F(E.clearness))
         /\ Near(E.direct, P!DirectLuminous(E.w.dew, F(E.z), F(E.brightness), E.category + 1))
         /\ Near(E.diffuse, P!DiffuseLuminous(E.w.dew, FCos(E.z), F(E.brightness), E.category + 1))
         /\ \A k \in 1..5 : FClose(E.params[k], P!Params(F(E.z), F(E.clearness), F(E.brightness))[k], "1e-8", "1e-8")
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == Sky \/ Size \/ Function \/ Parts \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
