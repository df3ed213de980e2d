------------------------------ MODULE ZoneHeat ------------------------------
(* The heat balance of the air of a space during one thermal sub-step:      *)
(*     c dT/dt = a - b T ,  solved exactly with a, b, c held.               *)
(* a: heat gains plus sum(g * t), b: sum(g) over its exchanges [g, t], with *)
(* g in W/K and t the temperature of what it exchanges heat with; c: the    *)
(* heat capacity of the air at the temperature at the start.                *)
EXTENDS Integers, Sequences, Flt
CV == INSTANCE Cavity WITH Cavities <- {}, Temps <- {}, cav <- 0, front <- 0, back <- 0
RhoCp(t) == FMul(CV!Density("Air", CV!K(t)), CV!HeatCapacity("Air", CV!K(t)))
Capacity(vol, t) == FMul(vol, RhoCp(t))
AirFlow(v, t) == [g |-> FMul(v, RhoCp(t)), t |-> F(t)]          \* v m3/s of air entering at t
Surface(h, area, ts) == [g |-> FMul(h, area), t |-> F(ts)]
SumG(ex) == FSum([k \in 1..Len(ex) |-> ex[k].g])
SumGT(ex) == FSum([k \in 1..Len(ex) |-> FMul(ex[k].g, ex[k].t)])
Solve(T, a, b, c, dt) ==
    IF FLt("1e-9", FAbs(b))
    THEN LET eq == FDiv(a, b) IN FAdd(eq, FMul(FSub(T, eq), FExp(FNeg(FDiv(FMul(b, dt), c)))))
    ELSE FAdd(T, FDiv(FMul(a, dt), c))
Step(vol, T, gains, ex, dt) == Solve(T, FAdd(FSum(gains), SumGT(ex)), SumG(ex), Capacity(vol, T), dt)
-----------------------------------------------------------------------------
CONSTANTS Vols, Gains, Winds, Outs, Hs, Starts, Dt
VARIABLES vol, gain, inf, wall, T, n
zvars == <<vol, gain, inf, wall, T, n>>
Init == /\ vol \in Vols /\ gain = "0" /\ T \in {F(t) : t \in Starts} /\ n = 0
        /\ inf \in [v : Winds, t : Outs] /\ wall \in [h : Hs, t : Outs]
Exch == <<AirFlow(inf.v, inf.t), Surface(wall.h, 10, wall.t)>>
A == FAdd(gain, SumGT(Exch))
B == SumG(Exch)
March == T' = Step(vol, T, <<gain>>, Exch, Dt) /\ n' = n + 1 /\ UNCHANGED <<vol, gain, inf, wall>>
Switch == gain' \in Gains /\ gain' # gain /\ n' = n + 1 /\ UNCHANGED <<vol, inf, wall, T>>
Weather == inf' \in [v : {inf.v}, t : Outs] /\ inf' # inf /\ n' = n + 1 /\ UNCHANGED <<vol, gain, wall, T>>
Next == March \/ Switch \/ Weather
Spec == Init /\ [][Next]_zvars
Connected == FLt("1e-9", B)
Eq == FDiv(A, B)
\* it moves towards the equilibrium and never past it
Approach == [][(T' # T /\ Connected) => /\ FLe(FAbs(FSub(T', Eq)), FAdd(FAbs(FSub(T, Eq)), "1e-9"))
                                        /\ FLe("-1e-9", FMul(FSub(T', Eq), FSub(T, Eq)))]_zvars
\* an isolated space keeps exactly the heat it is given
Isolated == [][(T' # T /\ ~Connected) => FNear(FMul(Capacity(vol, T), FSub(T', T)), FMul(gain, Dt))]_zvars
IsolatedKeeps == ~Connected /\ FEq(gain, 0) => FNear(Step(vol, T, <<gain>>, Exch, Dt), T)
\* energy: what the air gains is what the exchanges and gains supplied over the step
Energy == Connected =>
    LET c == Capacity(vol, T) X == Step(vol, T, <<gain>>, Exch, Dt)
        mean == FAdd(Eq, FDiv(FMul(c, FSub(T, X)), FMul(B, Dt)))        \* mean temperature over the step
    IN FClose(FMul(c, FSub(X, T)), FMul(Dt, FSub(A, FMul(B, mean))), "1e-6", "1e-3")
\* two half steps are one step (with the same coefficients)
Halves == LET c == Capacity(vol, T) h == FDiv(Dt, 2)
          IN FClose(Solve(Solve(T, A, B, c, h), A, B, c, h), Solve(T, A, B, c, Dt), "1e-9", "1e-9")
\* heat never cools, cooling never heats
Monotone == FLe(Step(vol, T, <<gain>>, Exch, Dt), Step(vol, T, <<FAdd(gain, 100)>>, Exch, Dt))
\* order does not matter
Commutes == FNear(Step(vol, T, <<gain>>, <<Exch[2], Exch[1]>>, Dt), Step(vol, T, <<gain>>, Exch, Dt))
==============================================================================
