-------------------------------- MODULE Wall --------------------------------
(* Heat transfer through a surface during one thermal sub-step (crate heat).*)
(* A surface s: [segs : sequence of [m, kind, u, cav]  (node mass, and the  *)
(* link to the next node: "solid" with conductance u, "cavity" with cav, or *)
(* "back"),  fa, ba (absorbed fraction of the front / back sun per node),   *)
(* front, back : [kind : Outdoor|Space|Ambient|Adiabatic],  fe, be          *)
(* (emissivities), fh, bh (fixed coefficients or "none"), area, perim, cos  *)
(* (of the tilt: 1 faces up), nx, ny (normal), wmod].                       *)
(* Its surroundings x: [tf, tb (air at each side), irf, irb, sf, sb (sun),  *)
(* ws, wd (wind)].  T: the node temperatures.                               *)
EXTENDS Integers, Sequences, Flt, TLC
CV == INSTANCE Cavity WITH Cavities <- {}, Temps <- {}, cav <- 0, front <- 0, back <- 0
Sigma == CV!Sigma
Cube(x) == CV!Cube(x)

\* --- convection (TARP): cos = 1 for a face that looks up, -1 down
Natural(air, ts, cos) ==
    LET dT == FSub(air, ts)
        p == FPow(FAbs(dT), FDiv(1, 3))
        h == IF FLt(FAbs(dT), "1e-3") \/ FLt(FAbs(cos), "1e-3") THEN FMul("1.31", p)
             ELSE IF FLt(FMul(dT, cos), 0) THEN FDiv(FMul("9.482", p), FSub("7.238", FAbs(cos)))   \* warm face up, cold face down
             ELSE FDiv(FMul("1.81", p), FAdd("1.382", FAbs(cos)))
    IN FMax(h, "0.1")
Windward(s, sign, wd) == \/ FLe("0.98", FAbs(s.cos))
                         \/ FLt(0, FMul(sign, FAdd(FMul(s.nx, FSin(wd)), FMul(s.ny, FCos(wd)))))
Forced(s, sign, x) == FMul(FMul("2.537", IF Windward(s, sign, x.wd) THEN 1 ELSE "0.5"),
                           FMul("1.67", FSqrt(FDiv(FMul(s.perim, FMul(x.ws, s.wmod)), s.area))))
Face(kind, fixed, s, sign, air, ts, x) ==
    IF fixed # "none" THEN F(fixed)
    ELSE IF kind = "Outdoor" THEN FAdd(Forced(s, sign, x), Natural(air, ts, FMul(sign, s.cos)))
    ELSE Natural(air, ts, FMul(sign, s.cos))
\* an adiabatic back sees what the front sees
TBack(s, x) == IF s.back.kind = "Adiabatic" THEN x.tf ELSE x.tb
Hf(s, T, x) == Face(s.front.kind, s.fh, s, 1, x.tf, T[1], x)
Hb(s, T, x) == IF s.back.kind = "Adiabatic" THEN Hf(s, T, x) ELSE Face(s.back.kind, s.bh, s, -1, x.tb, T[Len(T)], x)
Rad(kind, air, ir) == IF kind = "Outdoor" THEN FSub(FPow(FDiv(ir, Sigma), "0.25"), "273.15") ELSE F(air)
HRad(e, rad, ts) == FMul(FMul(4, FMul(e, Sigma)), Cube(FAdd("273.15", FDiv(FAdd(rad, ts), 2))))
Sun(v) == IF FIsNaN(v) \/ FLt(v, 0) THEN F(0) ELSE F(v)

\* what stays fixed during the sub-step: conditions at both faces, with the temperatures at its start
Conditions(s, T, x) == TLCEval(
    LET N == Len(T)
        rf == Rad(s.front.kind, x.tf, x.irf)
        ad == s.back.kind = "Adiabatic"
        rb == IF ad THEN rf ELSE Rad(s.back.kind, x.tb, x.irb)
        tsb == IF ad THEN T[1] ELSE T[N]
    IN [hf |-> Hf(s, T, x), hb |-> Hb(s, T, x), tf |-> F(x.tf), tb |-> F(TBack(s, x)), rf |-> rf, rb |-> rb,
        gf |-> HRad(s.fe, rf, T[1]), gb |-> HRad(s.be, rb, tsb),
        q |-> TLCEval([n \in 1..N |-> FAdd(FMul(s.fa[n], Sun(x.sf)), FMul(s.ba[n], Sun(x.sb)))])])

Link(s, T, n) == LET g == s.segs[n] IN IF g.kind = "solid" THEN F(g.u) ELSE CV!U(g.cav, T[n], T[n + 1])
Massive(s, n) == FLe("1e-5", s.segs[n].m)
\* conductances left and right of node n, and what drives it from outside a chunk a..b
GL(s, c, T, n) == IF n = 1 THEN c.hf ELSE Link(s, T, n - 1)
GR(s, c, T, n) == IF n = Len(T) THEN c.hb ELSE Link(s, T, n)
Drive(s, c, T, n, a, b, gl, gr) ==
    FAdd(c.q[n],
         FAdd(IF n # a THEN F(0) ELSE IF n = 1 THEN FAdd(FMul(c.tf, c.hf), FMul(c.gf, FSub(c.rf, T[1]))) ELSE FMul(gl, T[n - 1]),
              IF n # b THEN F(0) ELSE IF n = Len(T) THEN FAdd(FMul(c.tb, c.hb), FMul(c.gb, FSub(c.rb, T[n]))) ELSE FMul(gr, T[n + 1])))

\* maximal runs of nodes of the same class, as <<first, last>>
Chunks(s, mass) ==
    LET N == Len(s.segs)
        is(n) == n \in 1..N /\ (Massive(s, n) <=> mass)
        starts == {n \in 1..N : is(n) /\ ~is(n - 1)}
        last(a) == CHOOSE b \in a..N : (\A k \in a..b : is(k)) /\ ~is(b + 1)
    IN {<<a, last(a)>> : a \in starts}

\* --- no-mass nodes: the temperatures that balance the heat flows given T (tri-diagonal system)
RECURSIVE Forward(_, _, _, _, _)
Forward(gl, gr, d, n, acc) ==    \* acc: sequence of <<c', d'>>
    IF n > Len(d) THEN acc
    ELSE LET up == IF n = 1 THEN F(0) ELSE gl[n]
             pc == IF n = 1 THEN F(0) ELSE acc[n - 1][1]
             pd == IF n = 1 THEN F(0) ELSE acc[n - 1][2]
             den == FSub(FAdd(gl[n], gr[n]), FMul(up, pc))
         IN Forward(gl, gr, d, n + 1, Append(acc, <<FDiv(IF n = Len(d) THEN F(0) ELSE gr[n], den), FDiv(FAdd(d[n], FMul(up, pd)), den)>>))
RECURSIVE Backward(_, _, _)
Backward(fw, n, acc) ==
    IF n = 0 THEN acc
    ELSE Backward(fw, n - 1, <<IF acc = <<>> THEN fw[n][2] ELSE FAdd(fw[n][2], FMul(fw[n][1], acc[1]))>> \o acc)
\* (the radiative exchange of a face is part of the balance)
Balance(s, c, T, a, b) ==
    LET I == 1..(b - a + 1)
        first(k) == a + k - 1 = 1
        last(k) == a + k - 1 = Len(T)
        gl == TLCEval([k \in I |-> LET g == GL(s, c, T, a + k - 1) IN IF first(k) THEN FAdd(g, c.gf) ELSE g])
        gr == TLCEval([k \in I |-> LET g == GR(s, c, T, a + k - 1) IN IF last(k) THEN FAdd(g, c.gb) ELSE g])
        d == TLCEval([k \in I |-> FAdd(Drive(s, c, T, a + k - 1, a, b, gl[k], gr[k]),
                                       FAdd(IF first(k) THEN FMul(c.gf, T[1]) ELSE F(0), IF last(k) THEN FMul(c.gb, T[Len(T)]) ELSE F(0)))])
    IN Backward(Forward(gl, gr, d, 1, <<>>), b - a + 1, <<>>)
Error(T, X, a) == FDiv(FSum([k \in 1..Len(X) |-> FAbs(FSub(X[k], T[a + k - 1]))]), Len(X))
Mix(T, X, a) == TLCEval([n \in 1..Len(T) |-> IF n >= a /\ n < a + Len(X) THEN FMul("0.5", FAdd(T[n], X[n - a + 1])) ELSE T[n]])
\* relaxation: half-way steps until the balance is within 0.01 K, or it gets worse
RECURSIVE Relax(_, _, _, _, _, _, _)
Relax(s, c, T, a, b, old, count) ==
    LET X == Balance(s, c, T, a, b)
        err == Error(T, X, a)
    IN IF FLt(old, err) THEN T
       ELSE IF FLt(err, IF count < 100 THEN "0.01" ELSE "0.5") \/ count > 19000 THEN Mix(T, X, a)
       ELSE Relax(s, c, Mix(T, X, a), a, b, err, count + 1)
RECURSIVE RelaxAll(_, _, _, _)
RelaxAll(s, c, T, todo) ==
    IF todo = {} THEN T
    ELSE LET k == CHOOSE k \in todo : \A m \in todo : k[1] <= m[1]
         IN RelaxAll(s, c, Relax(s, c, T, k[1], k[2], "99999", 0), todo \ {k})

\* --- massive nodes: one Runge-Kutta step (the flows are linear in the temperatures: a 4-term Taylor series)
MassStep(s, c, T, k, dt) ==
    LET a == k[1] b == k[2] I == 1..(b - a + 1)
        gl == TLCEval([i \in I |-> GL(s, c, T, a + i - 1)])
        gr == TLCEval([i \in I |-> GR(s, c, T, a + i - 1)])
        r == TLCEval([i \in I |-> FDiv(dt, s.segs[a + i - 1].m)])
        d == TLCEval([i \in I |-> Drive(s, c, T, a + i - 1, a, b, gl[i], gr[i])])
        lin(X, i) == FSub(FAdd(IF i = 1 THEN F(0) ELSE FMul(gl[i], X[i - 1]), IF i = Len(X) THEN F(0) ELSE FMul(gr[i], X[i + 1])),
                          FMul(FAdd(gl[i], gr[i]), X[i]))
        T0 == TLCEval([i \in I |-> T[a + i - 1]])
        der(X) == TLCEval([i \in I |-> FMul(r[i], lin(X, i))])
        d1 == TLCEval([i \in I |-> FMul(r[i], FAdd(lin(T0, i), d[i]))])
        d2 == der(d1) d3 == der(d2) d4 == der(d3)
    IN TLCEval([i \in I |-> FAdd(T0[i], FAdd(d1[i], FAdd(FDiv(d2[i], 2), FAdd(FDiv(d3[i], 6), FDiv(d4[i], 24)))))])
MassAll(s, c, T, dt) ==
    LET ks == Chunks(s, TRUE)
        res == TLCEval([k \in ks |-> MassStep(s, c, T, k, dt)])
        own(n) == {k \in ks : k[1] <= n /\ n <= k[2]}
    IN TLCEval([n \in 1..Len(T) |-> IF own(n) = {} THEN T[n] ELSE LET k == CHOOSE k \in own(n) : TRUE IN res[k][n - k[1] + 1]])

\* --- one sub-step of dt seconds
Step(s, T, x, dt) == LET c == Conditions(s, T, x) IN MassAll(s, c, RelaxAll(s, c, T, Chunks(s, FALSE)), dt)
\* the convective flow from each face at the end
FlowF(s, T, x) == FMul(FSub(T[1], x.tf), Hf(s, T, x))
FlowB(s, T, x) == FMul(FSub(T[Len(T)], TBack(s, x)), Hb(s, T, x))

\* is any cavity, before or during the step, where rounding decides on the correlation?
Edgy(s, T) == \E n \in 1..(Len(T) - 1) : s.segs[n].kind = "cavity" /\ CV!OnEdge(s.segs[n].cav, T[n], T[n + 1])
-----------------------------------------------------------------------------
CONSTANTS Surfaces, Starts, Airs, Suns, Dt
VARIABLES s, T, x
wvars == <<s, T, x>>
Env == [tf : Airs, tb : Airs, irf : {400}, irb : {300}, sf : Suns, sb : {0}, ws : {0, 3}, wd : {0}]
Init == s \in Surfaces /\ T = <<>> /\ x = CHOOSE e \in Env : TRUE
Start == /\ T = <<>> /\ x' \in Env /\ UNCHANGED s
         /\ \E a, b \in Starts : T' = [n \in 1..Len(s.segs) |-> IF n = 1 THEN F(a) ELSE F(b)]
March == T # <<>> /\ T' = Step(s, T, x, Dt) /\ UNCHANGED <<s, x>>
Sunset == T # <<>> /\ x.sf # 0 /\ x' = [x EXCEPT !.sf = 0] /\ UNCHANGED <<s, T>>
Next == Start \/ March \/ Sunset
Spec == Init /\ [][Next]_wvars

Indoor == s.front.kind = "Space" /\ s.back.kind \in {"Space", "Ambient"}
\* everything at one temperature, no sun: nothing happens
Equilibrium == T # <<>> /\ Indoor /\ x.sf = 0 /\ x.tf = x.tb /\ (\A n \in 1..Len(T) : FNear(T[n], x.tf))
    => \A n \in 1..Len(T) : FNear(Step(s, T, x, Dt)[n], T[n])
\* without sun no temperature leaves the range of what there was
Range == [][T # <<>> /\ Indoor /\ x.sf = 0 /\ T' # T => \A n \in 1..Len(T) :
            LET all == {F(x.tf), F(x.tb)} \cup {T[k] : k \in 1..Len(T)}
            IN (\E v \in all : FLe(FSub(v, "0.02"), T'[n])) /\ (\E v \in all : FLe(T'[n], FAdd(v, "0.02")))]_wvars
\* a wall seen from the other side is the same wall
Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]
FlipCav(g) == IF g.kind # "cavity" THEN g ELSE [g EXCEPT !.cav = CV!Flip(g.cav)]
FlipS(w) == [w EXCEPT !.segs = [n \in 1..Len(w.segs) |->
                IF n = Len(w.segs) THEN [w.segs[n] EXCEPT !.m = w.segs[1].m]
                ELSE LET g == FlipCav(w.segs[Len(w.segs) - n]) IN [g EXCEPT !.m = w.segs[Len(w.segs) + 1 - n].m]],
             !.fa = Rev(w.ba), !.ba = Rev(w.fa), !.front = w.back, !.back = w.front, !.fe = w.be, !.be = w.fe,
             !.fh = w.bh, !.bh = w.fh, !.cos = FNeg(w.cos), !.nx = FNeg(w.nx), !.ny = FNeg(w.ny)]
FlipX(e) == [e EXCEPT !.tf = e.tb, !.tb = e.tf, !.irf = e.irb, !.irb = e.irf, !.sf = e.sb, !.sb = e.sf]
Mirror == T # <<>> /\ s.back.kind # "Adiabatic" =>
    LET A == Step(s, T, x, Dt) B == Step(FlipS(s), Rev(T), FlipX(x), Dt)
    IN \A n \in 1..Len(T) : FClose(A[n], B[Len(T) + 1 - n], "1e-9", "1e-7")
\* more sun never cools any node
SunWarms == T # <<>> /\ x.sf # 0 =>
    LET A == Step(s, T, x, Dt) B == Step(s, T, [x EXCEPT !.sf = 0], Dt)
    IN \A n \in 1..Len(T) : FLe(FSub(B[n], "0.1"), A[n])
\* after the relaxation the no-mass nodes balance
Balanced == T # <<>> => LET c == Conditions(s, T, x) R == RelaxAll(s, c, T, Chunks(s, FALSE))
            IN \A k \in Chunks(s, FALSE) : FLt(Error(R, Balance(s, c, R, k[1], k[2]), k[1]), "0.05")
==============================================================================
