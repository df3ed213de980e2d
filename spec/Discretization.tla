--------------------------- MODULE Discretization ---------------------------
(* How a construction becomes a thermal network (crate heat).  A layer:     *)
(* [g ("" or the name of a gas), k, rho, cp, th (thickness), fe, be         *)
(* (emissivities of its faces, or "none")].                                 *)
EXTENDS Integers, Sequences, FiniteSets, Flt, TLC
Film == "0.05"          \* the smallest resistance of a surface film, m2K/W
Safety == 2
Last == 13              \* subdivisions of the time step that are tried
\* the thinnest element that a step of dt cannot make oscillate: x^2 - dt x/(rho cp Film) - 2 dt k/(rho cp) = 0
MinDx(dt, l) == LET b == FDiv(dt, FMul(FMul(l.rho, l.cp), Film))
                    c == FDiv(FMul(FMul(2, dt), l.k), FMul(l.rho, l.cp))
                IN FDiv(FAdd(b, FSqrt(FAdd(FMul(b, b), FMul(4, c)))), 2)
\* (a thickness within rounding of a whole number of elements may go either way)
Counts(l, maxdx) == LET q == FDiv(l.th, maxdx) IN {FCeil(FMul(q, "0.999999999")), FCeil(FMul(q, "1.000000001"))}
LongEnough(dt, n, mindt) == FLe(mindt, FDiv(dt, n))
Fits(l, cnt, dt, n) == FLe(FMul(Safety, MinDx(FDiv(dt, n), l)), FDiv(l.th, cnt))
\* a layer has mass if some subdivision that is not too short suits it: the smallest is the one
Suits(l, cnt, dt, mindt, n) == LongEnough(dt, n, mindt) /\ Fits(l, cnt, dt, n)
Layer(l, cnt, dt, mindt) ==
    IF l.g # "" THEN [el |-> 0, n |-> 0]
    ELSE LET ok == {n \in 1..Last : Suits(l, cnt, dt, mindt, n)}
         IN IF ok = {} THEN [el |-> 0, n |-> 0] ELSE [el |-> cnt, n |-> CHOOSE n \in ok : \A m \in ok : n <= m]
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
\* el: elements of every layer (0: no mass)
Choices(ls, dt, maxdx, mindt) ==
    LET per == TLCEval([i \in 1..Len(ls) |-> {Layer(ls[i], cnt, dt, mindt) : cnt \in Counts(ls[i], maxdx)}])
        RECURSIVE All(_)
        All(i) == IF i > Len(ls) THEN {<<>>} ELSE {<<a>> \o b : a \in per[i], b \in All(i + 1)}
    IN {[el |-> [i \in 1..Len(ls) |-> p[i].el], sub |-> SetMax({0} \cup {p[i].n : i \in 1..Len(ls)})] : p \in All(1)}

Bad(ls) == \/ ls[1].g # "" \/ ls[Len(ls)].g # ""
           \/ \E i \in 1..(Len(ls) - 1) : ls[i].g # "" /\ ls[i + 1].g # ""
Parts(el, i) == IF el[i] = 0 THEN 1 ELSE el[i]
RECURSIVE Offset(_, _)
Offset(el, i) == IF i = 1 THEN 0 ELSE Offset(el, i - 1) + Parts(el, i - 1)   \* nodes before layer i
Nodes(el) == Offset(el, Len(el)) + Parts(el, Len(el)) + 1
LayerOf(el, s) == CHOOSE i \in 1..Len(el) : Offset(el, i) < s /\ s <= Offset(el, i) + Parts(el, i)
Half(ls, el, i) == IF el[i] = 0 \/ ls[i].g # "" THEN F(0)
                   ELSE FDiv(FMul(FMul(ls[i].rho, ls[i].cp), FDiv(ls[i].th, el[i])), 2)
Em(x) == IF x = "none" THEN F("0.84") ELSE F(x)
Network(ls, el, h, angle) ==
    LET N == Nodes(el)
        half == TLCEval([i \in 1..Len(ls) |-> Half(ls, el, i)])
    IN TLCEval([s \in 1..N |->
        LET m == FAdd(IF s = 1 THEN F(0) ELSE half[LayerOf(el, s - 1)], IF s = N THEN F(0) ELSE half[LayerOf(el, s)])
        IN IF s = N THEN [m |-> m, kind |-> "back"]
           ELSE LET i == LayerOf(el, s) l == ls[i]
                IN IF l.g = "" THEN [m |-> m, kind |-> "solid", u |-> FDiv(l.k, FDiv(l.th, Parts(el, i)))]
                   ELSE [m |-> m, kind |-> "cavity",
                         cav |-> [gas |-> l.g, th |-> l.th, h |-> h, angle |-> angle, eout |-> Em(ls[i - 1].be), ein |-> Em(ls[i + 1].fe)]]])
Massive(g) == FLe("1e-5", g.m)
\* maximal runs of nodes of one class, as <<first, one past the last>>, from 0
RECURSIVE Runs(_, _, _)
Runs(segs, mass, s) ==
    IF s > Len(segs) THEN <<>>
    ELSE IF Massive(segs[s]) # mass THEN Runs(segs, mass, s + 1)
    ELSE LET e == CHOOSE e \in s..Len(segs) : (\A k \in s..e : Massive(segs[k]) = mass)
                                              /\ (e = Len(segs) \/ Massive(segs[e + 1]) # mass)
         IN <<<<s - 1, e>>>> \o Runs(segs, mass, e + 1)
Resistance(segs) == FSum([s \in 1..(Len(segs) - 1) |-> FDiv(1, segs[s].u)])

-----------------------------------------------------------------------------
(* The search, one candidate subdivision at a time.                         *)
CONSTANTS Catalogue, Steps, MaxLayers, MaxDx, MinDt
VARIABLES ls, dt, i, n, el, sub, done
dvars == <<ls, dt, i, n, el, sub, done>>
Init == ls = <<>> /\ dt \in Steps /\ i = 0 /\ n = 1 /\ el = <<>> /\ sub = 0 /\ done = FALSE
AddLayer == i = 0 /\ Len(ls) < MaxLayers /\ \E l \in Catalogue : ls' = Append(ls, l) /\ UNCHANGED <<dt, i, n, el, sub, done>>
Begin == i = 0 /\ ls # <<>> /\ i' = 1 /\ UNCHANGED <<ls, dt, n, el, sub, done>>
Cnt(k) == FCeil(FDiv(ls[k].th, MaxDx))
Settle(e, m) == el' = Append(el, e) /\ sub' = (IF m > sub THEN m ELSE sub) /\ i' = i + 1 /\ n' = 1
Try == /\ i \in 1..Len(ls)
       /\ IF ls[i].g # "" \/ ~LongEnough(dt, n, MinDt) THEN Settle(0, 0)
          ELSE IF Fits(ls[i], Cnt(i), dt, n) THEN Settle(Cnt(i), n)
          ELSE IF n >= Last THEN Settle(0, 0)
          ELSE n' = n + 1 /\ UNCHANGED <<i, el, sub>>
       /\ UNCHANGED <<ls, dt, done>>
Finish == i > 0 /\ i = Len(ls) + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<ls, dt, i, n, el, sub>>
Next == AddLayer \/ Begin \/ Try \/ Finish
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Begin \/ Try \/ Finish)

Net == Network(ls, el, 1, 0)
\* the search finds the smallest subdivision that suits each layer
Minimal == done => [el |-> el, sub |-> sub] \in Choices(ls, dt, MaxDx, MinDt)
\* nothing is lost: all the mass of the layers that keep it, all the resistance of the solid ones
MassKept == done /\ ~Bad(ls) => FNear(FSum([s \in 1..Len(Net) |-> Net[s].m]),
                          FSum([k \in 1..Len(ls) |-> IF el[k] = 0 THEN F(0) ELSE FMul(FMul(ls[k].rho, ls[k].cp), ls[k].th)]))
ResistanceKept == done /\ ~Bad(ls) /\ (\A k \in 1..Len(ls) : ls[k].g = "")
    => FNear(Resistance(Net), FSum([k \in 1..Len(ls) |-> FDiv(ls[k].th, ls[k].k)]))
Fine == done => \A k \in 1..Len(ls) : el[k] # 0 => FLe(FDiv(ls[k].th, el[k]), FMul(MaxDx, "1.000000001"))
Shape == done /\ ~Bad(ls) => /\ Net[Len(Net)].kind = "back" /\ (\A s \in 1..(Len(Net) - 1) : Net[s].kind # "back")
                 /\ LET all == Runs(Net, TRUE, 1) \o Runs(Net, FALSE, 1)
                    IN \A s \in 1..Len(Net) : Cardinality({k \in 1..Len(all) : all[k][1] < s /\ s <= all[k][2]}) = 1
\* a massive node between massive layers (or films, or anything that resists at least as much as a film) does not oscillate
Link(s) == IF s = 0 \/ s = Len(Net) THEN FDiv(1, Film) ELSE IF Net[s].kind = "solid" THEN Net[s].u ELSE FDiv(1, Film)
Tame(s) == s = 0 \/ s = Len(Net) \/ el[LayerOf(el, s)] # 0 \/ ls[LayerOf(el, s)].g # "" \/ FLe(Net[s].u, FDiv(1, Film))
Stable == done /\ ~Bad(ls) => \A s \in 1..Len(Net) : Massive(Net[s]) /\ Tame(s - 1) /\ Tame(s)
            => FLe(FMul(FDiv(FDiv(dt, sub), Net[s].m), FAdd(Link(s - 1), Link(s))), "1.000001")
Ends == <>(i > 0) => <>done
==============================================================================
