------------------------------ MODULE Glazing ------------------------------
(* Sun on a stack of panes (crate heat).  A pane: [tau, rf, rb] (solar      *)
(* transmittance, front and back reflectance).                              *)
EXTENDS Integers, Sequences, Flt, TLC
Af(p) == FSub(1, FAdd(p.tau, p.rf))
Ab(p) == FSub(1, FAdd(p.tau, p.rb))
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Turn(p) == [p EXCEPT !.rf = p.rb, !.rb = p.rf]
Back(q) == LET r == Rev(q) IN [k \in 1..Len(q) |-> Turn(r[k])]     \* the stack seen from behind

\* R[k]: what the panes k..N reflect of light that comes from the front
RECURSIVE Reflect(_, _)
Reflect(q, k) == IF k > Len(q) THEN F(0)
                 ELSE LET r == Reflect(q, k + 1)
                      IN FAdd(q[k].rf, FDiv(FMul(FMul(q[k].tau, q[k].tau), r), FSub(1, FMul(q[k].rb, r))))
\* I[k]: the light that reaches the front of pane k (k = N + 1: what gets through)
RECURSIVE Reach(_, _)
Reach(q, k) == IF k = 1 THEN F(1)
               ELSE FDiv(FMul(Reach(q, k - 1), q[k - 1].tau), FSub(1, FMul(q[k - 1].rb, Reflect(q, k))))
Absorb(q, k) == FAdd(FMul(Reach(q, k), Af(q[k])), FMul(FMul(Reach(q, k + 1), Reflect(q, k + 1)), Ab(q[k])))
Alphas(q) == TLCEval([k \in 1..Len(q) |-> Absorb(q, k)])
Tau(q) == Reach(q, Len(q) + 1)
Rho(q) == Reflect(q, 1)
Combined(q) == [tau |-> Tau(q), rf |-> Rho(q), rb |-> Rho(Back(q))]

\* --- how a construction sees the sun.  A layer: [g ("" or gas), tau, af, ab ("none": 0 / 0.84)]
Or(x, d) == IF x = "none" THEN F(d) ELSE F(x)
LTau(l) == Or(l.tau, 0)
Pane(l) == [tau |-> LTau(l), rf |-> FSub(1, FAdd(LTau(l), Or(l.af, "0.84"))), rb |-> FSub(1, FAdd(LTau(l), Or(l.ab, "0.84")))]
Opaque(l) == FLt(LTau(l), "1e-9")
\* indices of the layers the sun meets: panes between gases, up to the first opaque one
RECURSIVE Met(_, _)
Met(ls, k) == IF Opaque(ls[k]) \/ k + 2 > Len(ls) THEN <<k>> ELSE <<k>> \o Met(ls, k + 2)
Seen(ls) == LET m == Met(ls, 1) IN [j \in 1..Len(m) |-> Pane(ls[m[j]])]
\* absorbed fraction per node of the network: all along a translucent layer, at the face of an opaque one
Parts(el, i) == IF el[i] = 0 THEN 1 ELSE el[i]
RECURSIVE Offset(_, _)
Offset(el, i) == IF i = 1 THEN 0 ELSE Offset(el, i - 1) + Parts(el, i - 1)
NodeShare(ls, el, N) ==
    LET m == Met(ls, 1)
        al == Alphas(Seen(ls))
        share(s) == LET on == {j \in 1..Len(m) : LET a == Offset(el, m[j]) + 1
                                                 IN IF FLt(0, LTau(ls[m[j]])) THEN s >= a /\ s <= a + Parts(el, m[j]) ELSE s = a}
                    IN IF on = {} THEN F(0)
                       ELSE LET j == CHOOSE j \in on : TRUE
                            IN IF FLt(0, LTau(ls[m[j]])) THEN FDiv(al[j], Parts(el, m[j]) + 1) ELSE al[j]
    IN TLCEval([s \in 1..N |-> share(s)])
TurnL(l) == [l EXCEPT !.af = l.ab, !.ab = l.af]
FrontNodes(ls, el, N) == NodeShare(ls, el, N)
BackNodes(ls, el, N) == LET r == Rev(ls) IN Rev(NodeShare([k \in 1..Len(r) |-> TurnL(r[k])], Rev(el), N))
-----------------------------------------------------------------------------
(* Light bouncing between the panes.  f[k]: light in gap k (before pane k)  *)
(* that moves towards the back, b[k]: towards the front; gap 1 is outside   *)
(* in front, gap N + 1 behind.                                              *)
CONSTANTS Panes, MaxPanes
VARIABLES q, f, b, abs, out, thru, n
gvars == <<q, f, b, abs, out, thru, n>>
Zero(k) == [j \in 1..k |-> F(0)]
Init == q = <<>> /\ f = <<>> /\ b = <<>> /\ abs = <<>> /\ out = F(0) /\ thru = F(0) /\ n = 0
Shine == /\ q = <<>>
         /\ \E k \in 1..MaxPanes : \E p \in [1..k -> Panes] :
               q' = p /\ f' = [Zero(k) EXCEPT ![1] = F(1)] /\ b' = Zero(k) /\ abs' = Zero(k)
         /\ UNCHANGED <<out, thru, n>>
\* every ray meets the pane in front of it: f[k] meets pane k, b[k] (in gap k + 1) meets pane k from behind
Left == FAdd(FSum(f), FSum(b))
Bounce == /\ q # <<>> /\ FLt("1e-13", Left) /\ n' = n + 1
          /\ LET N == Len(q)
                 fwd(k) == IF k = 1 THEN F(0) ELSE FAdd(FMul(f[k - 1], q[k - 1].tau), FMul(b[k - 1], q[k - 1].rb))
                 bwd(k) == IF k = N THEN F(0) ELSE FAdd(FMul(b[k + 1], q[k + 1].tau), FMul(f[k + 1], q[k + 1].rf))
             IN /\ f' = TLCEval([k \in 1..N |-> fwd(k)])
                /\ b' = TLCEval([k \in 1..N |-> bwd(k)])
                /\ abs' = TLCEval([k \in 1..N |-> FAdd(abs[k], FAdd(FMul(f[k], Af(q[k])), FMul(b[k], Ab(q[k]))))])
                /\ out' = FAdd(out, FAdd(FMul(b[1], q[1].tau), FMul(f[1], q[1].rf)))
                /\ thru' = FAdd(thru, FAdd(FMul(f[N], q[N].tau), FMul(b[N], q[N].rb)))
          /\ UNCHANGED q
Next == Shine \/ Bounce
Spec == Init /\ [][Next]_gvars
Near(x, y) == FClose(x, y, "1e-10", "1e-10")
\* no light is lost or made
Energy == q # <<>> => Near(FAdd(FAdd(FSum(abs), FAdd(out, thru)), Left), 1)
\* where the bouncing leads to
Settled == q # <<>> /\ ~FLt("1e-13", Left)
    => Near(out, Rho(q)) /\ Near(thru, Tau(q)) /\ \A k \in 1..Len(q) : Near(abs[k], Alphas(q)[k])
Balance == q # <<>> /\ n = 0 => Near(FAdd(FSum(Alphas(q)), FAdd(Rho(q), Tau(q))), 1)
\* a stack transmits the same from both sides; joining two stacks is joining their sums
Reciprocal == q # <<>> /\ n = 0 => Near(Tau(q), Tau(Back(q)))
Associative == q # <<>> /\ n = 0 => \A k \in 1..(Len(q) - 1) :
    LET c == Combined(q) d == Combined(<<Combined(SubSeq(q, 1, k)), Combined(SubSeq(q, k + 1, Len(q)))>>)
    IN Near(c.tau, d.tau) /\ Near(c.rf, d.rf) /\ Near(c.rb, d.rb)
==============================================================================
