------------------------------- MODULE Camera -------------------------------
(* A pinhole camera and the image seen through it (rendering/src/camera, ray_tracer.rs).  The film is as wide as the field of view tells, its pixels are
   square, the first of them is at the top left, and rows follow each other. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt
CONSTANTS Views        \* [dir, up, fov, w, h]
VARIABLES view, seen   \* seen: rays of the pixels so far, by rows from the top
vars == <<view, seen>>
V(x, y, z) == <<F(x), F(y), F(z)>>
Dot(a, b) == FDot(a, b)
Times(a, k) == [j \in 1..3 |-> FMul(a[j], k)]
Plus(a, b) == [j \in 1..3 |-> FAdd(a[j], b[j])]
Cross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Unit(a) == LET n == TLCEval(FSqrt(FDot(a, a))) IN [j \in 1..3 |-> FDiv(a[j], n)]
Rad(d) == FDiv(FMul(d, FPi), 180)
\* ahead, to the right and upwards; the given up is any vector on that side
Basis(v) == LET a == TLCEval(Unit(v.dir))  r == TLCEval(Unit(Cross(a, v.up))) IN <<a, r, TLCEval(Cross(r, a))>>
Far(v) == FDiv(1, FTan(FDiv(Rad(v.fov), 2)))
\* centre of a pixel on the film, the half of its width being one
Across(v, x) == FSub(FDiv(2 * x + 1, v.w), 1)
Down(v, y) == FDiv(2 * y + 1 - v.h, v.w)
RayOf(v, b, x, y) == Unit(Plus(Times(b[1], Far(v)), Plus(Times(b[2], Across(v, x)), Times(b[3], FNeg(Down(v, y))))))
\* where on the film a direction goes through: columns from the left and rows from the top, with fractions
InFront(b, d) == FLt("1e-9", Dot(b[1], d))
Column(v, b, d) == FMul(FAdd(FMul(FDiv(Dot(b[2], d), Dot(b[1], d)), Far(v)), 1), FDiv(v.w, 2))
Line(v, b, d) == FSub(FDiv(v.h, 2), FMul(FMul(FDiv(Dot(b[3], d), Dot(b[1], d)), Far(v)), FDiv(v.w, 2)))
Inside(v, c, l) == FLe(0, c) /\ FLt(c, v.w) /\ FLe(0, l) /\ FLt(l, v.h)
Init == view \in Views /\ seen = <<>>
Look == Len(seen) < view.w * view.h /\ seen' = Append(seen, RayOf(view, Basis(view), Len(seen) % view.w, Len(seen) \div view.w)) /\ UNCHANGED view
Next == Look
Spec == Init /\ [][Next]_vars
(* ---- what holds ---- *)
Pixel(k) == <<(k - 1) % view.w, (k - 1) \div view.w>>
\* the ray of a pixel goes back through it
Back == LET b == Basis(view) IN \A k \in 1..Len(seen) : InFront(b, seen[k]) /\ FClose(Column(view, b, seen[k]), FAdd(Pixel(k)[1], "0.5"), 0, "1e-6") /\ FClose(Line(view, b, seen[k]), FAdd(Pixel(k)[2], "0.5"), 0, "1e-6")
                                          /\ Inside(view, Column(view, b, seen[k]), Line(view, b, seen[k]))
Units == \A k \in 1..Len(seen) : FNear(Dot(seen[k], seen[k]), 1)
\* rows go down and columns to the right
Order == LET b == Basis(view) IN \A j, k \in 1..Len(seen) :
           /\ Pixel(j)[1] < Pixel(k)[1] => FLt(FDiv(Dot(b[2], seen[j]), Dot(b[1], seen[j])), FDiv(Dot(b[2], seen[k]), Dot(b[1], seen[k])))
           /\ Pixel(j)[2] < Pixel(k)[2] => FLt(FDiv(Dot(b[3], seen[k]), Dot(b[1], seen[k])), FDiv(Dot(b[3], seen[j]), Dot(b[1], seen[j])))
\* left and right edges are half of the field of view away from the middle
Wide == LET b == Basis(view) IN FNear(Column(view, b, Plus(Times(b[1], FCos(FDiv(Rad(view.fov), 2))), Times(b[2], FSin(FDiv(Rad(view.fov), 2))))), view.w)
\* the whole image turns about its centre
Whole == Len(seen) = view.w * view.h => LET b == Basis(view)  n == Len(seen) IN \A k \in 1..n : FNear(Dot(b[2], seen[k]), FNeg(Dot(b[2], seen[n + 1 - k]))) /\ FNear(Dot(b[3], seen[k]), FNeg(Dot(b[3], seen[n + 1 - k])))
=============================================================================
