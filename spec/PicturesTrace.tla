---------------------------- MODULE PicturesTrace ----------------------------
(* Images the code saves, reads, compares and draws, against Pictures *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, imgs, files, table
vars == <<i, imgs, files, table>>
P == INSTANCE Pictures WITH Images <- {}, mem <- [w |-> 0, h |-> 0, px |-> <<>>], disk <- [w |-> 0, h |-> 0, bytes |-> <<>>], said <- ""
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
No == [w |-> -1, h |-> -1, px |-> <<>>]
NoFile == [ok |-> FALSE, w |-> -1, h |-> -1, bytes |-> <<>>]
Init == i = 0 /\ imgs = [k \in 0..2 |-> No] /\ files = [k \in 0..1 |-> NoFile] /\ table = <<>>
Im == IF E.new THEN [k \in 0..2 |-> No] ELSE imgs
Fi == IF E.new THEN [k \in 0..1 |-> NoFile] ELSE files
SameC(a, b) == \A k \in 1..3 : FEq(a[k], b[k])
SamePx(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : SameC(p[k], q[k])
ClosePx(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : \A j \in 1..3 : FClose(p[k][j], q[k][j], "1e-12", "1e-60")
New == /\ Event("new") /\ E.res = "ok" /\ E.ow = E.w /\ E.oh = E.h /\ SamePx(E.px, E.out) /\ SamePx(E.px, E.seen)
       /\ imgs' = [Im EXCEPT ![E.a] = [w |-> E.w, h |-> E.h, px |-> E.px]] /\ files' = Fi /\ UNCHANGED table
Paint == /\ Event("paint")
         /\ LET p == [imgs[E.a].px EXCEPT ![E.y * imgs[E.a].w + E.x + 1] = E.c] IN
              SamePx(p, E.out) /\ SamePx(p, E.seen) /\ imgs' = [imgs EXCEPT ![E.a].px = p]
         /\ UNCHANGED <<files, table>>
Bright(c) == FMax(c[1], FMax(c[2], c[3]))
\* a pixel on file is the one of the image to a 128th of its brightest part
Holds(q, c) == LET v == P!Value(q) IN \A k \in 1..3 : FLe(FAbs(FSub(v[k], c[k])), FAdd(FDiv(Bright(c), 128), "2e-19"))
Save == /\ Event("save") /\ E.res = "ok" /\ E.magic /\ E.format /\ E.blank /\ E.left = 0
        /\ E.fw = imgs[E.a].w /\ E.fh = imgs[E.a].h
        /\ Len(E.bytes) = Len(imgs[E.a].px) /\ \A k \in 1..Len(E.bytes) : Holds(E.bytes[k], imgs[E.a].px[k])
        /\ files' = [files EXCEPT ![E.f] = [ok |-> TRUE, w |-> E.fw, h |-> E.fh, bytes |-> E.bytes]] /\ UNCHANGED <<imgs, table>>
Cut == Event("cut") /\ files' = [files EXCEPT ![E.f].ok = IF E.k = 0 THEN @ ELSE FALSE] /\ UNCHANGED <<imgs, table>>
Raw == /\ Event("raw") /\ imgs' = Im /\ UNCHANGED table
       /\ files' = [Fi EXCEPT ![E.f] = [ok |-> E.head \in {"plain", "extra", "nofmt"} /\ E.left = 0 /\ Len(E.bytes) = E.w * E.h, w |-> E.w, h |-> E.h, bytes |-> E.bytes]]
Load == /\ Event("load") /\ UNCHANGED <<files, table>>
        /\ IF files[E.f].ok
           THEN /\ E.res = "ok" /\ E.w = files[E.f].w /\ E.h = files[E.f].h /\ SamePx(E.px, E.seen)
                /\ ClosePx(E.px, [k \in 1..Len(files[E.f].bytes) |-> P!Value(files[E.f].bytes[k])])
                /\ imgs' = [imgs EXCEPT ![E.a] = [w |-> E.w, h |-> E.h, px |-> E.px]]
           ELSE E.res = "err" /\ UNCHANGED imgs
Diff == /\ Event("diff") /\ UNCHANGED <<imgs, files, table>>
        /\ LET p == imgs[E.a]  q == imgs[E.b] IN
           IF p.w = q.w /\ p.h = q.h
           THEN /\ E.res = "ok" /\ E.w = p.w /\ E.h = p.h /\ Len(E.px) = Len(p.px)
                /\ \A k \in 1..Len(p.px) : \A j \in 1..3 : FLe(FAbs(FSub(E.px[k][j], P!Differ(p.px[k], q.px[k]))), FAdd("1e-60", FMul("1e-9", FMax(P!Radiance(p.px[k]), P!Radiance(q.px[k])))))
           ELSE E.res = "err"
Table == Event("table") /\ E.res = "ok" /\ P!ScaleOk(E.name, E.t) /\ table' = E.t /\ imgs' = Im /\ files' = Fi
Map == /\ Event("map") /\ E.res = "ok" /\ UNCHANGED <<imgs, files, table>>
       /\ LET t == P!Tint(table, P!Place(E.x, E.lo, E.hi)) IN \A j \in 1..3 : FClose(E.c[j], t[j], 0, "1e-6")
Top(px) == LET RECURSIVE T(_, _)
               T(k, m) == IF k > Len(px) THEN m ELSE T(k + 1, FMax(m, P!Luminance(px[k])))
           IN T(1, F(0))
False ==
  /\ Event("false") /\ E.res = "ok" /\ E.jw = E.w /\ E.jh = E.h /\ Len(E.rgb) = E.w * E.h
  /\ UNCHANGED <<imgs, files, table>>
  /\ LET lo == TLCEval(LET least == IF E.log THEN F("0.001") ELSE F(0) IN IF E.min = "none" THEN least ELSE FMax(E.min, least))
         hi == TLCEval(IF E.max = "none" THEN Top(E.px) ELSE F(E.max))
     IN \A k \in 1..Len(E.px) : LET l == TLCEval(P!Luminance(E.px[k]))  t == TLCEval(P!Tint(table, IF E.log THEN P!LogPlace(l, lo, hi) ELSE P!Place(l, lo, hi))) IN
          \A j \in 1..3 : FLe(FAbs(FSub(E.rgb[k][j], FMin(255, FMul(t[j], 256)))), 10)
Done == i = Len(Trace) /\ UNCHANGED vars
Next == New \/ Paint \/ Save \/ Cut \/ Raw \/ Load \/ Diff \/ Table \/ Map \/ False \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
