------------------------------ MODULE Pictures ------------------------------
(* Images on file (rendering/src/image.rs): four bytes a pixel, three mantissas which share an exponent, rows from the top, under a header with the size.
   Differences of images, and images in false colours.  Colours here are integers; Value256 is 256 times what four bytes stand for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt
CONSTANTS Images        \* images: [w, h, px], px by rows from the top
VARIABLES mem, disk, said
vars == <<mem, disk, said>>
Big(S) == CHOOSE x \in S : \A y \in S : y <= x
Bright(c) == Big({c[k] : k \in 1..3})
Bits(n) == CHOOSE e \in 0..40 : n < 2^e /\ (e = 0 \/ n >= 2^(e - 1))
Part(c, e) == IF e > 8 THEN c \div 2^(e - 8) ELSE c * 2^(8 - e)
Rgbe(c) == IF Bright(c) = 0 THEN <<0, 0, 0, 0>> ELSE LET e == Bits(Bright(c)) IN <<Part(c[1], e), Part(c[2], e), Part(c[3], e), e + 128>>
Value256(q) == IF q[4] = 0 THEN <<0, 0, 0>> ELSE [k \in 1..3 |-> q[k] * 2^(q[4] - 128)]
\* what four bytes stand for
Value(q) == IF q[4] = 0 THEN <<F(0), F(0), F(0)>> ELSE [k \in 1..3 |-> FMul(q[k], FPow(2, q[4] - 136))]
At(im, x, y) == im.px[y * im.w + x + 1]
Nothing == [w |-> 0, h |-> 0, px |-> <<>>]
Stored(im) == [w |-> im.w, h |-> im.h, bytes |-> [k \in 1..Len(im.px) |-> Rgbe(im.px[k])]]
Whole(f) == Len(f.bytes) = f.w * f.h
\* images as they are read: in 256ths
Read(f) == [w |-> f.w, h |-> f.h, px |-> [k \in 1..Len(f.bytes) |-> Value256(f.bytes[k])]]
Scaled(im) == [im EXCEPT !.px = [k \in 1..Len(im.px) |-> <<256 * im.px[k][1], 256 * im.px[k][2], 256 * im.px[k][3]>>]]
Init == mem \in {Scaled(im) : im \in Images} /\ disk = Stored(Nothing) /\ said = "start"
\* mem is in 256ths
Save == said # "saved" /\ disk' = [w |-> mem.w, h |-> mem.h, bytes |-> [k \in 1..Len(mem.px) |-> LET q == Rgbe(mem.px[k]) IN IF q[4] = 0 THEN q ELSE [q EXCEPT ![4] = @ - 8]]] /\ said' = "saved" /\ UNCHANGED mem
Cut == /\ Len(disk.bytes) > 0 /\ said # "start" /\ disk' = [disk EXCEPT !.bytes = SubSeq(@, 1, Len(@) - 1)] /\ said' = "cut" /\ UNCHANGED mem
Load == /\ said \in {"saved", "cut"}
        /\ IF Whole(disk) THEN mem' = Read(disk) /\ said' = "loaded" ELSE said' = "refused" /\ UNCHANGED mem
        /\ UNCHANGED disk
Next == Save \/ Cut \/ Load
Spec == Init /\ [][Next]_vars
(* ---- what holds ---- *)
Near(a, b) == \A k \in 1..3 : a[k] >= b[k] /\ 128 * (a[k] - b[k]) <= Bright(a)
\* a file holds the image it was made of: size, order and colours
Kept == [][said' = "saved" => disk'.w = mem.w /\ disk'.h = mem.h /\ \A k \in 1..Len(mem.px) : Near(mem.px[k], Value256(disk'.bytes[k]))]_vars
\* and reading it gives what it holds, which saves as it was
Again == [][said' = "loaded" => \A k \in 1..Len(disk.bytes) : LET q == Rgbe(mem'.px[k]) IN q[4] = 0 \/ [q EXCEPT ![4] = @ - 8] = disk.bytes[k]]_vars
\* a file with less than it says is refused, and nothing comes of it
Refused == [][said' = "loaded" => Whole(disk)]_vars
Size == Len(mem.px) = mem.w * mem.h
Bytes == \A k \in 1..Len(disk.bytes) : \A j \in 1..4 : disk.bytes[k][j] \in 0..255
Leading == \A k \in 1..Len(disk.bytes) : disk.bytes[k][4] = 0 \/ Big({disk.bytes[k][j] : j \in 1..3}) >= 128
(* ---- differences and false colours ---- *)
Radiance(c) == FSum(<<FMul("0.265", c[1]), FMul("0.67", c[2]), FMul("0.065", c[3])>>)
Luminance(c) == FMul(179, Radiance(c))
Differ(a, b) == FAbs(FSub(Radiance(a), Radiance(b)))
Log10(x) == FDiv(FLn(x), FLn(10))
\* where on the scale something is, from 0 to 1
Place(x, lo, hi) == IF FLe(x, lo) THEN F(0) ELSE IF FLe(hi, x) THEN F(1) ELSE FDiv(FSub(x, lo), FSub(hi, lo))
LogPlace(x, lo, hi) == IF FLe(x, lo) THEN F(0) ELSE IF FLe(hi, x) THEN F(1) ELSE FDiv(FLn(FDiv(x, lo)), FLn(FDiv(hi, lo)))
Steps == 255
Tint(table, p) == LET s == FMul(p, Steps)  k == TLCEval(LET n == FFloor(s) IN IF n >= Steps THEN Steps - 1 ELSE IF n < 0 THEN 0 ELSE n) IN
                  [j \in 1..3 |-> FAdd(table[k + 1][j], FMul(FSub(table[k + 2][j], table[k + 1][j]), FSub(s, k)))]
Ends == [Inferno |-> <<<<"0.0015", "0.0005", "0.0139">>, <<"0.9884", "0.9984", "0.6449">>>>,
         Magma |-> <<<<"0.0015", "0.0005", "0.0139">>, <<"0.9871", "0.9914", "0.7495">>>>,
         Plasma |-> <<<<"0.0504", "0.0298", "0.5280">>, <<"0.9400", "0.9752", "0.1313">>>>,
         Viridis |-> <<<<"0.2670", "0.0049", "0.3294">>, <<"0.9932", "0.9062", "0.1439">>>>]
Grey(c) == FSum(<<FMul("0.2126", c[1]), FMul("0.7152", c[2]), FMul("0.0722", c[3])>>)
ScaleOk(name, t) ==
  /\ Len(t) = Steps + 1
  /\ \A k \in 1..Len(t) : \A j \in 1..3 : FLe(0, t[k][j]) /\ FLe(t[k][j], 1)
  /\ \A k \in 1..Steps : \A j \in 1..3 : FClose(t[k][j], t[k + 1][j], 0, "0.05")
  /\ IF name = "Radiance" THEN TRUE
     ELSE /\ \A k \in 1..Steps : FLt(Grey(t[k]), Grey(t[k + 1]))
          /\ \A j \in 1..3 : FClose(t[1][j], Ends[name][1][j], 0, "0.01") /\ FClose(t[Steps + 1][j], Ends[name][2][j], 0, "0.01")
=============================================================================
