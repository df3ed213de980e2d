--------------------------- MODULE MatrixFilesTrace ---------------------------
(* Matrices the code writes and reads, against MatrixFiles *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, file
vars == <<i, file>>
M == INSTANCE MatrixFiles WITH Matrices <- {}, mem <- 0, file <- 0, said <- ""
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0 /\ file = M!NoFile
\* colours are written with five decimals, other numbers as they are
Same(comp, a, b) == IF comp = 3 THEN FClose(a, b, "1e-7", "1.1e-5") ELSE FClose(a, b, "1e-12", "1e-300")
SameAll(comp, s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Same(comp, s[k], t[k])
Save == /\ Event("save") /\ E.res = "ok" /\ E.magic
        /\ LET f == M!Written([rows |-> E.rows, cols |-> E.cols, comp |-> E.comp, vals |-> E.vals]) IN
             /\ E.file.rows = f.rows /\ E.file.cols = f.cols /\ E.file.comp = f.comp
             /\ Len(E.file.body) = E.rows /\ \A r \in 1..E.rows : SameAll(E.comp, E.file.body[r], f.body[r])
        /\ file' = E.file
\* a file as it is now, written by another hand
Put == Event("put") /\ file' = E.file
Read == /\ Event("read") /\ UNCHANGED file
        /\ IF M!Good(file, E.comp)
           THEN LET m == M!Content(file, E.comp) IN
                E.res = "ok" /\ E.rows = m.rows /\ E.cols = m.cols /\ Len(E.vals) = Len(m.vals) /\ \A k \in 1..Len(m.vals) : FClose(E.vals[k], m.vals[k], "1e-12", "1e-300")
           ELSE E.res = "err"
Absent == Event("absent") /\ E.res = "err" /\ UNCHANGED file
\* radiances and luminances of a matrix of colours
Conv == /\ Event("conv") /\ UNCHANGED file /\ E.res = "ok" /\ E.rr = <<E.rows, E.cols>> /\ E.lr = <<E.rows, E.cols>>
        /\ Len(E.rad) = E.rows * E.cols /\ Len(E.lum) = E.rows * E.cols
        /\ \A k \in 1..E.rows * E.cols : LET c == M!Colour(E.vals, k) IN FClose(E.rad[k], M!Radiance(c), "1e-9", "1e-30") /\ FClose(E.lum[k], M!Luminance(c), "1e-9", "1e-30")
Mean == /\ Event("mean") /\ UNCHANGED file /\ E.res = "ok" /\ E.size = <<1, E.cols>> /\ Len(E.out) = E.cols
        /\ \A c \in 1..E.cols : FClose(E.out[c], M!Mean(E.vals, E.rows, E.cols, c), "1e-9", "1e-9")
Done == i = Len(Trace) /\ UNCHANGED vars
Next == Save \/ Put \/ Read \/ Absent \/ Conv \/ Mean \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
