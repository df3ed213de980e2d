----------------------------- MODULE MatrixFiles -----------------------------
(* Matrices on file (rendering/src/colour_matrix.rs): a header which tells rows, columns and components, a blank line, and a line of numbers for each row.
   A reader takes the file only if it is whole: of its kind of matrix, with as many rows as told, and as many numbers in each of them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt
CONSTANTS Matrices      \* [rows, cols, comp, vals], vals by rows
VARIABLES mem, file, said
vars == <<mem, file, said>>
None == "none"
\* a file: header fields (a number, none or bad) and rows of tokens (a number or bad)
NoFile == [rows |-> None, cols |-> None, comp |-> None, body |-> <<>>]
Width(m) == m.cols * m.comp
Row(m, r) == SubSeq(m.vals, (r - 1) * Width(m) + 1, r * Width(m))
Written(m) == [rows |-> ToString(m.rows), cols |-> ToString(m.cols), comp |-> ToString(m.comp), body |-> [r \in 1..m.rows |-> Row(m, r)]]
\* files are judged with sizes as text, so that a header may say anything
Good(f, comp) ==
  /\ f.rows = ToString(Len(f.body))
  /\ f.comp \in {None, ToString(comp)}
  /\ \E c \in 0..40 : f.cols = ToString(c) /\ \A r \in 1..Len(f.body) : Len(f.body[r]) = c * comp /\ \A k \in 1..Len(f.body[r]) : f.body[r][k] # "bad"
Cols(f) == CHOOSE c \in 0..40 : f.cols = ToString(c)
RECURSIVE Flat(_)
Flat(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o Flat(Tail(rows))
Content(f, comp) == [rows |-> Len(f.body), cols |-> Cols(f), comp |-> comp, vals |-> Flat(f.body)]
Init == mem \in Matrices /\ file = NoFile /\ said = "start"
Save == said # "saved" /\ file' = Written(mem) /\ said' = "saved" /\ UNCHANGED mem
Read(comp) == /\ said \notin {"start", "read", "refused"}
              /\ IF Good(file, comp) THEN mem' = Content(file, comp) /\ said' = "read" ELSE UNCHANGED mem /\ said' = "refused"
              /\ UNCHANGED file
Damage == /\ said = "saved" /\ said' = "damaged" /\ UNCHANGED mem
          /\ \/ Len(file.body) > 0 /\ file' = [file EXCEPT !.body = Tail(@)]
             \/ Len(file.body) > 0 /\ file' = [file EXCEPT !.body = Append(@, @[1])]
             \/ \E r \in 1..Len(file.body) : Len(file.body[r]) > 0 /\ file' = [file EXCEPT !.body[r] = Tail(@)]
             \/ \E r \in 1..Len(file.body) : Len(file.body[r]) > 0 /\ file' = [file EXCEPT !.body[r] = Append(@, @[1])]
             \/ \E r \in 1..Len(file.body) : Len(file.body[r]) > 0 /\ file' = [file EXCEPT !.body[r][1] = "bad"]
             \/ \E x \in {None, "bad", "1", "2", "3", "7"} : \/ x # file.rows /\ file' = [file EXCEPT !.rows = x]
                                                             \/ x # file.cols /\ file' = [file EXCEPT !.cols = x]
                                                             \/ x # file.comp /\ x # None /\ file' = [file EXCEPT !.comp = x]
Next == Save \/ Damage \/ \E comp \in {1, 3} : Read(comp)
Spec == Init /\ [][Next]_vars
(* ---- what holds ---- *)
\* what is read is what was saved; nothing else is read, neither damaged files nor files of the other kind
Back == [][said = "saved" /\ said' = "read" => mem' = mem]_vars
Kind == [][said = "saved" /\ said' = "read" => file.comp = ToString(mem'.comp)]_vars
NotDamaged == [][said = "damaged" => said' \in {"refused", "saved"}]_vars
Shape == Len(mem.vals) = mem.rows * Width(mem)
(* ---- matrices of colours, and their averages ---- *)
Radiance(c) == FSum(<<FMul("0.265", c[1]), FMul("0.67", c[2]), FMul("0.065", c[3])>>)
Luminance(c) == FMul(179, Radiance(c))
Colour(m, k) == <<m[3 * k - 2], m[3 * k - 1], m[3 * k]>>
Mean(vals, rows, cols, c) == FDiv(FSum([r \in 1..rows |-> vals[(r - 1) * cols + c]]), rows)
=============================================================================
