----------------------------- MODULE StateHeader -----------------------------
(* The simulation state: a vector of values described by a header whose     *)
(* elements are personal, operational or physical -- always in that order,  *)
(* so that each class is one contiguous slice (SimulationStateHeader).      *)
EXTENDS Integers, Sequences
CONSTANT MaxElems
VARIABLES elems,        \* sequence of classes "P", "O", "H" (personal, operational, pHysical)
          vals,         \* default values, one per element ...
          taken,        \* ... until they are taken
          res           \* outcome of the last operation
svars == <<elems, vals, taken, res>>
Classes == {"P", "O", "H"}
Rank(c) == CASE c = "P" -> 1 [] c = "O" -> 2 [] c = "H" -> 3

Init == elems = <<>> /\ vals = <<>> /\ taken = FALSE /\ res = "none"

Highest == IF elems = <<>> THEN 1 ELSE Rank(elems[Len(elems)])
\* an element is admitted unless a later class has already been seen, or the values are gone
Admits(c) == ~taken /\ Rank(c) >= Highest
Push(c, v) ==
    IF Admits(c)
    THEN /\ elems' = Append(elems, c) /\ vals' = Append(vals, v)
         /\ taken' = taken /\ res' = "ok"
    ELSE UNCHANGED <<elems, vals, taken>> /\ res' = "err"     \* a refused push changes nothing
Take == /\ taken' = TRUE /\ res' = (IF taken THEN "none" ELSE "values")
        /\ UNCHANGED <<elems, vals>>
Next == \/ \E c \in Classes : Len(elems) < MaxElems /\ Push(c, Len(elems) + 10)
        \/ Take
Spec == Init /\ [][Next]_svars

Count(c) == Len(SelectSeq(elems, LAMBDA x : x = c))
NIndividual == Count("P")
NOperational == Count("O")
Slice(c) == CASE c = "P" -> 1..NIndividual
              [] c = "O" -> (NIndividual + 1)..(NIndividual + NOperational)
              [] c = "H" -> (NIndividual + NOperational + 1)..Len(elems)
(* Copying one class of the state between two state vectors *)
Copied(c, origin, dest) == [k \in 1..Len(dest) |-> IF elems[k] = c THEN origin[k] ELSE dest[k]]

Contiguous == \A c \in Classes : \A k \in 1..Len(elems) : elems[k] = c <=> k \in Slice(c)
OneValueEach == Len(vals) = Len(elems)
Grows == [][Len(elems') >= Len(elems) /\ SubSeq(elems', 1, Len(elems)) = elems]_svars
Refused == [][res' = "err" => elems' = elems /\ vals' = vals /\ taken' = taken]_svars
CopyIsSlice == \A c \in Classes :
    LET o == [k \in 1..Len(elems) |-> 100 + k]
        d == [k \in 1..Len(elems) |-> 200 + k]
    IN \A k \in 1..Len(elems) : Copied(c, o, d)[k] = (IF k \in Slice(c) THEN o[k] ELSE d[k])
==============================================================================
