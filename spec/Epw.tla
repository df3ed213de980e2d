--------------------------------- MODULE Epw ---------------------------------
(* Reading an EPW weather file: the character-level scanner (elements are   *)
(* separated by commas and line ends, except for commas inside quotes; a    *)
(* carriage return before a separator is not part of the element), and the  *)
(* meaning given to each element.                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Alphabet, MaxLen
VARIABLES src,           \* the text, a sequence of characters
          cur, start, inStr, out
evars == <<src, cur, start, inStr, out>>

Init == /\ src \in UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
        /\ cur = 1 /\ start = 1 /\ inStr = FALSE /\ out = <<>>

Finished == cur > Len(src)
\* one character of the element being scanned
Consume == /\ ~Finished
           /\ ~(src[cur] = "," /\ ~inStr) /\ src[cur] # "nl"
           /\ inStr' = IF src[cur] = "q" THEN ~inStr ELSE inStr
           /\ cur' = cur + 1 /\ UNCHANGED <<src, start, out>>
Elem(a, b) == SubSeq(src, a, IF b >= a /\ src[b] = "cr" THEN b - 1 ELSE b)
\* a separator ends the element
EndElement == /\ ~Finished
              /\ (src[cur] = "," /\ ~inStr) \/ src[cur] = "nl"
              /\ out' = Append(out, Elem(start, cur - 1))
              /\ cur' = cur + 1 /\ start' = cur + 1 /\ UNCHANGED <<src, inStr>>
\* so does the end of the file
EndFile == /\ Finished /\ start <= Len(src)
           /\ out' = Append(out, Elem(start, Len(src)))
           /\ start' = Len(src) + 1 /\ UNCHANGED <<src, cur, inStr>>
Next == Consume \/ EndElement \/ EndFile
Spec == Init /\ [][Next]_evars /\ WF_evars(Next)

(* Declarative meaning: separators are the line ends and the commas with an *)
(* even number of quotes before them.                                       *)
Quotes(k) == Cardinality({j \in 1..(k - 1) : src[j] = "q"})
Sep == {k \in 1..Len(src) : src[k] = "nl" \/ (src[k] = "," /\ Quotes(k) % 2 = 0)}
NElems == Cardinality(Sep) + (IF Len(src) \in Sep THEN 0 ELSE 1)
End(k) == IF k > Cardinality(Sep) THEN Len(src) + 1
          ELSE CHOOSE x \in Sep : Cardinality({y \in Sep : y <= x}) = k
Begin(k) == IF k = 1 THEN 1 ELSE End(k - 1) + 1

Progress == \A k \in 1..Len(out) : out[k] = Elem(Begin(k), End(k) - 1)
Complete == (Finished /\ start > Len(src)) => Len(out) = NElems
Terminates == <>(Finished /\ start > Len(src))
==============================================================================
