---- MODULE EpwGen ----
(* Text elements that occupy exactly one place in the file: quotes closed,  *)
(* commas only inside quotes.                                               *)
EXTENDS Epw, TLC, Json
Ch(c) == CASE c = "q" -> "\"" [] c = "nl" -> "\n" [] c = "cr" -> "\r" [] OTHER -> c
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Ch(Head(s)) \o Text(Tail(s))
GInit == Init /\ Sep = {} /\ Quotes(Len(src) + 1) % 2 = 0
GSpec == GInit /\ [][UNCHANGED evars]_evars
Emit == PrintT("SCN:" \o ToJson(Text(src)))
====
