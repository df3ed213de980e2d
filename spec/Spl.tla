-------------------------------- MODULE Spl --------------------------------
(* The text of a SIMPLE file (model/src/scanner.rs): gaps (blanks and comments) around entries, each a class followed by an object between
   braces. An object is JSON5: it has strings, comments and objects of its own, whose braces are nobody's business.
   Scan is the automaton which tells entries apart, one character after the other; Documents are put together piece by piece, knowing their
   meaning. *)
EXTENDS Integers, Sequences
CONSTANTS Letters, Classes
Blanks == {" ", "\t", "\r", "\n"}
Quotes == {"\"", "'"}
Start == [mode |-> "gap", depth |-> 0, quote |-> "", word |-> "", from |-> 0, line |-> 1, top |-> 1, k |-> 0, list |-> <<>>]
Bad(s) == [s EXCEPT !.mode = "bad"]
To(s, m) == [s EXCEPT !.mode = m]
\* inside an object
Inner(s, c) ==
  IF c \in Quotes THEN [s EXCEPT !.mode = "string", !.quote = c]
  ELSE IF c = "{" THEN [s EXCEPT !.mode = "object", !.depth = @ + 1]
  ELSE IF c = "}" THEN IF s.depth > 1 THEN [s EXCEPT !.mode = "object", !.depth = @ - 1]
       ELSE [s EXCEPT !.mode = "gap", !.depth = 0, !.word = "", !.list = Append(@, [class |-> s.word, from |-> s.from, to |-> s.k, top |-> s.top, line |-> s.line])]
  ELSE To(s, IF c = "/" THEN "object/" ELSE "object")
\* between a class and its object
Seek(s, c) == IF c \in Blanks THEN To(s, "seek") ELSE IF c = "/" THEN To(s, "seek/")
              ELSE IF c = "{" /\ s.word \in Classes THEN [s EXCEPT !.mode = "object", !.depth = 1, !.from = s.k] ELSE Bad(s)
Slash(s, c, where) == IF c = "/" THEN To(s, where \o "//") ELSE IF c = "*" THEN To(s, where \o "/*")
                      ELSE IF where = "object" THEN Inner(s, c) ELSE Bad(s)
Line(s, c, where) == IF c = "\n" THEN To(s, where) ELSE s
Block(s, c, where) == IF c = "*" THEN To(s, where \o "/**") ELSE s
Star(s, c, where) == IF c = "/" THEN To(s, where) ELSE IF c = "*" THEN s ELSE To(s, where \o "/*")
Act(s, c) ==
  CASE s.mode = "gap" -> IF c \in Blanks THEN s ELSE IF c = "/" THEN To(s, "gap/") ELSE IF c \in Letters THEN [s EXCEPT !.mode = "word", !.word = c, !.top = s.line] ELSE Bad(s)
    [] s.mode = "word" -> IF c \in Letters THEN [s EXCEPT !.word = @ \o c] ELSE Seek(s, c)
    [] s.mode = "seek" -> Seek(s, c)
    [] s.mode = "object" -> Inner(s, c)
    [] s.mode = "string" -> IF c = s.quote THEN To(s, "object") ELSE IF c = "\\" THEN To(s, "escape") ELSE s
    [] s.mode = "escape" -> To(s, "string")
    [] s.mode \in {"gap/", "seek/", "object/"} -> Slash(s, c, IF s.mode = "gap/" THEN "gap" ELSE IF s.mode = "seek/" THEN "seek" ELSE "object")
    [] s.mode \in {"gap//", "seek//", "object//"} -> Line(s, c, IF s.mode = "gap//" THEN "gap" ELSE IF s.mode = "seek//" THEN "seek" ELSE "object")
    [] s.mode \in {"gap/*", "seek/*", "object/*"} -> Block(s, c, IF s.mode = "gap/*" THEN "gap" ELSE IF s.mode = "seek/*" THEN "seek" ELSE "object")
    [] s.mode \in {"gap/**", "seek/**", "object/**"} -> Star(s, c, IF s.mode = "gap/**" THEN "gap" ELSE IF s.mode = "seek/**" THEN "seek" ELSE "object")
    [] OTHER -> s
Step(s, c) ==
  IF s.mode = "bad" THEN s
  ELSE LET t == Act([s EXCEPT !.k = @ + 1], c) IN IF c = "\n" THEN [t EXCEPT !.line = @ + 1] ELSE t
\* what is read of a document that ends there
Ends(s) == s.mode \in {"gap", "gap//"}
\* a comment that does not end: not judged
Unsettled(s) == s.mode \in {"gap/*", "gap/**"}
=============================================================================
