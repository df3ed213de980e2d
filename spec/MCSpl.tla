------------------------------- MODULE MCSpl -------------------------------
(* Documents put together piece by piece, with their meaning, and any text at all *)
EXTENDS Spl, TLC, FiniteSets
CONSTANTS Pieces, Chars, Max, Most
VARIABLES st, text, meant, open, pending, n
vars == <<st, text, meant, open, pending, n>>
RECURSIVE Scan(_, _)
Scan(s, t) == IF t = <<>> THEN s ELSE Scan(Step(s, Head(t)), Tail(t))
Gaps == {<<" ">>, <<"\n">>, <<"/", "/", "{", "\n">>, <<"/", "*", "}", "*", "/">>, <<"/", "*", "*", "/">>, <<"/", "*", "/", "*", "*", "\"", "*", "/">>}
Strings == {<<"\"", "{", "\"">>, <<"'", "}", "'">>, <<"\"", "\\", "\"", "}", "\"">>, <<"'", "\\", "\\", "'">>, <<"\"", "'", "\"">>, <<"\"", "/", "/", "\"">>, <<"'", "/", "*", "'">>}
Init == st = Start /\ text = <<>> /\ meant = <<>> /\ open = 0 /\ pending = 0 /\ n = 0
Add(t) == text' = text \o t /\ st' = Scan(st, t) /\ n' = n + 1
\* pending: a class waits for its object
Gap == /\ Pieces /\ n < Max /\ \E g \in Gaps : Add(g) /\ UNCHANGED <<meant, open, pending>>
Class == Pieces /\ n < Max /\ open = 0 /\ pending = 0 /\ Add(<<"W">>) /\ pending' = 1 /\ UNCHANGED <<meant, open>>
Open == Pieces /\ n < Max /\ (open > 0 \/ pending = 1) /\ Add(<<"{">>) /\ open' = open + 1
        /\ meant' = (IF open = 0 THEN Append(meant, [from |-> Len(text) + 1, to |-> 0]) ELSE meant) /\ pending' = 0
Close == /\ Pieces /\ n < Max /\ open > 0 /\ Add(<<"}">>) /\ open' = open - 1 /\ UNCHANGED pending
         /\ meant' = IF open = 1 THEN [meant EXCEPT ![Len(meant)].to = Len(text) + 1] ELSE meant
Within == Pieces /\ n < Max /\ open > 0 /\ (\E s \in Strings \cup {<<"W">>, <<"/", "W">>} : Add(s)) /\ UNCHANGED <<meant, open, pending>>
\* or anything
AnyText == ~Pieces /\ n < Most /\ (\E c \in Chars : Add(<<c>>)) /\ UNCHANGED <<meant, open, pending>>
Next == Gap \/ Class \/ Open \/ Close \/ Within \/ AnyText
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Spans == [i \in 1..Len(st.list) |-> [from |-> st.list[i].from, to |-> st.list[i].to]]
Whole == SelectSeq(meant, LAMBDA e : e.to > 0)
\* what was meant is what is read
Means == Pieces => /\ Spans = Whole
                   /\ st.mode # "bad"
                   /\ (Ends(st) <=> (open = 0 /\ pending = 0))
                   /\ (open > 0 => st.depth = open)
                   /\ st.line = 1 + Cardinality({i \in 1..Len(text) : text[i] = "\n"})
\* entries do not overlap, and are between braces, after a class
Apart == \A i \in 1..Len(st.list) :
           LET e == st.list[i]
           IN /\ e.from < e.to /\ text[e.from] = "{" /\ text[e.to] = "}" /\ e.top <= e.line
              /\ e.class \in Classes
              /\ i > 1 => st.list[i - 1].to < e.from
\* nothing is lost: what is outside of the entries of a text that ends well has no brace but in comments
Stripped == Ends(st) => \A i \in 1..Len(text) :
              (text[i] = "W" /\ ~\E e \in {st.list[j] : j \in 1..Len(st.list)} : e.from <= i /\ i <= e.to) =>
                 \/ \E j \in 1..i - 1 : text[j] = "/" /\ j < Len(text) /\ text[j + 1] \in {"/", "*"}
                 \/ \E e \in {st.list[j] : j \in 1..Len(st.list)} : i < e.from
\* refusals and entries are for ever
Final == [][(st.mode = "bad" => st' = st) /\ SubSeq(st'.list, 1, Len(st.list)) = st.list]_vars
=============================================================================
