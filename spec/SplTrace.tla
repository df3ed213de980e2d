------------------------------ MODULE SplTrace ------------------------------
(* Models read from texts, against Spl: entries are told apart by the automaton, references are looked up, and the model has what was written *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, at      \* at: the event of the model that is written and read again
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Letters0 == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
             "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","0","1","2","3","4","5","6","7","8","9","_"}
Classes0 == {"Building", "Construction", "Fenestration", "HVAC", "Luminaire", "Material", "Object", "Output", "SiteDetails", "SolarOptions", "Space", "Substance", "Surface"}
S == INSTANCE Spl WITH Letters <- Letters0, Classes <- Classes0
RECURSIVE Scan(_, _, _)
Scan(s, t, k) == IF k > Len(t) THEN s ELSE Scan(TLCEval(S!Step(s, t[k])), t, k + 1)
Init == i = 0 /\ at = 0
-----------------------------------------------------------------------------
(* Meaning of entries *)
Of(class, es) == SelectSeq(es, LAMBDA e : e.class = class)
Named(r, es) == \E j \in 1..Len(es) : es[j].class = r.class /\ es[j].name = r.name
Fits(e, es) == ~e.bad /\ \A j \in 1..Len(e.refs) : Named(e.refs[j], es)
\* a name stands for the first thing that has it
FirstOf(k, q) == ~\E j \in 1..k - 1 : q[j].name = q[k].name
Set(q) == {q[j] : j \in 1..Len(q)}
\* in a model, each class as it was written; of the others, the last one
Alone(class) == class \in {"SiteDetails", "SolarOptions"}
Expected(class, es) == LET q == Of(class, es) IN IF Alone(class) /\ q # <<>> THEN <<q[Len(q)]>> ELSE q
Holes(e, es) == SelectSeq(es, LAMBDA x : x.class = "Fenestration" /\ x.parent = e.name)
Says(e, first, es, g) ==
  /\ Set(e.fields) \subseteq Set(g.fields)
  /\ IF e.class = "Surface" /\ first /\ Holes(e, es) # <<>>
     THEN FClose(g.area, FSub(e.area, FSum([j \in 1..Len(Holes(e, es)) |-> Holes(e, es)[j].area])), 0, "1e-6")
     ELSE g.vertices = e.vertices /\ FClose(g.area, e.area, 0, "1e-6")
States(es) == Len(Of("Fenestration", es)) + Len(Of("HVAC", es)) + Len(Of("Luminaire", es))
Reads(es, got) ==
  /\ \A c \in Classes0 :
       \E q \in {Expected(c, es)} :
         /\ Len(got[c]) = Len(q)
         /\ \A j \in 1..Len(q) : Says(q[j], FirstOf(j, q), es, got[c][j])
  /\ got.states = States(es)
-----------------------------------------------------------------------------
\* the entries found in the text, as they are known; or none
Known(list, chars) ==
  [j \in 1..Len(list) |->
     LET t == TLCEval(SubSeq(chars, list[j].from, list[j].to))
         m == {k \in 1..Len(E.known) : E.known[k].class = list[j].class /\ E.known[k].text = t}
     IN IF m = {} THEN 0 ELSE CHOOSE k \in m : TRUE]
Read ==
  /\ Event("read") /\ at' = i'
  /\ \E st \in {TLCEval(Scan(S!Start, E.chars, 1))} :
     IF S!Unsettled(st) THEN E.res \in {"ok", "err"}
     ELSE IF ~S!Ends(st) THEN E.res = "err"
     ELSE \E ks \in {TLCEval(Known(st.list, E.chars))} :
          IF \E j \in 1..Len(ks) : ks[j] = 0 THEN E.res \in {"ok", "err"}
          ELSE \E es \in {TLCEval([j \in 1..Len(ks) |-> E.known[ks[j]]])} :
               \E wrong \in {{j \in 1..Len(es) : ~Fits(es[j], es)}} :
               IF wrong = {} THEN E.res = "ok" /\ Reads(es, E.got)
               ELSE E.res = "err" /\ \E j \in wrong : st.list[j].top <= E.line /\ E.line <= st.list[j].line
\* in JSON, surfaces and objects are not looked into
Lax(e, es) == ~e.bad /\ (e.class = "Fenestration" => Fits(e, es))
ReadJson ==
  /\ Event("json") /\ at' = i'
  /\ IF \A j \in 1..Len(E.known) : Fits(E.known[j], E.known) THEN E.res = "ok" /\ Reads(E.known, E.got)
     ELSE IF \E j \in 1..Len(E.known) : ~Lax(E.known[j], E.known) THEN E.res \in {"err"} \/ (Len(Of("SiteDetails", E.known)) + Len(Of("SolarOptions", E.known)) > 1 /\ E.res = "ok")
     ELSE E.res \in {"ok", "err"}
\* what is written is what is read
Again ==
  /\ Event("again") /\ UNCHANGED at
  /\ \E old \in {Trace[at].got} : \E es \in {Trace[at].known} :
     \* of a model which lacks what it refers to, nothing is asked
     IF Trace[at].op = "json" /\ \E j \in 1..Len(es) : ~Fits(es[j], es) THEN E.res \in {"ok", "err"}
     ELSE IF E.res = "ok" THEN
       /\ \A c \in Classes0 :
            /\ Len(E.got[c]) = Len(old[c])
            /\ \A j \in 1..Len(old[c]) :
                 /\ E.got[c][j].fields = old[c][j].fields
                 /\ FClose(E.got[c][j].area, old[c][j].area, 0, "1e-6")
                 /\ IF c = "Surface" THEN TRUE ELSE E.got[c][j].vertices = old[c][j].vertices
       /\ E.got.states = old.states
     ELSE FALSE
Done == i = Len(Trace) /\ UNCHANGED <<i, at>>
Next == Read \/ ReadJson \/ Again \/ Done
Spec == Init /\ [][Next]_<<i, at>>
=============================================================================
