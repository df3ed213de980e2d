---- MODULE MCControlApi ----
EXTENDS ControlApi
MCObjects == {<<[kind |-> "space", name |-> "A", slots |-> [t |-> 1, v |-> 0]], [kind |-> "luminaire", name |-> "A", slots |-> [p |-> 2]],
                [kind |-> "space", name |-> "B", slots |-> [t |-> 0, v |-> 0]]>>}
Ref(k, b, n, i, p) == [kind |-> k, by |-> b, name |-> n, idx |-> i, prop |-> p]
No == Ref("nothing", "name", "", 0, "")
MCRefs == {Ref("space", "name", n, 0, p) : n \in {"A", "B", "C"}, p \in {"t", "p"}} \cup {Ref("luminaire", "index", "", i, "p") : i \in {-1, 0, 1}}
          \cup {Ref("space", "index", "", i, "v") : i \in 0..1}
St(c, t, op, f, g, o) == [cond |-> c, cmp |-> "<", val |-> "20", target |-> t, op |-> op, from |-> f, gain |-> g, off |-> o]
MCStatements == {St(No, t, op, No, "0", o) : t \in MCRefs, op \in {"=", "+=", "junk"}, o \in {"7"}}
                \cup {St(c, t, "=", f, "2", "1") : c \in {No, Ref("space", "name", "A", 0, "t"), Ref("space", "index", "", 1, "v")}, t \in MCRefs,
                        f \in {Ref("space", "index", "", 0, "t"), Ref("space", "name", "B", 0, "t")}}
MCInitial == <<F(15), F(100), F(0)>>
====
