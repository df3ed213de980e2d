---- MODULE MCCamera ----
EXTENDS Camera
Vs == {[dir |-> d, up |-> u, fov |-> a, w |-> s[1], h |-> s[2]] : d \in {<<"0", "1", "0">>, <<"1", "0.5", "-0.2">>, <<"-3", "0", "1">>}, u \in {<<"0", "0", "1">>, <<"0.3", "0.4", "2">>}, a \in {"20", "60", "110"},
        s \in {<<1, 1>>, <<2, 2>>, <<4, 2>>, <<3, 5>>, <<1, 4>>, <<5, 1>>}}
====
