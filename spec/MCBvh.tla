---- MODULE MCBvh ----
EXTENDS Bvh
B == {<<0,0,2,2>>, <<4,0,6,2>>, <<2,4,4,8>>, <<0,0,8,8>>, <<0,6,8,6>>, <<4,0,4,8>>}
R == {<<1,1,1,0>>, <<1,1,0,1>>, <<9,1,-1,0>>, <<9,9,-1,-1>>, <<-1,7,1,-1>>, <<-1,3,1,0>>, <<5,9,0,-1>>, <<-3,-5,1,1>>}
RD == R \cup {<<3,3,1,1>>, <<3,3,-1,0>>, <<3,-1,0,1>>, <<9,5,-1,1>>, <<7,7,1,1>>}
====
