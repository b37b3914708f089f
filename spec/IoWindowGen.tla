---------------------------- MODULE IoWindowGen ----------------------------
(* Behaviours of a window whose source behaves, with the model's own        *)
(* answers (so that the generator doubles as a check of IoWindow itself),   *)
(* and the operation sequences to replay.                                   *)
EXTENDS IoWindow, TLC, Json, IOUtils
CONSTANTS N, MaxOps, Emitting
VARIABLES w, ops, w0

Src(n) == [ j \in 1..n |-> 10 + j ]
Configs == { [start |-> 0, len |-> 5, src |-> Src(9), pos |-> 0], [start |-> 3, len |-> 4, src |-> Src(9), pos |-> 0],
             [start |-> 4, len |-> -1, src |-> Src(9), pos |-> 0], [start |-> 6, len |-> 6, src |-> Src(9), pos |-> 0],
             [start |-> 2, len |-> 0, src |-> Src(5), pos |-> 0], [start |-> 8, len |-> 3, src |-> Src(5), pos |-> 0] }
Ops == { <<"start", 0>>, <<"start", 2>>, <<"start", 5>>, <<"cur", 1>>, <<"cur", -2>>, <<"cur", 0>>, <<"end", 0>>, <<"end", -1>>, <<"end", 2>>,
         <<"read", 2>>, <<"read", 20>>, <<"exact", 1>>, <<"exact", 3>>, <<"exact", 4>>, <<"write", <<201, 202>> >>, <<"wall", <<203, 204, 205>> >>, <<"pos">> }
\* one allowed answer of a well-behaved implementation
Answer(x, op) ==
  LET S(t) == [e |-> FALSE, v |-> Greater(t, 0), d |-> <<>>, f |-> FALSE]
      Bad == [e |-> TRUE, v |-> 0, d |-> <<>>, f |-> FALSE]
  IN CASE op[1] = "start" -> S(op[2]) [] op[1] = "cur" -> S(x.pos + op[2]) [] op[1] = "pos" -> S(x.pos)
       [] op[1] = "end" -> IF x.len = -1 THEN Bad ELSE S(x.len + op[2])
       [] op[1] = "read" -> [e |-> FALSE, v |-> 0, d |-> Slice(x, Lesser(op[2], Avail(x))), f |-> FALSE]
       [] op[1] = "exact" -> IF op[2] <= Avail(x) THEN [e |-> FALSE, v |-> 0, d |-> Slice(x, op[2]), f |-> FALSE] ELSE Bad
       [] op[1] = "write" -> S(Lesser(Len(op[2]), Left(x)))
       [] op[1] = "wall" -> IF Len(op[2]) <= Left(x) THEN S(0) ELSE Bad
Init == w0 \in Configs /\ w = w0 /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Ops : /\ \E x \in After(w, op, Answer(w, op)) : w' = x
                           /\ ops' = Append(ops, op)
                           /\ Emitting /\ Len(ops') = MaxOps => PrintT(<<"T", ToJson([w |-> w0, ops |-> ops'])>>)
        /\ UNCHANGED w0
Spec == Init /\ [][Next]_<<w, ops, w0>>
\* every operation always has an allowed answer, and only window bytes change
Total == \A op \in Ops : After(w, op, Answer(w, op)) # {}
OnlyInside == \A j \in 1..Len(w0.src) :
   (j <= w0.start \/ (w0.len # -1 /\ j > w0.start + w0.len)) => w.src[j] = w0.src[j]
NotLonger == w0.len # -1 => Len(w.src) <= Greater(Len(w0.src), w0.start + w0.len)
=============================================================================
