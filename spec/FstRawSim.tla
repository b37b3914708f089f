----------------------------- MODULE FstRawSim -----------------------------
(* Random raw tables of up to MaxN nodes, most of them properly nested: odd *)
(* type bytes, shared and overlapping names, names outside the table, byte  *)
(* order marks, truncated tables.  Emitted with the outcome FstTable gives. *)
EXTENDS FstTable, TLC, Json
CONSTANT MaxN
VARIABLES nodes, ends, names, n
Sel(S) == RandomElement(S)
Tokens == { <<97>>, <<65,46,97>>, <<131,65>>, <<131,92>>, <<149,92,120>>, <<177>>, <<130,160>>, <<>>, <<92>>, <<126,49>>, <<98,99,100>>, <<120,131,92,121>> }
BadTokens == { <<255>>, <<239,187,191,97>>, <<254,255,97>>, <<255,254,97>>, <<131>>, <<97,131>>, <<160>> }
Offs == { <<0,0>>, <<0,1>>, <<16384,0>>, <<32768,0>>, <<65535,65535>>, <<4660,22136>> }
Init == nodes = <<>> /\ ends = <<>> /\ names = <<0>> /\ n = -1
Top == LET e == IF ends = <<>> THEN n + 1 ELSE Last(ends)  i == Len(nodes) + 2 IN IF e < i THEN i ELSE e
RECURSIVE Popped(_, _)
Popped(es, i) == IF es # <<>> /\ Last(es) = i THEN Popped(Front(es), i) ELSE es
AddName == \E w \in {Sel(Tokens)}, b \in {Sel(BadTokens)}, k \in {Sel(1..60)} :
   names' = TLCEval(names \o (IF k = 1 THEN b ELSE w) \o <<0>>)
Step ==
  LET i == Len(nodes) + 1 IN                   \* index of this node
  /\ n >= 0 /\ i <= n
  /\ AddName
  /\ \E t \in {Sel({0, 0, 0, 1, 1, 1, 2, 255})}, o \in {Sel(Offs)}, l \in {Sel(Offs)}, odd \in {Sel(1..40)}, e \in {Sel((i + 1)..Top)}, x \in {Sel(0..(n + 3))},
        nk \in {Sel(1..30)}, nr \in {Sel(0..Len(names))} :
       LET no == IF nk = 1 THEN nr ELSE IF nk = 2 THEN 16777215 ELSE Len(names)
           end == IF odd = 1 THEN x ELSE e
       IN  /\ nodes' = TLCEval(Append(nodes, IF t = 0 THEN [t |-> 0, no |-> no, o |-> o, l |-> l] ELSE [t |-> t, no |-> no, o |-> o, l |-> FromInt(end)]))
           /\ ends' = TLCEval(Popped(IF t = 0 THEN ends ELSE Append(ends, end), i + 1))
  /\ UNCHANGED n
Done ==
  /\ n >= 0 /\ Len(nodes) = n
  /\ \E rt \in {Sel({1, 1, 1, 1, 1, 2, 255, 0})}, rl \in {Sel(1..30)}, cut \in {Sel(1..15)}, at \in {Sel(0..80)}, ro \in {Sel(1..30)} :
       LET root == [t |-> rt, no |-> 0, o |-> IF ro = 1 THEN <<0, 1>> ELSE <<0, 0>>, l |-> FromInt(IF rl = 1 THEN n ELSE IF rl = 2 THEN n + 2 ELSE n + 1)]
           all == AllBytes(<<root>> \o nodes) \o names
           bs == IF cut = 1 /\ at < Len(all) THEN SubSeq(all, 1, Len(all) - at) ELSE all
           d == Decode(bs)
       IN  PrintT(<<"T", ToJson([bs |-> bs, ok |-> d.ok, t |-> d.t])>>)
  /\ n' = -2 /\ nodes' = <<>> /\ UNCHANGED <<ends, names>>
Start == n = -1 /\ (\E m \in {Sel(0..MaxN)} : n' = m) /\ UNCHANGED <<nodes, ends, names>>
Next == Start \/ Step \/ Done
Spec == Init /\ [][Next]_<<nodes, ends, names, n>>
=============================================================================
