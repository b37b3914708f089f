------------------------------- MODULE SectMC -------------------------------
(* Every list of up to MaxParts partitions (the last may be unreadable),    *)
(* every history of up to MaxOps section operations; invariants of C19, and *)
(* emission of every complete history together with the disc.               *)
EXTENDS SectDisc, Json
CONSTANTS MaxParts, MaxOps
VARIABLES disc, st, ops
Names == { <<68,65,84,65>>, <<100,97,116,97>>, <<85,112,68,97,84,101>>, <<67,72,65,78,78,69,76>>, <<99,104,97,110,110,101,108>>, <<>>, <<68,65,84>>, <<68,65,84,65,32>>, <<70,79,79>> }
Discs == UNION { { [ k \in 1..m |-> Part(k, ts[k], IF k = b THEN 1 ELSE 0) ] : ts \in [ 1..m -> 0..2 ], b \in 0..m } : m \in 0..MaxParts }
Init == disc \in Discs /\ st = <<>> /\ ops = <<>>
Op == \E nm \in Names : \E kind \in {"prepare", "dolhash"} :
        /\ ops' = Append(ops, [op |-> kind, nm |-> nm])
        /\ st' = IF kind = "prepare" THEN Prepare(st, disc, nm).st ELSE st
Ids(d) == [ k \in 1..Len(d) |-> 10 * d[k].t + d[k].bad ]
RECURSIVE Mark(_)
Mark(d) == IF d = <<>> THEN 0 ELSE 3 * Mark(Tail(d)) + d[1].t + d[1].bad
\* some discs have partitions far behind
Lay(d) == IF d # <<>> /\ Mark(d) % 5 = 2 THEN 7 + 23 * (Mark(d) + 3 * Len(d)) ELSE Len(d)
Next == Len(ops) < MaxOps /\ Op /\ UNCHANGED disc
        /\ (Len(ops') = MaxOps => PrintT(<<"H", ToJson([img |-> Ids(disc), ops |-> ops'])>>))
Spec == Init /\ [][Next]_<<disc, st, ops>>
Emit == ops = <<>> => PrintT(<<"I", ToJson([key |-> Ids(disc), disc |-> [seed |-> 4711, title |-> <<84>>, lay |-> Lay(disc), parts |-> disc]])>>)
Unique == \A i, j \in 1..Len(st) : st[i].sec = st[j].sec => i = j
Right == \A i \in 1..Len(st) : /\ disc[st[i].part].t = TypeOf(st[i].sec) /\ disc[st[i].part].bad = 0
                               /\ \A k \in 1..(st[i].part - 1) : disc[k].t # TypeOf(st[i].sec)
Kept == [][\A i \in 1..Len(st) : i <= Len(st') /\ st'[i] = st[i]]_<<disc, st, ops>>
=============================================================================
