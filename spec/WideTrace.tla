----------------------------- MODULE WideTrace -----------------------------
(* Judges serialisations of very large tables.  raw is the tree found in    *)
(* the bytes by an independent decoder (which insists on pre-order nodes,   *)
(* parent indices and directory ends), back what the library parses.        *)
EXTENDS DiscDef, TraceLib
VARIABLE i
RECURSIVE Stored(_)
Stored(list) == [ j \in 1..Len(list) |->
   IF list[j].k = "d" THEN [k |-> "d", n |-> ToSjis(list[j].n), c |-> Stored(list[j].c)]
   ELSE [list[j] EXCEPT !.n = ToSjis(@)] ]
RECURSIVE Count(_)
Count(list) == IF list = <<>> THEN 0
  ELSE (IF Head(list).k = "d" THEN 1 + Count(Head(list).c) ELSE Head(list).cnt) + Count(Tail(list))
Judge(x) ==
  IF x.err THEN Clause("refused_a_representable_tree", ~NamesFit(x.tree))
  ELSE IF ~NamesFit(x.tree) THEN {"accepted_names_past_the_limit"}
  ELSE Clause("node_count", x.count = 1 + Count(x.tree)) \cup Clause("nodes", x.raw = << Stored(x.tree) >>)
       \cup Clause("reads_back", x.back = << x.tree >>)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
