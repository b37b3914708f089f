--------------------------- MODULE FstBytesTrace ---------------------------
(* Judges what the real code did with generated trees:                      *)
(*   "ser"  serialising the tree: refused, or raw nodes + the name bytes    *)
(*          found at each node's name offset + the tree read back (C10)     *)
(*   "sort" fix_ordering of the tree (C09)                                  *)
EXTENDS FstTable, TraceLib
VARIABLE i

(* Raw node k (1-based; 1 = root) of observation x: <<t, nameoff, o, l>>.   *)
Idx(u) == ToInt(u)
SerJudge(x) ==
  LET enc == Encodable(x.tree)
      w == Walk(x.tree, <<>>)
      N == Len(w) + 1
      Lev(k) == Len(w[k - 1].p)
      ParentOf(k) == IF Lev(k) = 1 THEN 0
                     ELSE (CHOOSE j \in 2..(k - 1) : /\ Lev(j) = Lev(k) - 1
                                                     /\ \A m \in (j + 1)..(k - 1) : Lev(m) # Lev(k) - 1) - 1
      EndOf(k) == LET after == { m \in (k + 1)..N : Lev(m) <= Lev(k) }
                  IN  IF after = {} THEN N ELSE (CHOOSE m \in after : \A q \in after : m <= q) - 1
      NodeOk(k) == LET nd == x.nodes[k]  v == w[k - 1].v IN
        IF v.k = "f" THEN nd[1] = 0 /\ nd[3] = v.o /\ nd[4] = v.l
        ELSE nd[1] = 1 /\ Idx(nd[3]) = ParentOf(k) /\ Idx(nd[4]) = EndOf(k)
  IN  IF x.err THEN Clause("refused_a_representable_tree", ~enc)
      ELSE IF ~enc THEN {"accepted_an_unrepresentable_name"}
      ELSE Clause("node_count", Len(x.nodes) = N /\ Idx(x.nodes[1][4]) = N)
           \cup (IF Len(x.nodes) # N THEN {} ELSE
             Clause("root", x.nodes[1][1] = 1 /\ Idx(x.nodes[1][3]) = 0)
             \cup Clause("nodes", \A k \in 2..N : NodeOk(k))
             \cup Clause("names", \A k \in 2..N : x.names[k] = ToSjis(Last(w[k - 1].p))))
           \cup Clause("reads_back", x.back = << x.tree >>)

RECURSIVE Bag(_)
Bag(list) ==
  LET s == [ k \in 1..Len(list) |-> IF list[k].k = "d" THEN <<"d", list[k].n, Bag(list[k].c)>>
                                    ELSE <<"f", list[k].n, list[k].o, list[k].l>> ]
  IN  { << s[k], Cardinality({ m \in 1..Len(s) : s[m] = s[k] }) >> : k \in 1..Len(s) }
RECURSIVE WeakSorted(_)
WeakSorted(list) ==
  /\ \A k \in 1..(Len(list) - 1) : Cmp(list[k].n, list[k + 1].n) # 1
  /\ \A k \in 1..Len(list) : list[k].k = "d" => WeakSorted(list[k].c)
SortJudge(x) == Clause("same_entries", Bag(x.tree) = Bag(x.post)) \cup Clause("sorted", WeakSorted(x.post))

Judge(x) == IF x.kind = "ser" THEN SerJudge(x) ELSE SortJudge(x)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
