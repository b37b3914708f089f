-------------------------- MODULE MalformedTrace --------------------------
(* What opening and reading an image with arbitrary header values did:      *)
(*   steps   <<what, "v" value | "e" error | "p" panic>>                    *)
(*   wrong   reads that returned something else than the image's bytes      *)
(*   tables  per opened or refused partition the bytes of its file table    *)
(*           and the tree the library presented                             *)
EXTENDS FstTable, TraceLib
VARIABLE i
\* what these bytes (all of the table, or its beginning) mean is determined
Known(bs, full) ==
  IF Len(bs) < 12 THEN full
  ELSE LET root == Node(bs, 0)  n == ToInt(root.l) IN
       \/ root.t = 0 \/ root.o # <<0, 0>> \/ n = 0
       \/ n > Len(bs) \div 12 /\ full
       \/ /\ n <= Len(bs) \div 12
          /\ \A k \in 1..(n - 1) : LET at == 12 * n + Node(bs, k).no + 1  e == NameEnd(bs, at)
                                   IN  IF e = 0 THEN full ELSE \A j \in at..e : bs[j] < 128
Table(x, only) ==
  IF ~Known(x.bs, x.full) THEN {}
  ELSE LET d == Decode(x.bs) IN
       Clause("accepted_a_malformed_table", x.ok => d.ok) \cup Clause("refused_a_valid_table", d.ok /\ only => x.ok)
       \cup Clause("wrong_tree", x.ok /\ d.ok => x.t = d.t)
Judge(x) ==
  Clause("panic", \A k \in 1..Len(x.steps) : x.steps[k][2] # "p")
  \cup Clause("wrong_data", x.wrong = <<>>)
  \cup Clause("refused_a_valid_image", x.control => \A k \in 1..Len(x.steps) : x.steps[k][2] = "v")
  \cup UNION { Table(x.tables[k], x.tableonly) : k \in 1..Len(x.tables) }
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
