------------------------------ MODULE HistGen ------------------------------
(* Every history of additions and finishes of DiscBuild, as definitions the *)
(* real builder is driven with.                                             *)
EXTENDS DiscBuild, Json, IOUtils, Randomization, TLC
CONSTANT Lens
File(n, id, sz, pad) == [k |-> "f", n |-> n, id |-> id, sz |-> sz, pad |-> pad]
Dir(n, c) == [k |-> "d", n |-> n, c |-> c]
Tree(i, h) ==
  << File(<<97>>, 1000 * i + 1, IF h[1] = 2 THEN 2100000 ELSE 1000 + i, 0),
     Dir(<<100>>, << Dir(<<101>>, <<>>), File(<<98>>, 1000 * i + 2, 33, 64) >>),
     File(IF h[2] = "names" THEN <<194, 165>> ELSE <<99>>, 1000 * i + 3, 64, 0) >>
FailOf(h) == CASE h[2] \in {"fst", "hdr", "bi2", "app", "dol"} -> <<h[2], "custom">>
               [] h[2] = "file1" -> <<"f0", "io">> [] h[2] = "file2" -> <<"f2", "custom">> [] OTHER -> <<>>
Part(i, h) ==
  [ seed |-> 77 * i + Len(hist), t |-> (i + h[1]) % 3, key |-> i % 2, ntmd |-> IF h[2] = "notmd" THEN 0 ELSE IF h[2] = "bigtmd" THEN 900 ELSE 1,
    certs |-> << <<1, 1>>, <<0, 0>>, <<2, 1>> >>, title |-> <<65, 66>>, bi2 |-> IF h[2] = "bigbi2" THEN RandomElement({8193, 8194, 8196, 8200, 9000, 11488, 70000}) ELSE 8192,
    app |-> 500, dol |-> 300, ann |-> "exact", fail |-> FailOf(h), tree |-> Tree(i, h) ]
Adds == SelectSeq(hist, LAMBDA h : h # <<>>)
\* fin[i]: finishes called after addition i (and before the first one: fin0)
FinAfter(i) == \E j \in 1..(Len(hist) - 1) : /\ hist[j] # <<>> /\ hist[j + 1] = <<>>
                                             /\ Cardinality({ q \in 1..j : hist[q] # <<>> }) = i
Disc == [ seed |-> 5, title |-> <<87>>, dest |-> "empty",
          parts |-> [ i \in 1..Len(Adds) |-> Part(i, Adds[i]) ],
          fin |-> [ i \in 1..Len(Adds) |-> IF FinAfter(i) /\ i < Len(Adds) THEN 1 ELSE 0 ] ]
Emit == (Finished /\ Len(Adds) \in Lens /\ Adds # <<>> /\ hist[Len(hist) - 1] # <<>>) => PrintT(<<"T", ToJson(Disc)>>)
\* failing kinds in one size only; finish only once in a row
Wanted == /\ Bounded
          /\ \A j \in 1..Len(hist) : hist[j] # <<>> => (hist[j][2] # "none" => hist[j][1] = 2)
          /\ \A j \in 1..(Len(hist) - 1) : ~(hist[j] = <<>> /\ hist[j + 1] = <<>>)
          /\ hist # <<>> => hist[1] # <<>>
=============================================================================
