------------------------------- MODULE ExtMC -------------------------------
(* Every set of files of one small tree (same names at different depths),   *)
(* removed in one call or split over two calls; then extraction.            *)
EXTENDS Extractor, Json
VARIABLES st, ops
F(nm, id, sz) == [k |-> "f", n |-> nm, s |-> nm, id |-> id, sz |-> sz, pad |-> 0, past |-> 0]
D(nm, c) == [k |-> "d", n |-> nm, s |-> nm, c |-> c]
Tree == << F(<<98>>, 1, 10), D(<<97>>, << F(<<97>>, 2, 20), D(<<100>>, << F(<<98>>, 3, 0), F(<<97>>, 4, 70000) >>) >>), D(<<101>>, << F(<<97>>, 5, 1) >>), F(<<65>>, 6, 40) >>
Part == [ seed |-> 99, t |-> 0, key |-> 1, ntmd |-> 1, certs |-> << <<0, 1>>, <<1, 0>>, <<2, 1>> >>, title |-> <<65>>, bi2 |-> 8192, app |-> 64, dol |-> 300, ann |-> "exact", fail |-> <<>>,
          bad |-> 0, lay |-> 5, tree |-> Tree ]
Disc == [seed |-> 3, title |-> <<84>>, lay |-> 2, parts |-> << Part >>]
DataS == Sections[1]
Paths == { FilesIn(Tree, <<>>)[j].p : j \in 1..Len(FilesIn(Tree, <<>>)) }
Init == st = Prepare(<<>>, Disc.parts, DataS).st /\ ops = << [op |-> "prepare", nm |-> DataS] >>
Rm == \E gone \in SUBSET Paths : \E how \in {0, 3} :
        /\ Len(ops) < 3 /\ (Len(ops) = 2 => Cardinality(gone) <= 1 /\ how = 0)
        /\ ops' = Append(ops, [op |-> "remove", nm |-> DataS, gone |-> SetToSeq(gone), how |-> how])
        /\ st' = RemoveFiles(st, DataS, gone).st
        /\ (Len(ops) = 1 \/ Cardinality(gone) = 1) =>
             PrintT(<<"T", ToJson([disc |-> Disc, ops |-> ops', fault |-> [kind |-> ""], stale |-> 0, targets |-> <<>>])>>)
Spec == Init /\ [][Rm]_<<st, ops>>
Gone == UNION { { ops[k].gone[j] : j \in 1..Len(ops[k].gone) } : k \in { q \in 1..Len(ops) : ops[q].op = "remove" } }
Exact == { f[2] : f \in FilesOut(st) } = Paths \ Gone
=============================================================================
