------------------------------ MODULE SectDisc ------------------------------
(* Partitions that differ in everything a section name could pick wrongly.  *)
EXTENDS Extractor
F(nm, id, sz) == [k |-> "f", n |-> nm, s |-> nm, id |-> id, sz |-> sz, pad |-> 0, past |-> 0]
D(nm, c) == [k |-> "d", n |-> nm, s |-> nm, c |-> c]
Tree(k) == << D(<<97>>, << F(<<98, 48 + k>>, 100 * k + 1, 100 * k), D(<<99>>, << F(<<100>>, 100 * k + 2, 33) >>) >>), F(<<112, 48 + k>>, 100 * k + 3, 5), D(<<122>>, <<>>) >>
Part(k, t, bad) == [ seed |-> 7000 + 31 * k, t |-> t, key |-> k % 2, ntmd |-> 1, certs |-> << <<0, 1>>, <<1, 0>>, <<2, 1>> >>, title |-> <<65>>, bi2 |-> 8192, app |-> 64 + k,
                     dol |-> 256 + 100 * k, ann |-> "exact", fail |-> <<>>, bad |-> bad, lay |-> k, tree |-> Tree(k) ]
=============================================================================
