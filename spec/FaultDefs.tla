----------------------------- MODULE FaultDefs -----------------------------
(* Small definitions for fault and crash enumeration: one or two            *)
(* partitions, one to three groups, file tables inside one group and across *)
(* a group boundary.                                                        *)
EXTENDS DiscDef, Json, IOUtils
VARIABLE v
File(n, id, sz, pad) == [k |-> "f", n |-> n, id |-> id, sz |-> sz, pad |-> pad]
Dir(n, c) == [k |-> "d", n |-> n, c |-> c]
Part(s, t, app, dol, tree) ==
  [ seed |-> s, t |-> t, key |-> s % 2, ntmd |-> 1, certs |-> << <<1, 1>>, <<1, 1>>, <<1, 1>> >>, title |-> <<65, 66>>,
    bi2 |-> 8192, app |-> app, dol |-> dol, ann |-> "exact", fail |-> <<>>, tree |-> tree ]
Disc(s, parts, fin, every) == [ seed |-> s, title |-> <<87>>, dest |-> "empty", parts |-> parts, fin |-> fin, every |-> every ]
Small(i) == << Dir(<<100>>, << File(<<97>>, 10 * i + 1, 500, 0) >>), File(<<98>>, 10 * i + 2, 0, 64) >>
Big(i) == << File(<<97>>, 10 * i + 1, 2100000, 0), File(<<98>>, 10 * i + 2, 40000, 0), Dir(<<99>>, << File(<<99>>, 10 * i + 3, 1, 0) >>) >>
\* the file table lies across the first group boundary
Across(i) == Part(i, 0, 64, GroupData - 9280 - 64 - 32 - 40, Big(i))
Discs ==
  { Disc(1, << Part(1, 0, 100, 256, Small(1)) >>, <<0>>, 1),
    Disc(2, << Part(2, 0, 100, 256, Big(2)) >>, <<0>>, 1),
    Disc(3, << Across(3) >>, <<0>>, 3),
    Disc(4, << Part(4, 1, 32, 0, <<>>), Part(5, 0, 4096, 300, Small(5)) >>, <<1, 0>>, 3) }
  \cup (IF IOEnv.DIRS = "1" THEN { Disc(21, << Part(21, 0, 100, 256, Small(21)) >>, <<0>>, 1) @@ [dir |-> 1], Disc(22, << Part(22, 0, 100, 256, Big(22)) >>, <<0>>, 4) @@ [dir |-> 1] } ELSE {})
  \cup (IF IOEnv.TIER = "quick" THEN {} ELSE
  { Disc(5, << Across(6), Part(7, 2, 32, 0, Big(7)) >>, <<1, 0>>, 1),
    Disc(6, << Part(8, 0, 100, 1000, << File(<<97>>, 81, 17000000, 0) >>) >>, <<0>>, 1),
    Disc(7, << Part(9, 0, 100, 256, Small(9)), Part(10, 1, 100, 256, Big(10)), Part(11, 2, 100, 256, Small(11)) >>, <<0, 1, 0>>, 1) })
Init == v \in Discs /\ PrintT(<<"T", ToJson(v)>>)
Next == FALSE /\ v' = v
Spec == Init /\ [][Next]_v
=============================================================================
