------------------------------ MODULE DirLong ------------------------------
(* Directories of which one file takes most of the time: progress by bytes  *)
(* and progress by files differ.                                            *)
EXTENDS DirTree, Json
VARIABLE v
F(n, id, sz) == [k |-> "f", n |-> n, at |-> "here", id |-> id, sz |-> sz, pad |-> 0]
Few(from) == [ i \in 1..8 |-> F(<<from + i>>, from + i, i) ]
Big(n, id) == F(<<n>>, id, 150000000 + id)
Trees == { Few(97) \o << Big(122, 1) >>, << Big(97, 2) >> \o Few(98), << Big(97, 3), Big(98, 4) >> \o Few(99) }
Scen(t) ==
  [ def |-> [ seed |-> 7, title |-> <<>>, parts |-> << [ seed |-> 7, t |-> 0, key |-> 0, ntmd |-> 1, certs |-> << <<1, 1>>, <<1, 1>>, <<1, 1>> >>, title |-> <<65>>,
              bi2 |-> 8192, app |-> 4096, dol |-> 300, ann |-> "exact", fail |-> <<>>, tree |-> Captured(t) ] >> ],
    tree |-> t, missing |-> "", extra |-> 0, vanish |-> <<>>, expect |-> Expect(t, "") ]
Init == v \in Trees /\ PrintT(<<"T", ToJson(Scen(v))>>)
Next == FALSE /\ v' = v
Spec == Init /\ [][Next]_v
=============================================================================
