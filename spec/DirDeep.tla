------------------------------ MODULE DirDeep ------------------------------
(* Directories nested far deeper than the generated ones: files at the      *)
(* bottom of, along, and after chains of directories.                       *)
EXTENDS DirTree, Json
VARIABLE v
F(n, id, sz) == [k |-> "f", n |-> n, at |-> "here", id |-> id, sz |-> sz, pad |-> 0]
D(n, c) == [k |-> "d", n |-> n, at |-> "here", c |-> c]
\* d directories with a file at the bottom; every third level has files before and after the next one, too
RECURSIVE Chain(_, _)
Chain(d, id) ==
  IF d = 0 THEN << F(<<122>>, id, 33) >>
  ELSE LET below == D(<<109, 97 + (d % 26)>>, Chain(d - 1, id)) IN
       IF d % 3 = 0 THEN << F(<<98>>, id + 2 * d, d), below, F(<<120>>, id + 2 * d + 1, 40000 + d) >> ELSE << below >>
Depths == { 8, 9, 12, 15, 16, 17, 18, 24, 31, 32, 33, 40, 63, 64, 65, 100 }
Trees == { Chain(d, 1000) : d \in Depths } \cup { << D(<<97>>, Chain(d, 1000)), F(<<98>>, 1, 5), D(<<99>>, Chain(d + 7, 2000)), F(<<100>>, 2, 70000) >> : d \in {10, 20, 48} }
Scen(t) ==
  [ def |-> [ seed |-> 7, title |-> <<>>, parts |-> << [ seed |-> 7, t |-> 0, key |-> 0, ntmd |-> 1, certs |-> << <<1, 1>>, <<1, 1>>, <<1, 1>> >>, title |-> <<65>>,
              bi2 |-> 8192, app |-> 4096, dol |-> 300, ann |-> "exact", fail |-> <<>>, tree |-> Captured(t) ] >> ],
    tree |-> t, missing |-> "", extra |-> 0, vanish |-> <<>>, expect |-> Expect(t, "") ]
Init == v \in Trees /\ PrintT(<<"T", ToJson(Scen(v))>>)
Next == FALSE /\ v' = v
Spec == Init /\ [][Next]_v
=============================================================================
