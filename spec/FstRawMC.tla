------------------------------ MODULE FstRawMC ------------------------------
(* Every raw node table with at most M+1 nodes over small field values:     *)
(* what the parser must answer (C11).  One state per table; each is emitted *)
(* with the specified outcome and replayed into the real parser.            *)
EXTENDS FstTable, TLC, Json
CONSTANT M
VARIABLE tab

Lens == { <<0, i>> : i \in 0..(M + 2) } \cup { <<65535, 65535>> }
\* name tables: fine, second name invalid, unterminated last, lead byte without trail byte
NameTabs == { <<97,0,98,0,99,0,100,0,101,0>>, <<97,0,255,0,99,0,100,0,101,0>>,
              <<97,0,98,0,99,0,100,0,101>>, <<97,0,131,0,99,0,100,0,101,0>> }
Roots == { [t |-> 1, no |-> 0, o |-> <<0, 0>>, l |-> x] : x \in Lens }
OddRoots == { [t |-> tt, no |-> 0, o |-> oo, l |-> <<0, M + 1>>] :
                tt \in {0, 1, 2, 255}, oo \in { <<0, 0>>, <<0, 1>>, <<256, 0>> } }

\* choice 0: file; choice c > 0: directory with the c-th length
LenSeq == [ i \in 1..(M + 4) |-> IF i = M + 4 THEN <<65535, 65535>> ELSE <<0, i - 1>> ]
Pick(i, c) == IF c = 0 THEN [t |-> 0, no |-> 2 * i, o |-> <<0, 5>>, l |-> <<0, 3>>]
              ELSE [t |-> 1, no |-> 2 * i, o |-> <<0, 0>>, l |-> LenSeq[c]]
Bytes(root, nodes, names) == AllBytes(<<root>> \o nodes) \o names
Init == \E m \in 0..M :
          \E cs \in [1..m -> 0..(M + 4)], names \in NameTabs :
             LET nodes == [ i \in 1..m |-> Pick(i - 1, cs[i]) ] IN
               \/ \E root \in Roots : tab = Bytes(root, nodes, names)
               \/ m = M /\ \E root \in OddRoots : tab = Bytes(root, nodes, names)
Next == UNCHANGED tab
Spec == Init /\ [][Next]_tab

(* C11 on the model: acceptance is exactly proper nesting + present nodes + *)
(* readable names; and an accepted table has exactly the declared nodes.    *)
InvAccept ==
  LET d == Decode(tab) IN
  d.ok => /\ Size(d.t) = ToInt(Node(tab, 0).l) - 1
          /\ \A i \in 1..Size(d.t) : Node(tab, i).t # 0 =>
                ToInt(Node(tab, i).l) \in (i + 1)..(Size(d.t) + 1)
InvReencode == LET d == Decode(tab) IN (d.ok /\ Encodable(d.t)) => Decode(Encode(d.t)).t = d.t
EmitTab == LET d == Decode(tab) IN PrintT(<<"T", ToJson([bs |-> tab, ok |-> d.ok, t |-> d.t])>>)
=============================================================================
