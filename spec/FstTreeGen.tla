----------------------------- MODULE FstTreeGen -----------------------------
(* Random larger trees (unsorted, duplicate names allowed) with difficult   *)
(* names and extreme values, grown one node per step, for the serialisation *)
(* conformance check (C10).  What the real code does with them is judged by *)
(* FstBytesTrace.                                                           *)
EXTENDS FstTree, TLC, Json
CONSTANTS Steps
VARIABLES tree, n
GoodNames == { <<97>>, <<65,66,46,97,114,99>>, <<227,130,189,46,98,105,110>>, <<232,161,168>>, <<227,130,162,227,130,189>>,
   <<239,189,177>>, <<206,177,209,143>>, <<92>>, <<126>>, <<32>>, <<97,32,98>>, <<233,173,148,120>>, <<227,128,128>>, <<127>>, <<1>>,
   <<239,188,141>>, <<227,129,130,49>>, <<46,46>>, <<47,120>>, <<>>,
   [ i \in 1..200 |-> 33 + (i % 90) ], <<100,97,116,97>>, <<68,65,84,65>> }
BadNames == { <<97>> \o Unfaithful[i] : i \in 1..Len(Unfaithful) }
            \cup { Unfaithful[i] \o <<98>> : i \in 1..Len(Unfaithful) }
Edge == { 0, 1, 2, 255, 256, 32767, 32768, 65534, 65535 }

\* directories addressed by index path
RECURSIVE IdxPaths(_)
IdxPaths(list) ==
  { <<>> } \cup UNION { { <<i>> \o q : q \in IdxPaths(list[i].c) } : i \in { j \in 1..Len(list) : list[j].k = "d" } }
RECURSIVE Ins(_, _, _, _)
Ins(list, ip, at, v) ==
  IF ip = <<>> THEN InsertAt(list, 1 + (at % (Len(list) + 1)), v)
  ELSE [list EXCEPT ![Head(ip)] = Dir(@.n, Ins(@.c, Tail(ip), at, v))]

Init == tree = <<>> /\ n = 0
Next ==
  /\ n < Steps /\ n' = n + 1
  /\ \E ip \in { RandomElement(IdxPaths(tree)) }, at \in { RandomElement(0..1000) },
        k \in { RandomElement(1..60) }, nm \in { RandomElement(GoodNames) }, bad \in { RandomElement(BadNames) },
        h1 \in { RandomElement(Edge) }, l1 \in { RandomElement(Edge) },
        h2 \in { RandomElement(0..65535) }, l2 \in { RandomElement(0..65535) } :
       LET name == IF k = 60 THEN bad ELSE nm
           v == CASE k % 3 = 0 /\ Len(ip) < 6 -> Dir(name, <<>>)
                  [] k % 3 = 1 -> File(name, <<h1, l1>>, <<l1, h1>>)
                  [] OTHER -> File(name, <<h2, l2>>, <<l2, h1>>)
       IN  tree' = Ins(tree, ip, at, v)
  /\ (n' % 5 = 0) =>
        PrintT(<<"T", ToJson([tree |-> tree'])>>)
Spec == Init /\ [][Next]_<<tree, n>>
=============================================================================
