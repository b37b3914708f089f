------------------------------- MODULE DefGen -------------------------------
(* Generator of disc definitions (tlc -simulate): random trees, and sizes   *)
(* aimed so that the ends of the apploader, dol, file table and files fall  *)
(* on, just before and just after block, group and write-batch boundaries.  *)
(* The aiming uses the layout the builder has today; what the builder does  *)
(* is judged by ImageContract, which does not depend on it.                 *)
EXTENDS DiscDef, Json
CONSTANTS MaxParts, MaxNodes, Fails, BigEvery, Filled, NoDol, Hard
VARIABLES n, tree, spec, parts, stop, knobs

NamePool == { <<97>>, <<65>>, <<98,46,97,114,99>>, <<66,46,65,82,67>>, <<227,130,189,46,98,105,110>>, <<232,161,168>>,
   <<227,130,162,227,130,189>>, <<239,189,177>>, <<92>>, <<126>>, <<97,32,98>>, <<233,173,148,120>>, <<100,97,116,97>>, <<68,65,84,65>>,
   <<84,72,80>>, <<95>>, [ i \in 1..120 |-> 33 + (i % 14) ], [ i \in 1..37 |-> 97 + (i % 26) ], <<49,48>>, <<57>> }
BadNames == { <<194,165,97>>, <<240,159,152,128>>, <<97,0,98>>, <<195,169>> }

Sizes == { 0, 0, 1, 2, 3, 4, 5, 31, 32, 33, 63, 64, 65, 100, 1000, 1024, 4096, BlockData - 1, BlockData, BlockData + 1,
           65535, 65536, 200000 }
BigSizes == { GroupData - 64, GroupData - 1, GroupData, GroupData + 1, 2 * GroupData, 2 * GroupData + 17, 3 * GroupData + 5 }
HugeSizes == { Batch - 1, Batch, Batch + 1, Batch + 4 * GroupData }
Deltas == { -65, -64, -63, -33, -32, -4, -1, 0, 1, 2, 4, 32, 63, 64, 65 }
Pads == { 0, 0, 0, 0, 0, 1, 63, 64, 65, 4096, BlockData, GroupData }
Units == { BlockData, BlockData, GroupData, GroupData }

\* directories by index path
RECURSIVE IdxPaths(_)
IdxPaths(list) ==
  { <<>> } \cup UNION { { <<i>> \o q : q \in IdxPaths(list[i].c) } : i \in { j \in 1..Len(list) : list[j].k = "d" } }
RECURSIVE Ins(_, _, _, _)
Ins(list, ip, at, v) ==
  IF ip = <<>> THEN SubSeq(list, 1, at % (Len(list) + 1)) \o <<v>> \o SubSeq(list, 1 + (at % (Len(list) + 1)), Len(list))
  ELSE LET h == Head(ip) IN
       SubSeq(list, 1, h - 1) \o << [k |-> "d", n |-> list[h].n, c |-> Ins(list[h].c, Tail(ip), at, v)] >>
         \o SubSeq(list, h + 1, Len(list))

Init == /\ n = 0 /\ tree = <<>> /\ parts = <<>> /\ spec = <<>> /\ stop = 0
        /\ knobs = [seed |-> 0]

(* A file node carries its number; spec[id] says how its size is chosen.    *)
AddNode ==
  \E ip \in { RandomElement(IdxPaths(tree)) }, at \in { RandomElement(0..1000) }, k \in { RandomElement(1..60) },
     nm \in { RandomElement(NamePool) }, bad \in { RandomElement(BadNames) }, s \in { RandomElement(Sizes) },
     g \in { RandomElement(BigSizes) }, hu \in { RandomElement(HugeSizes) }, w \in { RandomElement(1..20) },
     u \in { RandomElement(Units) }, d \in { RandomElement(Deltas) }, pad \in { RandomElement(Pads) },
     b \in { RandomElement(1..BigEvery) } :
    LET name == IF Fails /\ k = 60 THEN bad ELSE nm
        id == Len(spec) + 1
        how == CASE b = 1 /\ w = 1 -> << "abs", hu >>
                 [] w \in 2..4 -> << "abs", g >>
                 [] w \in 5..10 -> << "to", u, d >>
                 [] OTHER -> << "abs", s >>
    IN  IF k % 4 = 0 /\ Len(ip) < 5
        THEN tree' = TLCEval(Ins(tree, ip, at, [k |-> "d", n |-> name, c |-> <<>>])) /\ UNCHANGED spec
        ELSE /\ tree' = TLCEval(Ins(tree, ip, at, [k |-> "f", n |-> name, id |-> id]))
             /\ spec' = TLCEval(Append(spec, [how |-> how, pad |-> pad]))

\* layout used for aiming
RECURSIVE SjisTotal(_)
SjisTotal(ns) == IF ns = <<>> THEN 0
                 ELSE (IF Representable(Head(ns)) THEN Len(ToSjis(Head(ns))) + 1 ELSE 1) + SjisTotal(Tail(ns))
FstLen == LET ns == NamesIn(tree) IN 12 * (Len(ns) + 1) + 1 + SjisTotal(ns) + 4

\* resolve the sizes in write order: sequence of <<id, size>>
RECURSIVE Resolve(_, _)
Resolve(fs, pos) ==
  IF fs = <<>> THEN <<>>
  ELSE LET sp == spec[Head(fs).f.id]
           sz == IF sp.how[1] = "abs" THEN sp.how[2]
                 ELSE LET want == Align(pos + 1, sp.how[2]) + sp.how[3] - pos IN IF want < 0 THEN 0 ELSE want
       IN  << << Head(fs).f.id, sz >> >> \o Resolve(Tail(fs), Align(pos + sz + sp.pad, 64))
RECURSIVE Put(_, _)
Put(list, szs) ==
  [ i \in 1..Len(list) |->
      IF list[i].k = "d" THEN [k |-> "d", n |-> list[i].n, c |-> Put(list[i].c, szs)]
      ELSE [k |-> "f", n |-> list[i].n, id |-> 1000 * (Len(parts) + 1) + list[i].id,
            sz |-> szs[CHOOSE j \in 1..Len(szs) : szs[j][1] = list[i].id][2], pad |-> spec[list[i].id].pad] ]

Fail(k, nf) == IF ~Fails THEN <<>> ELSE
  CASE k = 1 -> <<"hdr", "custom">> [] k = 2 -> <<"bi2", "io">> [] k = 3 -> <<"app", "custom">> [] k = 4 -> <<"fst", "io">>
    [] k = 5 -> <<"dol", "custom">> [] k = 6 -> <<"f0", "io">> [] k = 7 -> << "f" \o ToString(nf \div 2), "custom">>
    [] k = 8 -> << "f" \o ToString(IF nf = 0 THEN 0 ELSE nf - 1), "io">> [] OTHER -> <<>>

ClosePart ==
  \E seed \in { RandomElement(1..1000000) }, t \in { RandomElement(0..2) }, key \in { RandomElement(0..1) },
     nt \in { RandomElement({1, 1, 1, 1, 2, 5, 60}) }, c1 \in { RandomElement(0..5) }, c2 \in { RandomElement(0..5) }, c3 \in { RandomElement(0..5) },
     bi2 \in { RandomElement({8192, 8192, 0, 1, 8191, 5000}) },
     app \in { RandomElement({32, 33, 64, 100, 4096, 20000, 23000, BlockData - 9280, BlockData - 9279, 100001, GroupData - 9280 - 32, GroupData - 9200}) },
     aim \in { RandomElement(1..10) }, u \in { RandomElement(Units) }, d \in { RandomElement(Deltas) },
     dl \in { RandomElement({0, 100, 256, 257, 1000, 65536}) }, mult \in { RandomElement({0, 0, 0, 0, 1, 2}) },
     fk \in { RandomElement(1..16) }, rare \in { RandomElement(1..40) }, an \in { RandomElement({"exact", "none"}) },
     tl \in { RandomElement({0, 5, 62, 63, 64}) } :
    LET dolOff == Align(9280 + app, 32)
        \* aim 1..3: dol end at a boundary; 4..6: end of the file table; 7: start of file table in a later group
        end == Align(dolOff + 300, u) + mult * u + d
        dolsz == IF NoDol THEN dl ELSE
                 CASE rare = 4 -> Batch + dl
                   [] aim \in 1..3 -> end - dolOff
                   [] aim \in 4..6 -> IF end - FstLen - dolOff > 300 THEN end - FstLen - dolOff ELSE dl
                   [] aim = 7 -> GroupData + dl
                   [] OTHER -> dl
        data == Align(Align(dolOff + dolsz, 32) + FstLen, 64)
        szs == Resolve(FilesIn(tree, <<>>), data)
        nf == Len(szs)
        part == [ seed |-> seed, t |-> t, key |-> key,
                  ntmd |-> IF Fails /\ rare = 1 THEN 0 ELSE IF Fails /\ rare = 2 THEN 900 ELSE nt,
                  certs |-> << <<c1 % 3, c1 \div 3>>, <<c2 % 3, c2 \div 3>>, <<c3 % 3, c3 \div 3>> >>,
                  title |-> [ i \in 1..tl |-> 65 + (i % 26) ],
                  bi2 |-> IF Fails /\ rare = 3 THEN RandomElement({8193, 8194, 8195, 8196, 8200, 9000}) ELSE bi2, app |-> app, dol |-> dolsz, ann |-> an,
                  fail |-> Fail(fk, nf), tree |-> Put(tree, szs) ]
    IN  /\ parts' = TLCEval(Append(parts, part)) /\ tree' = <<>> /\ spec' = <<>>

Emit(last) ==
  \E seed \in { RandomElement(1..1000000) }, tl \in { RandomElement({0, 10, 63, 64}) }, fi \in { RandomElement(1..5) }, hd \in { RandomElement(1..12) } :
     PrintT(<<"T", ToJson([ seed |-> seed, title |-> [ i \in 1..tl |-> 97 + (i % 26) ],
                            dest |-> IF Filled /\ fi = 1 THEN "filled" ELSE "empty",
                            \* title metadata chosen so that the search for its counter takes long
                            hard |-> IF Hard /\ hd = 1 THEN 1 ELSE 0, parts |-> last ])>>)

Next ==
  /\ stop = 0
  /\ n' = n + 1
  /\ UNCHANGED knobs
  /\ \E k \in { RandomElement(1..10) }, j \in { RandomElement(1..2) } :
       IF n >= MaxNodes \/ k = 1
       THEN /\ ClosePart
            /\ IF Len(parts') = MaxParts \/ j = 1 \/ n >= MaxNodes
               THEN stop' = 1 /\ Emit(parts')
               ELSE stop' = 0
       ELSE AddNode /\ UNCHANGED <<parts, stop>>
Spec == Init /\ [][Next]_<<n, tree, spec, parts, stop, knobs>>
=============================================================================
