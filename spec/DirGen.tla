------------------------------- MODULE DirGen -------------------------------
(* Random directories to build images from (tlc -simulate).  Invariant: the *)
(* expected disc tree holds exactly the files of the directory, sorted.     *)
EXTENDS DirTree, Json
CONSTANTS MaxNodes, Hostile
VARIABLES n, tree, stop, out
\* names that tools like to treat in a special way: .DS_Store ._a Thumbs.db desktop.ini a~ a.tmp a.bak .git __MACOSX #a# core lost+found a.lnk con ~$a
Odd == { <<46,68,83,95,83,116,111,114,101>>, <<46,95,97>>, <<84,104,117,109,98,115,46,100,98>>, <<100,101,115,107,116,111,112,46,105,110,105>>, <<97,126>>, <<97,46,116,109,112>>, <<97,46,98,97,107>>,
   <<46,103,105,116>>, <<95,95,77,65,67,79,83,88>>, <<35,97,35>>, <<99,111,114,101>>, <<108,111,115,116,43,102,111,117,110,100>>, <<97,46,108,110,107>>, <<99,111,110>>, <<126,36,97>>, <<97,46>>, <<97,32>>, <<32,97>> }
NamePool == { <<97>>, <<98,46,97,114,99>>, <<227,130,189,46,98,105,110>>, <<232,161,168>>, <<227,130,162,227,130,189>>, <<239,189,177>>, <<92>>, <<126>>,
   <<97,32,98>>, <<233,173,148,120>>, <<100,97,116,97>>, <<84,72,80>>, <<95>>, <<90>>, <<91>>, [ i \in 1..120 |-> 48 + (i % 10) ], [ i \in 1..37 |-> 97 + (i % 26) ],
   <<49,48>>, <<57>>, <<97,46,98>>, <<97,98>>, <<45>>, <<97,97>>, <<46,120>>, <<68,101,109,111,48,49>> } \cup Odd
\* names that differ only in case from others, and names that cannot be stored
CaseNames == { <<65>>, <<66,46,65,82,67>>, <<68,65,84,65>>, <<116,104,112>>, <<65,66>> }
BadNames == { <<194,165,97>>, <<240,159,152,128>>, <<195,169>>, <<255,97>>, <<97,130>>, <<226,136,146>> }
Missing == << "boot", "bi2", "app", "dol", "region", "ticket", "tmd", "cert", "files", "short:boot", "short:region", "short:ticket", "short:tmd", "short:cert",
              "isdir:boot", "isdir:bi2", "isdir:app", "isdir:dol", "isdir:region", "isdir:ticket", "isdir:tmd", "isdir:cert", "isfile:files", "long:bi2", "large:files" >>
Sizes == { 0, 0, 1, 2, 31, 32, 33, 63, 64, 65, 1000, BlockData - 1, BlockData, BlockData + 1, 65536, 200000, 1000000, GroupData, GroupData + 3 }
Sel(S) == RandomElement(S)
RECURSIVE IdxPaths(_)
IdxPaths(list) == { <<>> } \cup UNION { { <<i>> \o q : q \in IdxPaths(list[i].c) } : i \in { j \in 1..Len(list) : list[j].k = "d" } }
RECURSIVE ListAt(_, _)
ListAt(list, ip) == IF ip = <<>> THEN list ELSE ListAt(list[Head(ip)].c, Tail(ip))
RECURSIVE Ins(_, _, _)
Ins(list, ip, v) ==
  IF ip = <<>> THEN Append(list, v)
  ELSE [ list EXCEPT ![Head(ip)] = [k |-> "d", n |-> list[Head(ip)].n, at |-> list[Head(ip)].at, c |-> Ins(list[Head(ip)].c, Tail(ip), v)] ]
Init == n = 0 /\ tree = <<>> /\ stop = FALSE /\ out = <<>>
AddNode ==
  \E ip \in {Sel(IdxPaths(tree))}, k \in {Sel(1..100)}, nm \in {Sel(NamePool)}, ca \in {Sel(CaseNames)}, bad \in {Sel(BadNames)}, s0 \in {Sel(Sizes)}, big \in {Sel(1..900)}, l \in {Sel(1..120)} :
    LET at == IF l <= 6 THEN "link" ELSE IF l <= 12 THEN "rel" ELSE IF Hostile /\ l = 13 THEN "gone" ELSE IF Hostile /\ l = 14 THEN "fifo" ELSE "here"
        s == IF big = 1 THEN 46000001 ELSE IF big = 2 THEN 17000000 ELSE s0
        name == IF Hostile /\ k % 25 = 0 THEN bad ELSE IF Hostile /\ k % 8 = 0 THEN ca ELSE nm
        used == \E i \in 1..Len(ListAt(tree, ip)) : ListAt(tree, ip)[i].n = name
        clash == \E i \in 1..Len(ListAt(tree, ip)) : SameName(ListAt(tree, ip)[i].n, name)
    IN  tree' = TLCEval(IF used \/ (clash /\ ~Hostile) THEN tree
                ELSE Ins(tree, ip, IF k % 3 = 0 /\ Len(ip) < 7 THEN [k |-> "d", n |-> name, at |-> IF at \in {"gone", "fifo"} THEN "link" ELSE at, c |-> <<>>]
                                   ELSE [k |-> "f", n |-> name, at |-> at, id |-> n + 1, sz |-> s, pad |-> 0]))
(* The last file in disc order, if there is file data before it.            *)
Vanish(t) ==
  LET fs == FilesIn(t, <<>>) IN
  IF Len(fs) > 1 /\ \E i \in 1..(Len(fs) - 1) : fs[i].f.sz > 0 THEN fs[Len(fs)].p ELSE <<>>
Finish ==
  \E seed \in {Sel(1..1000000)}, key \in {Sel(0..1)}, nt \in {Sel({1, 1, 2, 5, 60})}, c1 \in {Sel(0..5)}, c2 \in {Sel(0..5)}, c3 \in {Sel(0..5)},
     bi2 \in {Sel({8192, 8192, 0, 1, 5000})}, app \in {Sel({32, 33, 100, 4096, 23000})}, dol \in {Sel({256, 257, 1000, 65536, 300000, 2100000})}, tl \in {Sel({0, 5, 62, 63, 64})},
     va \in {Sel(1..3)}, m \in {Sel(1..Len(Missing))}, miss \in {Sel(1..6)}, extra \in {Sel(0..2)} :
    LET missing == IF Hostile /\ miss = 1 THEN Missing[m] ELSE ""
        part == [ seed |-> seed, t |-> 0, key |-> key, ntmd |-> nt, certs |-> << <<c1 % 3, c1 \div 3>>, <<c2 % 3, c2 \div 3>>, <<c3 % 3, c3 \div 3>> >>,
                  title |-> [ i \in 1..tl |-> 65 + (i % 26) ], bi2 |-> bi2, app |-> app, dol |-> dol, ann |-> "exact", fail |-> <<>>,
                  \* of no use when the build has to fail
                  tree |-> IF Expect(tree, missing) = "err" THEN <<>> ELSE Captured(tree) ]
    IN  out' = TLCEval([ def |-> [ seed |-> seed, title |-> <<>>, parts |-> << part >> ], tree |-> tree, missing |-> missing, extra |-> extra,
                         \* the last file goes away during the build: it may fail, or have read the file before
                         vanish |-> IF va = 1 /\ Expect(tree, missing) = "ok" THEN Vanish(Captured(tree)) ELSE <<>>,
                         expect |-> IF va = 1 /\ Expect(tree, missing) = "ok" /\ Vanish(Captured(tree)) # <<>> THEN "any" ELSE Expect(tree, missing) ])
Next ==
  /\ ~stop /\ n' = n + 1
  /\ \E k \in {Sel(1..14)} :
       IF n >= MaxNodes \/ k = 1 THEN Finish /\ stop' = TRUE /\ UNCHANGED tree /\ PrintT(<<"T", ToJson(out')>>)
       ELSE AddNode /\ UNCHANGED <<stop, out>>
Spec == Init /\ [][Next]_<<n, tree, stop, out>>
Faithful ==
  stop => LET want == Captured(tree) IN
          /\ FileSet(want, <<>>) = FileSet(tree, <<>>)
          /\ out.expect = "ok" => ~Clash(want) /\ Prune(want) = want
=============================================================================
