------------------------------- MODULE ExtGen -------------------------------
(* Random discs and extraction histories (tlc -simulate): a disc is grown   *)
(* node by node, then sections are prepared, files removed, a destination   *)
(* condition or fault chosen, and everything extracted.                     *)
(* Properties of the model: removing removes exactly the named files of     *)
(* exactly that section; preparing changes nothing already prepared.        *)
EXTENDS Extractor, DirTree, Json
CONSTANTS MaxNodes, Hostile, Faults
VARIABLES n, disc, st, ops, phase
Sel(S) == RandomElement(S)
\* names that tools like to treat in a special way (see DirGen)
Odd == { <<46,68,83,95,83,116,111,114,101>>, <<46,95,97>>, <<84,104,117,109,98,115,46,100,98>>, <<100,101,115,107,116,111,112,46,105,110,105>>, <<97,126>>, <<97,46,116,109,112>>, <<97,46,98,97,107>>,
   <<46,103,105,116>>, <<95,95,77,65,67,79,83,88>>, <<35,97,35>>, <<99,111,114,101>>, <<97,46,108,110,107>>, <<99,111,110>>, <<126,36,97>>, <<97,46>>, <<97,32>>, <<32,97>> }
NamePool == { <<97>>, <<98,46,97,114,99>>, <<227,130,189,46,98,105,110>>, <<232,161,168>>, <<227,130,162,227,130,189>>, <<239,189,177>>, <<92>>, <<126>>, <<65>>, <<66,46,97,114,99>>,
   <<97,32,98>>, <<233,173,148,120>>, <<100,97,116,97>>, <<84,72,80>>, <<68,101,109,111,46,116,104,112>>, <<116,104,112>>, <<100,101,109,111,49>>, <<68,101,109>>, <<95>>, <<90>>, [ i \in 1..120 |-> 48 + (i % 10) ], <<97,46,98>>, <<97,98>>, <<45,114,102>>, <<46,120>>, <<46,46,46>>,
   <<115,121,115>>, <<102,105,108,101,115>>, <<42>>, <<37,115>>, <<10>>, <<32>>, <<46,46,32>>, <<126,36>> } \cup Odd
HostNames == { <<46,46>>, <<46>>, <<>>, <<47,116,109,112,47,100,114,45,118,101,114,105,102,45,97,98,115,47,120>>, <<120,47,121>>, <<46,46,47,46,46,47,46,46,47,101,115,99>>,
   <<97,47,46,46,47,46,46,47,46,46,47,46,46,47,101,115,99>>, <<47,47,120>>, <<97,47>>, <<46,47,98>>, <<46,46,47,116,105,99,107,101,116,46,98,105,110>>, <<46,46,47>>, <<47>>,
   <<47,116,109,112,47,100,114,45,118,101,114,105,102,45,97,98,115>> }
Sizes == { 0, 0, 1, 2, 31, 32, 33, 500, BlockData - 1, BlockData, BlockData + 1, 65535, 65536, 65537, 131072, 131073, 200000, 1000000, GroupData, GroupData + 3 }
RECURSIVE IdxPaths(_)
IdxPaths(list) == { <<>> } \cup UNION { { <<i>> \o q : q \in IdxPaths(list[i].c) } : i \in { j \in 1..Len(list) : list[j].k = "d" } }
RECURSIVE ListAt(_, _)
ListAt(list, ip) == IF ip = <<>> THEN list ELSE ListAt(list[Head(ip)].c, Tail(ip))
RECURSIVE Ins(_, _, _, _)
Ins(list, ip, v, at) ==
  IF ip = <<>> THEN SubSeq(list, 1, at % (Len(list) + 1)) \o << v >> \o SubSeq(list, (at % (Len(list) + 1)) + 1, Len(list))
  ELSE [ list EXCEPT ![Head(ip)] = [k |-> "d", n |-> list[Head(ip)].n, s |-> list[Head(ip)].s, c |-> Ins(list[Head(ip)].c, Tail(ip), v, at)] ]
Part(t, seed, key, lay, dol) ==
  [ seed |-> seed, t |-> t, key |-> key, ntmd |-> 1 + (seed % 3), certs |-> << <<seed % 3, seed % 2>>, <<(seed \div 7) % 3, (seed \div 7) % 2>>, <<2, 1>> >>, title |-> <<65, 66>>, bi2 |-> 8192,
    app |-> 32 + (seed % 5000) + (IF seed % 67 = 0 THEN GroupData ELSE 0), dol |-> dol, ann |-> "exact", fail |-> <<>>, bad |-> 0, lay |-> lay, tree |-> <<>>,
    psys |-> IF Faults /\ seed % 9 = 0 THEN <<"dol", "app", "fst">>[1 + ((seed \div 9) % 3)] ELSE "" ]
Init == n = 0 /\ phase = "new" /\ disc = [seed |-> 1, title |-> <<>>, lay |-> 0, parts |-> <<>>] /\ st = <<>> /\ ops = <<>>
NewDisc ==
  /\ phase = "new" /\ phase' = "grow"
  /\ \E m \in {Sel({1, 1, 2, 3})}, t1 \in {Sel({1, 2, 3, 4, 5, 6, 7})}, t2 \in {Sel(0..2)}, t3 \in {Sel(0..2)}, s \in {Sel(1..1000000)}, lay \in {Sel(1..1000000)}, d \in {Sel({256, 300, 70000})}, big \in {Sel(1..60)} :
       disc' = TLCEval([seed |-> s, title |-> <<84, 73>>, lay |-> lay, parts |-> [ k \in 1..m |-> Part(<<IF t1 > 2 THEN 0 ELSE t1, t2, t3>>[k], s + 17 * k, (s + k) % 2, lay + 13 * k, (IF big = 1 THEN 2500000 ELSE IF big = 2 THEN GroupData ELSE d) + k) ]])
  /\ UNCHANGED <<n, st, ops>>
AddNode ==
  \E p \in {Sel(1..Len(disc.parts))}, k \in {Sel(1..1000)}, nm \in {Sel(NamePool)}, hn \in {Sel(HostNames)}, s0 \in {Sel(Sizes)}, big \in {Sel(1..900)}, at \in {Sel(0..20)} :
  \E ip \in {Sel(IdxPaths(disc.parts[p].tree))} :
    LET name == IF Hostile /\ k % 6 = 0 THEN hn ELSE nm
        s == IF big = 1 /\ ~Hostile THEN 46000001 ELSE IF big = 2 THEN 17000000 ELSE s0
        used == \E i \in 1..Len(ListAt(disc.parts[p].tree, ip)) : ListAt(disc.parts[p].tree, ip)[i].n = name
        dir == k % 3 = 0 /\ Len(ip) < 6
        past == IF Faults /\ k % 40 = 1 THEN 1 + k ELSE 0
    IN  disc' = TLCEval(IF used THEN disc ELSE [disc EXCEPT !.parts[p].tree =
                  Ins(@, ip, IF dir THEN [k |-> "d", n |-> name, s |-> ToSjis(name), c |-> <<>>]
                             ELSE [k |-> "f", n |-> name, s |-> ToSjis(name), id |-> n + 1, sz |-> s, pad |-> 0, past |-> past], at)])
Grow ==
  /\ phase = "grow" /\ n' = n + 1 /\ UNCHANGED <<st, ops>>
  /\ \E k \in {Sel(1..14)} : IF n >= MaxNodes \/ k = 1 THEN phase' = "prep" /\ UNCHANGED disc ELSE AddNode /\ UNCHANGED phase
Variant(nm, v) == [ i \in 1..Len(nm) |-> IF (v + i) % 3 = 0 THEN Lower(nm[i]) ELSE nm[i] ]
Op ==
  /\ phase = "prep" /\ UNCHANGED <<n, disc>>
  /\ \E a \in {Sel(1..10)}, t \in {Sel({1, 1, 2, 3})}, v \in {Sel(0..2)}, how \in {Sel(0..5)}, g \in {Sel(0..100)} :
       LET have == { k \in 1..3 : FirstOf(disc.parts, k - 1) > 0 }
           nm == Variant(Sections[IF a <= 8 /\ ~(t \in have) THEN CHOOSE x \in have : \A y \in have : x <= y ELSE t], v)
           files == IF IsPrepared(st, nm) THEN FilesIn(st[At(st, nm)].tree, <<>>) ELSE <<>>
           gone == IF Hostile THEN {} ELSE { files[j].p : j \in { q \in 1..Len(files) : (g + 7 * q) % 5 < g % 5 } }
       IN  IF a <= 3 THEN /\ ops' = TLCEval(Append(ops, [op |-> "prepare", nm |-> nm])) /\ st' = TLCEval(Prepare(st, disc.parts, nm).st) /\ UNCHANGED phase
           ELSE IF a <= 5 THEN /\ ops' = TLCEval(Append(ops, [op |-> "remove", nm |-> nm, gone |-> SetToSeq(gone), how |-> how])) /\ st' = TLCEval(RemoveFiles(st, nm, gone).st) /\ UNCHANGED phase
           ELSE IF a = 6 THEN /\ ops' = TLCEval(Append(ops, [op |-> "dolhash", nm |-> nm])) /\ UNCHANGED <<st, phase>>
           ELSE IF st = <<>> /\ Len(ops) < 8 THEN UNCHANGED <<ops, st, phase>>
           ELSE phase' = "out" /\ UNCHANGED <<ops, st>>
TargetList == SetToSeq({ [sec |-> f[1], path |-> << <<102,105,108,101,115>> >> \o f[2], sz |-> f[4]] : f \in FilesOut(st) }
           \cup { [sec |-> s[1], path |-> << s[2] >>, sz |-> 1] : s \in SysOut(st) })
\* what copying, and extracting and rebuilding, the disc has to give
DataPart == FirstOf(disc.parts, 0)
Demo == <<68,101,109,111>>
CopyTree(list) ==
  [ i \in 1..Len(list) |-> IF list[i].k = "d" /\ list[i].n = <<84,72,80>>
      THEN [list[i] EXCEPT !.c = SelectSeq(@, LAMBDA e : Len(e.n) >= 4 /\ SubSeq(e.n, 1, 4) = Demo)] ELSE list[i] ]
With(tree) == [disc EXCEPT !.parts = << [disc.parts[DataPart] EXCEPT !.tree = tree] >>]
Again ==
  IF DataPart = 0 \/ Hostile THEN [copy |-> "err", trip |-> "err"]
  ELSE LET tr == disc.parts[DataPart].tree
           fs == TLCEval(FilesIn(tr, <<>>))
           \* files removed before extracting
           gone == IF disc.seed % 3 = 0 THEN { fs[j].p : j \in { q \in 1..Len(fs) : (q + disc.seed) % 4 = 0 } } ELSE {}
           tx == TLCEval(Without(tr, <<>>, gone)) IN
       [ copy |-> IF Past(CopyTree(tr)) \/ Psys(disc.parts[DataPart]) \in {"dol", "app"} THEN "err" ELSE "ok", cdef |-> With(CopyTree(tr)),
         gone |-> SetToSeq(gone),
         trip |-> IF Past(tx) \/ Psys(disc.parts[DataPart]) # "" THEN "err" ELSE Expect(tx, ""), tdef |-> With(IF Past(tx) \/ Expect(tx, "") = "err" THEN <<>> ELSE Captured(tx)) ]
FaultKinds == << "", "", "", "full", "full", "full", "dir", "dir", "nofiles", "nosys", "ro", "fsize", "shrink", "cut" >>
Out ==
  /\ phase = "out" /\ phase' = "done" /\ UNCHANGED <<n, disc, st, ops>>
  /\ \E f \in {Sel(1..Len(FaultKinds))}, t \in {Sel(1..1000)}, lim \in {Sel({1, 100, 9000, 32768, 66000, 131072, 2000000})}, c \in {Sel({1, 4, 100000, 2097152, 2100000, 4000000})}, stale \in {Sel(0..3)}, want \in {Sel({"file", "any"})} :
       LET Targets == TLCEval(TargetList)
           files == { k \in 1..Len(Targets) : Len(Targets[k].path) > 1 }
           j == IF want = "file" /\ files # {} THEN Sel(files) ELSE 1 + (t % Len(Targets))
           fault == IF ~Faults \/ st = <<>> THEN [kind |-> ""]
                    ELSE CASE FaultKinds[f] \in {"full", "dir"} -> [kind |-> FaultKinds[f], target |-> Targets[j]]
                           [] FaultKinds[f] = "fsize" -> [kind |-> "fsize", lim |-> lim]
                           [] FaultKinds[f] \in {"shrink", "cut"} -> [kind |-> FaultKinds[f], by |-> c]
                           [] FaultKinds[f] = "" -> [kind |-> ""]
                           [] OTHER -> [kind |-> FaultKinds[f], sec |-> IF st = <<>> THEN <<>> ELSE st[1 + (t % Len(st))].sec]
       IN  PrintT(<<"T", ToJson([disc |-> disc, again |-> Again, ops |-> ops, fault |-> fault, stale |-> IF Hostile \/ Faults THEN 0 ELSE stale, targets |-> IF stale > 0 /\ ~Hostile /\ ~Faults THEN Targets ELSE <<>>])>>)
Next == NewDisc \/ Grow \/ Op \/ Out
Spec == Init /\ [][Next]_<<n, disc, st, ops, phase>>
\* properties of the model itself
Unique == \A i, j \in 1..Len(st) : st[i].sec = st[j].sec => i = j
SecFiles(s, i) == { f[2] : f \in { g \in FilesOut(s) : g[1] = s[i].sec } }
Exact ==
  [][ ops' # ops =>
      LET o == ops'[Len(ops')] IN
      /\ \A i \in 1..Len(st) : st'[i].sec = st[i].sec /\ st'[i].part = st[i].part
      /\ o.op = "remove" => \A i \in 1..Len(st) : SecFiles(st', i) = (IF st[i].sec = Upper(o.nm) THEN SecFiles(st, i) \ { o.gone[j] : j \in 1..Len(o.gone) } ELSE SecFiles(st, i))
      /\ o.op # "remove" => \A i \in 1..Len(st) : st'[i] = st[i] ]_<<n, disc, st, ops, phase>>
=============================================================================
