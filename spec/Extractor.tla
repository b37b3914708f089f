----------------------------- MODULE Extractor -----------------------------
(* The extraction side of the tools.  A disc is a sequence of partitions    *)
(*   [t |-> 0 data | 1 update | 2 channel, bad |-> 1 if it cannot be opened,*)
(*    tree |-> .., ..]                                                      *)
(* An extractor holds prepared sections [sec, part, tree].  Section names   *)
(* are byte sequences and compare ignoring (ASCII) case.                    *)
EXTENDS DiscDef

UpperB(b) == IF b \in 97..122 THEN b - 32 ELSE b
Upper(n) == [ i \in 1..Len(n) |-> UpperB(n[i]) ]
Sections == << <<68,65,84,65>>, <<85,80,68,65,84,69>>, <<67,72,65,78,78,69,76>> >>     \* DATA, UPDATE, CHANNEL
TypeOf(nm) == LET h == { k \in 1..3 : Sections[k] = Upper(nm) } IN IF h = {} THEN -1 ELSE (CHOOSE k \in h : TRUE) - 1
\* index of the first partition of type t, 0 if there is none
FirstOf(parts, t) ==
  LET h == { k \in 1..Len(parts) : parts[k].t = t } IN IF h = {} THEN 0 ELSE CHOOSE k \in h : \A j \in h : k <= j
\* the partition a section name selects, 0 if none can be had
Selected(parts, nm) ==
  LET t == TypeOf(nm)  k == IF t < 0 THEN 0 ELSE FirstOf(parts, t) IN IF k = 0 THEN 0 ELSE IF parts[k].bad = 1 THEN 0 ELSE k

IsPrepared(st, nm) == \E i \in 1..Len(st) : st[i].sec = Upper(nm)
At(st, nm) == CHOOSE i \in 1..Len(st) : st[i].sec = Upper(nm)

\* results: [ok, st] and a value
Prepare(st, parts, nm) ==
  IF IsPrepared(st, nm) \/ Selected(parts, nm) = 0 THEN [ok |-> FALSE, st |-> st]
  ELSE [ok |-> TRUE, st |-> Append(st, [sec |-> Upper(nm), part |-> Selected(parts, nm), tree |-> parts[Selected(parts, nm)].tree])]
\* system file of a partition that reaches past its data: "dol", "app", "fst" or ""
Psys(p) == IF "psys" \in DOMAIN p THEN p.psys ELSE ""
\* the partition whose dol is hashed
DolOf(st, nm) == IF IsPrepared(st, nm) THEN st[At(st, nm)].part ELSE 0
DolHash(st, parts, nm) == IF DolOf(st, nm) = 0 THEN 0 ELSE IF Psys(parts[DolOf(st, nm)]) = "dol" THEN 0 ELSE DolOf(st, nm)
RECURSIVE Without(_, _, _)
Without(list, prefix, gone) ==
  LET kept == TLCEval(SelectSeq(list, LAMBDA e : e.k = "d" \/ Append(prefix, e.n) \notin gone))
  IN  TLCEval([ i \in 1..Len(kept) |-> IF kept[i].k = "d" THEN [kept[i] EXCEPT !.c = Without(kept[i].c, Append(prefix, kept[i].n), gone)] ELSE kept[i] ])
RemoveFiles(st, nm, gone) ==
  IF ~IsPrepared(st, nm) THEN [ok |-> FALSE, st |-> st]
  ELSE [ok |-> TRUE, st |-> [st EXCEPT ![At(st, nm)].tree = Without(st[At(st, nm)].tree, <<>>, gone)]]
\* all that extracting writes: files <<section, path, id, size>>
FilesOut(st) ==
  UNION { LET fs == TLCEval(FilesIn(st[i].tree, <<>>)) IN { << st[i].sec, fs[j].p, fs[j].f.id, fs[j].f.sz >> : j \in 1..Len(fs) } : i \in 1..Len(st) }
SysFiles == { "sys/boot.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol", "sys/fst.bin", "disc/header.bin", "disc/region.bin", "cert.bin", "tmd.bin", "ticket.bin" }
SysOut(st) == UNION { { << st[i].sec, f, st[i].part >> : f \in SysFiles } : i \in 1..Len(st) }

\* a name that is one ordinary file name
Plain(n) == n # <<>> /\ n # <<46>> /\ n # <<46,46>> /\ \A i \in 1..Len(n) : n[i] \notin {0, 47}
PathPlain(p) == \A i \in 1..Len(p) : Plain(p[i])
AllPlain(st) == \A f \in FilesOut(st) : PathPlain(f[2])
\* files whose recorded range is not all there
RECURSIVE Past(_)
Past(list) == \E i \in 1..Len(list) : IF list[i].k = "d" THEN Past(list[i].c) ELSE list[i].past > 0
AnyPast(st) == \E i \in 1..Len(st) : Past(st[i].tree)

\* listing with nesting: sequence of <<depth, name>>
RECURSIVE Listing(_, _)
Listing(list, depth) ==
  FlattenSeq([ i \in 1..Len(list) |-> << <<depth, list[i].n>> >> \o (IF list[i].k = "d" THEN Listing(list[i].c, depth + 1) ELSE <<>>) ])
=============================================================================
