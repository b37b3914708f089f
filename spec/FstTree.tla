------------------------------ MODULE FstTree ------------------------------
(* The file system table as an abstract tree: what find / add / remove /    *)
(* fix_ordering / traversal mean.                                           *)
(* Node: [k |-> "d", n |-> name, c |-> Seq(Node)]                           *)
(*    or [k |-> "f", n |-> name, o |-> offset in 4-byte units, l |-> length]*)
EXTENDS Names

Dir(n, c)     == [k |-> "d", n |-> n, c |-> c]
File(n, o, l) == [k |-> "f", n |-> n, o |-> o, l |-> l]

RECURSIVE Size(_)
Size(list) == IF list = <<>> THEN 0
              ELSE 1 + (IF Head(list).k = "d" THEN Size(Head(list).c) ELSE 0) + Size(Tail(list))

RECURSIVE Depth(_)
Depth(list) == IF list = <<>> THEN 0
               ELSE LET h == 1 + (IF Head(list).k = "d" THEN Depth(Head(list).c) ELSE 0)
                        t == Depth(Tail(list))
                    IN  IF h > t THEN h ELSE t

RECURSIVE Sorted(_)
Sorted(list) ==
  /\ \A i \in 1..(Len(list) - 1) : Cmp(list[i].n, list[i + 1].n) = -1
  /\ \A i \in 1..Len(list) : list[i].k = "d" => Sorted(list[i].c)

----------------------------------------------------------------------------
(* Lookup is by exact name; the result is <<>> or <<node>>.                 *)
IdxExact(list, name) ==
  LET hits == { i \in 1..Len(list) : list[i].n = name }
  IN  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

RECURSIVE FindP(_, _)
FindP(list, path) ==
  IF path = <<>> THEN <<>>
  ELSE LET i == IdxExact(list, Head(path))
       IN  IF i = 0 THEN <<>>
           ELSE IF Len(path) = 1 THEN << list[i] >>
           ELSE IF list[i].k = "f" THEN <<>>
           ELSE FindP(list[i].c, Tail(path))

(* Removal: [r |-> <<>> or <<node>>, t |-> tree afterwards].                *)
RECURSIVE RemoveP(_, _)
RemoveP(list, path) ==
  IF path = <<>> THEN [r |-> <<>>, t |-> list]
  ELSE LET i == IdxExact(list, Head(path))
       IN  IF i = 0 THEN [r |-> <<>>, t |-> list]
           ELSE IF Len(path) = 1
                THEN [r |-> << list[i] >>, t |-> RemoveAt(list, i)]
           ELSE IF list[i].k = "f" THEN [r |-> <<>>, t |-> list]
           ELSE LET s == RemoveP(list[i].c, Tail(path))
                IN  [r |-> s.r, t |-> [list EXCEPT ![i] = Dir(list[i].n, s.t)]]

(* Addition into a sorted tree.  r is "new", "old" (with the replaced node  *)
(* in old) or "err" (path runs through a file; nothing changes).            *)
IdxCI(list, name) ==
  LET hits == { i \in 1..Len(list) : SameName(list[i].n, name) }
  IN  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE
InsPos(list, name) == 1 + Cardinality({ i \in 1..Len(list) : Cmp(list[i].n, name) = -1 })

RECURSIVE AddP(_, _, _)
AddP(list, path, node) ==
  IF path = <<>>
  THEN LET i == IdxCI(list, node.n)
       IN  IF i # 0
           THEN [r |-> "old", old |-> << list[i] >>, t |-> [list EXCEPT ![i] = node]]
           ELSE [r |-> "new", old |-> <<>>, t |-> InsertAt(list, InsPos(list, node.n), node)]
  ELSE LET i == IdxCI(list, Head(path))
       IN  IF i = 0
           THEN LET s == AddP(<<>>, Tail(path), node)
                IN  [r |-> s.r, old |-> s.old,
                     t |-> InsertAt(list, InsPos(list, Head(path)), Dir(Head(path), s.t))]
           ELSE IF list[i].k = "f" THEN [r |-> "err", old |-> <<>>, t |-> list]
           ELSE LET s == AddP(list[i].c, Tail(path), node)
                IN  [r |-> s.r, old |-> s.old, t |-> [list EXCEPT ![i] = Dir(list[i].n, s.t)]]

(* Re-sorting: any order is a valid outcome among names equal ignoring      *)
(* case; this is the one for trees without such duplicates.                 *)
RECURSIVE Resort(_)
Resort(list) ==
  LET ord == SortSeq(list, LAMBDA x, y : Cmp(x.n, y.n) = -1)
  IN  [ i \in 1..Len(ord) |-> IF ord[i].k = "d" THEN Dir(ord[i].n, Resort(ord[i].c)) ELSE ord[i] ]

----------------------------------------------------------------------------
(* Pre-order traversal: sequence of [p |-> full path, v |-> node].          *)
RECURSIVE Walk(_, _)
Walk(list, prefix) ==
  IF list = <<>> THEN <<>>
  ELSE LET h == Head(list)
           p == Append(prefix, h.n)
       IN  << [p |-> p, v |-> h] >>
           \o (IF h.k = "d" THEN Walk(h.c, p) ELSE <<>>)
           \o Walk(Tail(list), prefix)

FilesOf(list) == SelectSeq(Walk(list, <<>>), LAMBDA e : e.v.k = "f")
FileCount(list) == Len(FilesOf(list))
PathSet(w) == { w[i].p : i \in 1..Len(w) }
Paths(list) == PathSet(Walk(list, <<>>))
FilePaths(list) == PathSet(FilesOf(list))
DirPaths(list) == { <<>> } \cup PathSet(SelectSeq(Walk(list, <<>>), LAMBDA e : e.v.k = "d"))

(* The tree seen as a finite map from path (as stored) to entry.            *)
Entry(v) == IF v.k = "d" THEN [k |-> "d"] ELSE [k |-> "f", o |-> v.o, l |-> v.l]
AsMap(list) == LET w == Walk(list, <<>>)
               IN  [ p \in { w[i].p : i \in 1..Len(w) } |->
                       Entry(w[CHOOSE i \in 1..Len(w) : w[i].p = p].v) ]

(* Path prefix test, ignoring case.                                         *)
SamePathCI(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameName(a[i], b[i])
PrefixCI(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : SameName(a[i], b[i])
=============================================================================
