------------------------------ MODULE FstEdit ------------------------------
(* State machine of editing one file table, starting empty (property C09).  *)
(* Every action is one public call; `last` is the observed call and result. *)
EXTENDS FstTree, TLC, Json

CONSTANTS NameSet,     \* names used for path parts and nodes
          MaxPath,     \* longest parent path
          MaxNodes, MaxDepth,
          Emit         \* TRUE: print every transition as JSON for replay

VARIABLES tree, last
vars == <<tree, last>>

PathsUpTo(n) == UNION { [1..k -> NameSet] : k \in 0..n }
NewNodes == { Dir(n, <<>>) : n \in NameSet } \cup { File(n, 1, 2) : n \in NameSet }

Init == tree = <<>> /\ last = [op |-> "init"]

Out(op, p, v, res, old, post) ==
  Emit => PrintT(<<"T", ToJson([pre |-> tree, op |-> op, p |-> p, v |-> v,
                                r |-> res, old |-> old, post |-> post])>>)

DoAdd(p, v) ==
  LET a == AddP(tree, p, v) IN
  /\ Size(a.t) <= MaxNodes /\ Depth(a.t) <= MaxDepth
  /\ tree' = a.t
  /\ last' = [op |-> "add", p |-> p, v |-> v, r |-> a.r, old |-> a.old, pre |-> tree]
  /\ Out("add", p, v, a.r, a.old, a.t)

DoRemove(p) ==
  LET a == RemoveP(tree, p) IN
  /\ tree' = a.t
  /\ last' = [op |-> "rm", p |-> p, r |-> a.r, pre |-> tree]
  /\ Out("rm", p, <<>>, IF a.r = <<>> THEN "none" ELSE "some", a.r, a.t)

DoFind(p) ==
  LET a == FindP(tree, p) IN
  /\ UNCHANGED tree
  /\ last' = [op |-> "find", p |-> p, r |-> a, pre |-> tree]
  /\ Out("find", p, <<>>, IF a = <<>> THEN "none" ELSE "some", a, tree)

Next == \/ \E p \in PathsUpTo(MaxPath), v \in NewNodes : DoAdd(p, v)
        \/ \E p \in PathsUpTo(MaxPath + 1) : DoRemove(p) \/ DoFind(p)
Spec == Init /\ [][Next]_vars
View == tree

----------------------------------------------------------------------------
(* C09 on the model.                                                        *)
InvSorted == Sorted(tree)
InvSortFixpoint == Resort(tree) = tree

Added == last.op = "add" /\ last.r # "err"
(* the node is there afterwards, under directories that match ignoring case *)
InvAdd ==
  Added => \E q \in Paths(tree) :
             /\ SamePathCI(q, Append(last.p, last.v.n)) /\ q[Len(q)] = last.v.n
             /\ FindP(tree, q) = << last.v >>
InvAddReturn ==
  Added => (last.r = "old" <=> \E q \in Paths(last.pre) : SamePathCI(q, Append(last.p, last.v.n)))
InvErr == (last.op = "add" /\ last.r = "err") =>
            /\ tree = last.pre
            /\ \E q \in Paths(tree) : PrefixCI(q, last.p) /\ FindP(tree, q)[1].k = "f"
(* frame: entries elsewhere are untouched, nothing but the path appears     *)
Frame(keep) == \A q \in keep : q \in DOMAIN AsMap(tree) /\ AsMap(tree)[q] = AsMap(last.pre)[q]
InvAddFrame ==
  Added => LET full == Append(last.p, last.v.n)
           IN /\ Frame({ q \in DOMAIN AsMap(last.pre) : ~PrefixCI(full, q) })
              /\ \A q \in DOMAIN AsMap(tree) : \/ q \in DOMAIN AsMap(last.pre)
                                              \/ PrefixCI(q, full)
InvRm ==
  last.op = "rm" =>
    /\ last.r = FindP(last.pre, last.p)
    /\ FindP(tree, last.p) = <<>>
    /\ Frame({ q \in DOMAIN AsMap(last.pre) : ~IsPrefix(last.p, q) \/ last.p = <<>> })
    /\ DOMAIN AsMap(tree) \subseteq DOMAIN AsMap(last.pre)
InvFind == last.op = "find" =>
             (last.r # <<>> <=> last.p \in Paths(tree)) /\ tree = last.pre
=============================================================================
