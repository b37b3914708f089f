------------------------------ MODULE FstWalk ------------------------------
(* Traversals of a file table with callbacks (property C18).                *)
(* A plan says what the callback does at its i-th call: "keep", one of the  *)
(* renames "ren" (longer), "alt" (same length), "flip" (case only), "nil"   *)
(* (no name at all), "set" (change offset/length of a file), "fill" (give a *)
(* directory another file, turn a file into a directory with a file),       *)
(* "drop" (empty a directory), "stop" (return an error).  Calls beyond the  *)
(* plan keep.                                                               *)
EXTENDS FstTree

At(plan, i) == IF i <= Len(plan) THEN plan[i] ELSE "keep"
Flip(b) == IF b \in 65..90 THEN b + 32 ELSE IF b \in 97..122 THEN b - 32 ELSE b
NewName(n, what, i) ==
  CASE what = "ren"  -> <<120>> \o n \o <<48 + (i % 10)>>      \* x<old><digit>
    [] what = "alt"  -> [ j \in 1..Len(n) |-> 113 ]
    [] what = "flip" -> [ j \in 1..Len(n) |-> Flip(n[j]) ]
    [] what = "nil"  -> <<>>
NewO(i) == 1000 + i
NewL(i) == 7 * i + 1
Renames == {"ren", "alt", "flip", "nil"}
Extra(i) == File(<<102>>, NewO(i), NewL(i))

Apply(v, what, i) ==
  CASE what \in Renames -> IF v.k = "d" THEN Dir(NewName(v.n, what, i), v.c) ELSE File(NewName(v.n, what, i), v.o, v.l)
    [] what = "set" -> IF v.k = "d" THEN v ELSE File(v.n, NewO(i), NewL(i))
    [] what = "fill" -> IF v.k = "d" THEN Dir(v.n, Append(v.c, Extra(i))) ELSE Dir(v.n, <<Extra(i)>>)
    [] what = "drop" -> IF v.k = "d" THEN Dir(v.n, <<>>) ELSE v
    [] OTHER -> v

(* Result: t - the list afterwards, vis - the calls made (path and kind),   *)
(* i - calls made so far, stop - whether an error ended the walk.           *)
RECURSIVE MutWalk(_, _, _, _)
MutWalk(list, prefix, plan, i0) ==
  IF list = <<>> THEN [t |-> <<>>, vis |-> <<>>, i |-> i0, stop |-> FALSE]
  ELSE LET h  == Head(list)
           i  == i0 + 1
           w  == At(plan, i)
           me == << [p |-> Append(prefix, h.n), k |-> h.k] >>
       IN  IF w = "stop" THEN [t |-> list, vis |-> me, i |-> i, stop |-> TRUE]
           ELSE LET v  == Apply(h, w, i)
                    sub == IF v.k = "d" THEN MutWalk(v.c, Append(prefix, v.n), plan, i)
                           ELSE [t |-> <<>>, vis |-> <<>>, i |-> i, stop |-> FALSE]
                    v2 == IF v.k = "d" THEN Dir(v.n, sub.t) ELSE v
                IN  IF sub.stop
                    THEN [t |-> <<v2>> \o Tail(list), vis |-> me \o sub.vis, i |-> sub.i, stop |-> TRUE]
                    ELSE LET r == MutWalk(Tail(list), prefix, plan, sub.i)
                         IN  [t |-> <<v2>> \o r.t, vis |-> me \o sub.vis \o r.vis,
                              i |-> r.i, stop |-> r.stop]

(* The serialising walk calls back for files only and may set offset and    *)
(* length ("set") or stop.                                                  *)
RECURSIVE SerWalk(_, _, _, _)
SerWalk(list, prefix, plan, i0) ==
  IF list = <<>> THEN [t |-> <<>>, vis |-> <<>>, i |-> i0, stop |-> FALSE]
  ELSE LET h == Head(list) IN
       IF h.k = "f"
       THEN LET i  == i0 + 1
                w  == At(plan, i)
                me == << [p |-> Append(prefix, h.n), k |-> "f"] >>
            IN IF w = "stop" THEN [t |-> list, vis |-> me, i |-> i, stop |-> TRUE]
               ELSE LET v == Apply(h, IF w = "set" THEN "set" ELSE "keep", i)
                        r == SerWalk(Tail(list), prefix, plan, i)
                    IN  [t |-> <<v>> \o r.t, vis |-> me \o r.vis, i |-> r.i, stop |-> r.stop]
       ELSE LET sub == SerWalk(h.c, Append(prefix, h.n), plan, i0)
                v   == Dir(h.n, sub.t)
            IN IF sub.stop THEN [t |-> <<v>> \o Tail(list), vis |-> sub.vis, i |-> sub.i, stop |-> TRUE]
               ELSE LET r == SerWalk(Tail(list), prefix, plan, sub.i)
                    IN  [t |-> <<v>> \o r.t, vis |-> sub.vis \o r.vis, i |-> r.i, stop |-> r.stop]

----------------------------------------------------------------------------
(* C18 on the model.                                                        *)
Stops(plan) == { i \in 1..Len(plan) : plan[i] = "stop" }
FirstStop(plan, total) == LET s == { i \in Stops(plan) : i <= total }
                          IN  IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
WalkOk(tree, plan) ==
  LET w == Walk(tree, <<>>)
      m == MutWalk(tree, <<>>, plan, 0)
      s == FirstStop(plan, m.i)
      w2 == Walk(m.t, <<>>)
      same == \A i \in 1..Len(plan) : plan[i] \notin {"fill", "drop"}
  IN  /\ m.stop = (s # 0)
      /\ Len(m.vis) = m.i
      /\ (m.stop => m.i = s)
      \* what the table contains afterwards has been called for once each, in order, with the
      \* final name of each ancestor
      /\ ~m.stop => Len(m.vis) = Len(w2)
      /\ Len(m.vis) <= Len(w2)
      /\ \A i \in 1..Len(m.vis) : Front(m.vis[i].p) = Front(w2[i].p)
      /\ \A i \in 1..Len(m.vis) : At(plan, i) \in {"keep", "stop"} => m.vis[i].p = w2[i].p /\ m.vis[i].k = w2[i].v.k
      \* when the shape isn't changed: every node of the table as it was, with its original name
      /\ same =>
           /\ Len(w2) = Len(w)
           /\ Len(m.vis) = (IF s = 0 THEN Len(w) ELSE s)
           /\ \A i \in 1..Len(m.vis) : m.vis[i].k = w[i].v.k /\ Last(m.vis[i].p) = Last(w[i].p)
           /\ \A i \in 1..Len(w) : (i > Len(m.vis) \/ At(plan, i) \in {"keep","stop"}) => Last(w2[i].p) = Last(w[i].p)
SerOk(tree, plan) ==
  LET f == FilesOf(tree)
      m == SerWalk(tree, <<>>, plan, 0)
      s == FirstStop(plan, Len(f))
      g == FilesOf(m.t)
  IN  /\ m.stop = (s # 0)
      /\ Len(m.vis) = (IF s = 0 THEN Len(f) ELSE s)
      /\ \A i \in 1..Len(m.vis) : m.vis[i].p = f[i].p
      /\ Paths(m.t) = Paths(tree)
      /\ \A i \in 1..Len(f) :
           g[i].v = IF i < Len(m.vis) + (IF m.stop THEN 0 ELSE 1) /\ At(plan, i) = "set"
                    THEN File(f[i].v.n, NewO(i), NewL(i)) ELSE f[i].v
=============================================================================
