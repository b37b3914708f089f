------------------------------ MODULE DirTree ------------------------------
(* A directory on the user's file system that an image is built from, and   *)
(* what has to become of it.                                                *)
(*  tree  sequence of [k |-> "d", n, c] and [k |-> "f", n, id, sz] in the   *)
(*        order in which the entries were created; n are the bytes of the   *)
(*        name (any bytes but 0 and '/').  at says how the entry exists:    *)
(*        "here", "link" (a symbolic link to it), "rel" (a relative one);   *)
(*        "gone" (a link to nothing) and "fifo" cannot be captured          *)
EXTENDS DiscDef

\* is n well-formed UTF-8 (for the byte patterns the generator uses)
IsUtf8(n) ==
  LET st == { i \in 1..Len(n) : n[i] \notin 128..191 }
      Need(b) == CASE b < 128 -> 0 [] b \in 194..223 -> 1 [] b \in 224..239 -> 2 [] b \in 240..244 -> 3 [] OTHER -> -1
      Cont(i) == LET rest == { j \in st : j > i } IN (IF rest = {} THEN Len(n) ELSE (CHOOSE j \in rest : \A m \in rest : j <= m) - 1) - i
  IN  n # <<>> /\ 1 \in st /\ \A i \in st : Need(n[i]) = Cont(i)

RECURSIVE HasFiles(_)
HasFiles(e) == e.k = "f" \/ \E i \in 1..Len(e.c) : HasFiles(e.c[i])
\* without directories that have no files anywhere below
RECURSIVE Prune(_)
Prune(list) ==
  LET keep == TLCEval(SelectSeq(list, LAMBDA e : HasFiles(e)))
  IN  TLCEval([ i \in 1..Len(keep) |-> IF keep[i].k = "d" THEN [k |-> "d", n |-> keep[i].n, c |-> Prune(keep[i].c)] ELSE keep[i] ])
RECURSIVE Sorted(_)
Sorted(list) ==
  LET o == TLCEval(SortSeq(list, LAMBDA x, y : Cmp(x.n, y.n) = -1))
  IN  TLCEval([ i \in 1..Len(o) |-> IF o[i].k = "d" THEN [k |-> "d", n |-> o[i].n, c |-> Sorted(o[i].c)] ELSE o[i] ])
\* names that a disc cannot hold side by side or at all
RECURSIVE Clash(_)
Clash(list) ==
  \/ \E i, j \in 1..Len(list) : i < j /\ SameName(list[i].n, list[j].n)
  \/ \E i \in 1..Len(list) : list[i].k = "d" /\ Clash(list[i].c)
RECURSIVE BadNamed(_)
BadNamed(list) ==
  \E i \in 1..Len(list) : \/ ~IsUtf8(list[i].n) \/ ~Representable(list[i].n)
                          \/ (list[i].k = "d" /\ BadNamed(list[i].c))
RECURSIVE NotFiles(_)
NotFiles(list) == \E i \in 1..Len(list) : \/ ("at" \in DOMAIN list[i] /\ list[i].at \in {"gone", "fifo"})
                                          \/ (list[i].k = "d" /\ NotFiles(list[i].c))
Capturable(tree) == ~Clash(tree) /\ ~BadNamed(tree)
(* "err": the build has to fail; "ok": it has to succeed; "any": only       *)
(* directories without files are in the way, so both are acceptable.        *)
Expect(tree, missing) ==
  IF missing # "" \/ ~Capturable(Prune(tree)) \/ NotFiles(tree) THEN "err"
  ELSE IF ~Capturable(tree) THEN "any" ELSE "ok"
Captured(tree) == Sorted(Prune(tree))
\* what pruning and sorting keep: exactly the files
RECURSIVE FileSet(_, _)
FileSet(list, prefix) ==
  UNION { IF list[i].k = "f" THEN { <<Append(prefix, list[i].n), list[i].id>> } ELSE FileSet(list[i].c, Append(prefix, list[i].n)) : i \in 1..Len(list) }
=============================================================================
