-------------------------- MODULE PartReaderTrace --------------------------
(* Judges recorded histories of reads (C07; PROP=C08: only opened files and *)
(* windows).                                                                *)
EXTENDS PartReader, TraceLib
VARIABLE i
Whole(pt, p) == [base |-> <<0, 0>>, len |-> <<>>, size |-> pt.size, pos |-> p]
\* operations on a file or window: number of the first unexplained one
RECURSIVE Sub(_, _, _, _)
Sub(s, os, rs, k) ==
  IF k > Len(os) THEN 0
  ELSE LET a == After(s, os[k], rs[k]) IN IF a = {} THEN k ELSE Sub(CHOOSE y \in a : TRUE, os, rs, k + 1)
DolNeeds == 228
One(x, op, r, poss) ==
  LET p == op[2]
      pt == x.img.parts[p]
      cut(at, m) == Range(at, m, pt.size, r)
      moved == IF r.after = <<>> THEN {} ELSE {[poss EXCEPT ![p] = r.after]}
      \* a system file: refused if it or what is needed to know its size is not all there
      part(at, m, hdr) == cut(at, m) \/ (r.e /\ (Room(at, pt.size) < m \/ Room(at, pt.size) < hdr))
      sys(ok) == IF ok THEN moved ELSE {}
      win(b, l) == Sub([base |-> b, len |-> l, size |-> pt.size, pos |-> <<0, 0>>], IF op[1] = "file" THEN op[4] ELSE op[5], r.subs, 1) = 0
  IN CASE op[1] = "s" -> { [poss EXCEPT ![p] = s.pos] : s \in After(Whole(pt, poss[p]), op[3], r) }
       [] op[1] = "vec" -> IF Range(op[3], op[4], pt.size, r) THEN {poss} ELSE {}
       [] op[1] = "bi2" -> sys(part(<<0, 1088>>, 8192, 0))
       [] op[1] = "app" -> sys(part(<<0, 9280>>, 32 + pt.app[1] + pt.app[2], 28))
       [] op[1] = "dol" -> sys(part(pt.dol.at, pt.dol.off + FoldSeq(LAMBDA a, b : a + b, 0, pt.dol.sizes), DolNeeds))
       [] op[1] \in {"tmd", "certs"} -> IF (IF r.e THEN r.f ELSE r.ok) THEN {poss} ELSE {}
       [] op[1] = "meta" -> IF r.ok THEN {poss} ELSE {}
       \* a path that names no file
       [] op[1] = "nofile" -> IF r.e THEN {poss} ELSE {}
       [] op[1] = "reopen" -> sys(r.e => r.f)
       [] op[1] = "file" -> sys(~r.e /\ win(pt.files[op[3]].at, pt.files[op[3]].len))
       [] op[1] = "win" -> sys(win(op[3], op[4]))
RECURSIVE Run(_, _, _)
Run(x, k, poss) ==
  IF k > Len(x.ops) THEN 0
  ELSE LET a == One(x, x.ops[k], x.res[k], poss) IN IF a = {} THEN k ELSE Run(x, k + 1, CHOOSE y \in a : TRUE)
Judge(x) == LET k == Run(x, 1, x.init) IN IF k = 0 THEN {} ELSE { x.ops[k][1] \o "_at_" \o ToString(k) }
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
