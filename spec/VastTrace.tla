----------------------------- MODULE VastTrace -----------------------------
(* Judges what was built of definitions near the limits of the format.      *)
EXTENDS Vast, TraceLib, IOUtils
VARIABLE i
RECURSIVE Expand(_)
Expand(ps) == IF ps = <<>> THEN <<>> ELSE [ j \in 1..ps[1].rep |-> ps[1] ] \o Expand(Tail(ps))
RECURSIVE Least0(_, _, _), Most0(_, _, _)
\* units taken by the partitions before k that were added
Least0(ps, adds, k) == IF k = 1 THEN 10 ELSE Least0(ps, adds, k - 1) + (IF adds[k - 1].ok = 1 THEN LeastUnits(ps[k - 1].files) ELSE 0)
Most0(ps, adds, k) == IF k = 1 THEN 10 ELSE Most0(ps, adds, k - 1) + MostUnits(ps[k - 1].files)
AddJudge(x, ps, k) ==
  LET cannot == Cannot(ps[k].files) \/ (Len(ps) < 100 /\ Least0(ps, x.adds, k) >= StartLimit)
      must == Must(ps[k].files) /\ (IF Len(ps) < 100 THEN Most0(ps, x.adds, k) < StartLimit ELSE k <= MaxParts)
  IN  Clause("accepted_what_cannot_be_represented", x.adds[k].ok = 1 => ~cannot)
      \cup Clause("refused_what_can_be_represented", must => x.adds[k].ok = 1)
PartJudge(p, d) ==
  IF p.ok = 0 THEN {"listed_partition_does_not_open"}
  ELSE Clause("files", Len(p.files) = Len(d.files) /\ \A j \in 1..Len(p.files) : p.files[j].ok = 1 /\ p.files[j].l = d.files[j].sz)
       \cup Clause("system_files", p.sys = 1) \cup Clause("type", p.t = d.t)
       \cup Clause("data_size", p.sz[2] = 0 /\ p.sz[1] <= MaxGroups /\ p.in = 1)
       \cup Clause("files_inside_and_apart", Len(p.files) = Len(d.files) =>
              /\ \A j \in 1..Len(p.files) : d.files[j].sz = <<0, 0>> \/ Leq(Sum(p.files[j].o, p.files[j].l), p.sz)
              /\ \A j, m \in 1..Len(p.files) : j # m => Leq(Sum(p.files[j].o, Sum(p.files[j].l, d.files[j].pad)), p.files[m].o) \/ Leq(Sum(p.files[m].o, Sum(p.files[m].l, d.files[m].pad)), p.files[j].o))
Units(p) == p.d + 64 * p.sz[1]
ImgJudge(x, ps) ==
  LET added == SelectSeq([ k \in 1..Len(ps) |-> k ], LAMBDA k : x.adds[k].ok = 1)
      im == x.img[1]
  IN  Clause("lists_what_was_added", im.n = Len(added))
      \cup Clause("region", im.region = 1)
      \cup (IF im.n # Len(added) THEN {} ELSE UNION { PartJudge(im.parts[j], ps[added[IF im.parts[j].ok = 1 THEN im.parts[j].k ELSE 1]]) : j \in 1..Len(im.parts) })
      \cup Clause("partitions_apart", \A j, m \in 1..Len(im.parts) : (j < m /\ im.parts[j].ok = 1 /\ im.parts[m].ok = 1) =>
             im.parts[j].at + Units(im.parts[j]) <= im.parts[m].at \/ im.parts[m].at + Units(im.parts[m]) <= im.parts[j].at)
(* progress: prog[k] = the distinct values reported for partition k, in     *)
(* order, as <<value, files asked for>>.  Sizes in KiB.                     *)
Kib(sz) == sz[1] * (GD \div 1024) + sz[2] \div 1024
RECURSIVE KibSum(_, _)
KibSum(fs, n) == IF n = 0 THEN 0 ELSE Kib(fs[n].sz) + KibSum(fs, n - 1)
ProgJudge(p, d) ==
  LET n == Len(d.files)  total == KibSum(d.files, n)
      Lo(k) == IF k = 0 THEN 0 ELSE IF d.ann = 1 THEN (100 * (KibSum(d.files, k - 1) \div 16)) \div (total \div 16 + 1) - 1 ELSE (100 * (k - 1)) \div n
      Hi(k) == IF d.ann = 1 THEN (100 * (KibSum(d.files, k) \div 16 + 1)) \div (total \div 16) + 1 ELSE (100 * k) \div n
  IN  IF p = <<>> THEN {"no_progress_reported"}
      ELSE Clause("starts_at_0", p[1][1] = 0)
           \cup Clause("never_decreases", \A j \in 1..(Len(p) - 1) : p[j][1] <= p[j + 1][1])
           \cup Clause("never_exceeds_100", \A j \in 1..Len(p) : p[j][1] <= 100)
           \cup Clause("ends_at_100", p[Len(p)][1] = 100)
           \cup Clause("proportional", \A j \in 1..Len(p) : p[j][1] >= Lo(p[j][2]) /\ p[j][1] <= Hi(p[j][2]))
C17(x) ==
  LET ps == Expand(x.def.parts) IN
  IF x.panic = 1 THEN {"panic"} ELSE UNION { IF x.adds[k].ok = 1 THEN ProgJudge(x.adds[k].prog, ps[k]) ELSE {} : k \in 1..Len(ps) }
\* C02, C13: what the bytes of the image contain
TreeJudge(t) ==
  IF t.ok = 0 THEN {"partition_unreadable"}
  ELSE IF IOEnv.PROP = "C02" THEN Clause("group_hashes", t.gbad = <<>>) \cup Clause("global_hash_table", t.hbad = <<>>) \cup Clause("unused_global_hashes", t.rest = 1)
  ELSE Clause("tmd_content_size", t.tsize = t.sz) \cup Clause("tmd_content_hash", t.thash = 1) \cup Clause("tmd_fake_signed", t.tsha0 = 0) \cup Clause("tmd_signature_zeroed", t.tsig = 1)
Built(x) == IF x.panic = 1 \/ x.fin = 0 THEN {} ELSE UNION { TreeJudge(x.trees[j]) : j \in 1..Len(x.trees) }
Judge(x) ==
  IF IOEnv.PROP \in {"C02", "C13"} THEN Built(x) ELSE
  IF IOEnv.PROP = "C17" THEN C17(x) ELSE
  LET ps == Expand(x.def.parts) IN
  IF x.panic = 1 THEN {"panic"}
  ELSE Clause("finishes", x.fin = 1)
       \cup UNION { AddJudge(x, ps, k) : k \in 1..Len(ps) }
       \cup (IF x.fin = 0 THEN {} ELSE IF x.img = <<>> THEN {"does_not_open"} ELSE ImgJudge(x, ps))
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
