------------------------------ MODULE DirTrace ------------------------------
(* Judges images built from directories (C14, and C17 for rebuilds).        *)
EXTENDS ImageContract, Json, IOUtils
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == 8
Report(k, bad) == bad # {} => PrintT(<<"BAD", ToJson([i |-> k, bad |-> SetToSeq(bad)])>>)
Meta(d, p) == IF ~Has(p, "tick_diff") THEN {"partition_unreadable"} ELSE Clause("ticket", p.tick_diff = <<>>) \cup Clause("certificates", Has(p, "cert_diff") /\ p.cert_diff = <<>>)
C14(x) ==
  Clause("panic", x.img.res # "panic")
  \cup Clause("built_what_cannot_be_captured", x.expect = "err" => x.img.res # "ok")
  \cup Clause("refused_a_complete_directory", x.expect = "ok" => x.img.res = "ok")
  \cup (IF x.img.res # "ok" \/ x.expect = "err" THEN {} ELSE
        Clause("disc_header", \A j \in 1..Len(x.img.hdr_diff) : x.img.hdr_diff[j] \in LocationFields)
        \cup Clause("region", x.img.region)
        \cup Clause("one_data_partition", Len(x.img.table) = 1 /\ x.img.table[1][2] = 0)
        \cup Each(x, Contents) \cup Each(x, Meta) \cup Each(x, Hashes)
        \cup UNION { ReaderSees(DefOf(x, k), ReadBack(x, k)) : k \in Listed(x) }
        \cup Clause("depends_on_listing_order_or_place", x.same))
\* prog[j] = <<value, KiB written to the destination>>; up to 40 MiB may be on their way, and
\* the system files, hashes and gaps take less than 8 MiB and a 24th of the data
RECURSIVE Sum0(_, _)
Sum0(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum0(s, n - 1)
DirProgress(x) ==
  LET fs == Files(x.def.parts[1])
      p == x.prog
      data == \E k \in 1..Len(fs) : fs[k].f.sz > 0
      total == Sum0([ k \in 1..Len(fs) |-> fs[k].f.sz \div 1024 + 1 ], Len(fs))
      Near(v, w) == /\ v * total <= 100 * (w + 40960)
                    /\ (v + 1) * total >= 100 * (w - w \div 24 - 8192 - 40960)
  IN
  IF x.img.res # "ok" \/ x.expect = "err" THEN {}
  ELSE Clause("starts_at_0", p # <<>> /\ p[1][1] = 0) \cup Clause("never_decreases", \A j \in 1..(Len(p) - 1) : p[j][1] <= p[j + 1][1])
       \cup Clause("never_exceeds_100", \A j \in 1..Len(p) : p[j][1] <= 100) \cup Clause("ends_at_100", data => p # <<>> /\ p[Len(p)][1] = 100)
       \cup Clause("proportional", data => \A j \in 1..Len(p) : Near(p[j][1], p[j][2]))
Judge(x) == IF IOEnv.PROP = "C14" THEN C14(x) ELSE DirProgress(x)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
