----------------------------- MODULE TripTrace -----------------------------
(* Judges copies of images, and images extracted and rebuilt twice (C16);   *)
(* with PROP C17 the progress of the rebuilds.                              *)
EXTENDS ImageContract, Json, IOUtils
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == 8
Report(k, bad) == bad # {} => PrintT(<<"BAD", ToJson([i |-> k, bad |-> SetToSeq(bad)])>>)
Meta(d, p) ==
  IF ~Has(p, "tick_diff") THEN {"partition_unreadable"}
  ELSE Clause("ticket", p.tick_diff = <<>>) \cup Clause("certificates", Has(p, "cert_diff") /\ p.cert_diff = <<>>)
       \cup Clause("tmd", Has(p, "tmd_diff") /\ \A j \in 1..Len(p.tmd_diff) : p.tmd_diff[j] \in Signature \cup FakeSign \cup ContentSizeHash)
Same(x) ==
  Clause("region", x.img.region) \cup Clause("one_data_partition", Len(x.img.table) = 1 /\ x.img.table[1][2] = 0)
  \cup Each(x, Contents) \cup Each(x, Meta) \cup Each(x, Hashes)
  \cup UNION { ReaderSees(DefOf(x, k), ReadBack(x, k)) : k \in Listed(x) }
Copy(x) ==
  Clause("panic", x.img.res # "panic") \cup Clause("source_changed", x.source_same)
  \cup Clause("success_over_failure", x.expect = "err" => x.img.res # "ok")
  \cup Clause("refused", x.expect = "ok" => x.img.res = "ok")
  \cup (IF x.img.res # "ok" \/ x.expect = "err" THEN {} ELSE Same(x) \cup Clause("disc_header", x.img.hdr_diff = <<>>))
Failed(x) == \E k \in 1..Len(x.steps) : x.steps[k][2] # "ok"
Trip(x) ==
  Clause("panic", \A k \in 1..Len(x.steps) : x.steps[k][2] # "panic")
  \cup Clause("success_over_failure", x.expect = "err" => Failed(x))
  \cup Clause("refused", x.expect = "ok" => ~Failed(x))
  \* the command line tool rebuilds the same
  \cup Clause("tool_differs", x.cli_same) \cup Clause("tool_result", x.cli = "" \/ (Len(x.steps) >= 2 /\ x.cli = x.steps[2][2]))
  \cup (IF x.img.res # "ok" \/ x.expect = "err" THEN {} ELSE
        Same(x) \cup Clause("disc_header", \A j \in 1..Len(x.img.hdr_diff) : x.img.hdr_diff[j] \in LocationFields)
        \cup Clause("second_time_fails", x.again)
        \cup Clause("not_reproduced", x.len_same /\ \A j \in 1..Len(x.diff) : x.diff[j] \in LocationFields))
Values(v, data) ==
  Clause("starts_at_0", v # <<>> /\ v[1] = 0) \cup Clause("never_decreases", \A j \in 1..(Len(v) - 1) : v[j] <= v[j + 1])
  \cup Clause("never_exceeds_100", \A j \in 1..Len(v) : v[j] <= 100) \cup Clause("ends_at_100", data => v # <<>> /\ v[Len(v)] = 100)
TripProgress(x) ==
  IF Failed(x) \/ x.expect = "err" THEN {}
  ELSE LET data == \E j \in 1..Len(Files(x.def.parts[1])) : Files(x.def.parts[1])[j].f.sz > 0 IN
       UNION { Values(x.prog[k], data) : k \in 1..Len(x.prog) }
       \* what the command line tool prints, if it prints any
       \cup (IF x.cli # "ok" \/ x.cliprog = <<>> THEN {} ELSE { "tool_" \o c : c \in Values(x.cliprog, data) })
\* the tools report what a build reports: no room at the destination (C05), something missing (C14)
Reported(x) ==
  IF x.kind # "trip" THEN {}
  ELSE IF IOEnv.PROP = "C05" THEN Clause("tools_succeed_without_room", \A k \in 1..Len(x.full) : x.full[k] = "err")
  ELSE Clause("tools_succeed_without_a_required_file", \A k \in 2..Len(x.lacks) : x.lacks[k] = "err")
Judge(x) == IF IOEnv.PROP \in {"C05", "C14"} THEN Reported(x) ELSE IF IOEnv.PROP = "C17" THEN (IF x.kind = "trip" THEN TripProgress(x) ELSE {}) ELSE IF x.kind = "copy" THEN Copy(x) ELSE Trip(x)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
