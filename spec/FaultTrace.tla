----------------------------- MODULE FaultTrace -----------------------------
(* Judges builds onto a misbehaving destination (C05) and what an           *)
(* interrupted build leaves behind (C06).                                   *)
(*  C05 line: [def, n, base, out], out: outcomes of one build per fault,    *)
(*      aggregated: [f, op, res, same, n, first]                            *)
(*  C06 line: a partition the reader could open after some prefix of the    *)
(*      writes: def.parts = << its definition >>, img as in ImageContract   *)
EXTENDS ImageContract, Json, IOUtils
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == 8
Report(k, bad) == bad # {} => PrintT(<<"BAD", ToJson([i |-> k, bad |-> SetToSeq(bad)])>>)

Fatal == { "err", "eof", "block", "wzero", "dead", "zero" }
Benign == { "intr", "short", "bumpy" }
OutcomeOk(o) ==
  CASE o.op = "none" -> o.res = "ok" /\ o.same
    [] o.f \in Fatal -> o.res = "err"
    [] o.f \in Benign -> o.res = "ok" /\ o.same
Describe(o) == o.f \o "_on_" \o o.op \o "_gives_" \o o.res
C05(x) == Clause("undisturbed_build", x.base = "ok")
          \cup { Describe(o) : o \in { x.out[j] : j \in { j \in 1..Len(x.out) : ~OutcomeOk(x.out[j]) } } }
C05def(x) == Clause("no_panic", x.img.res # "panic")
             \cup Clause("failing_definition_reported_as_success",
                         \A k \in 1..Len(x.img.adds) : MustFail(x.def.parts[k]) => ~x.img.adds[k])

Crashed(d, p) == Contents(d, p) \cup Hashes(d, p)
C06(x) == Each(x, Crashed)
          \cup UNION { LET r == ReadBack(x, k) IN
                       IF ~r.ok THEN {"files_unreadable"} ELSE Clause("files", SameTree(DefOf(x, k).tree, r.tree, FALSE)) : k \in Listed(x) }
P == IOEnv.PROP
Judge(x) == CASE P = "C05" -> C05(x) [] P = "C05def" -> C05def(x) [] P = "C06" -> C06(x)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
