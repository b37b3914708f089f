-------------------------------- MODULE Nest --------------------------------
(* Deeply nested tables.  A chain of d directories inside each other, bare, *)
(* with a file at the bottom, or with a file before and after the           *)
(* directory on every level.  GEN: emits the scenarios.  Otherwise judges   *)
(* what the code made of them: up to Supported levels a chain is serialised *)
(* and parsed like any other table; a deeper one may be refused, but is     *)
(* never altered and never ends the process.                                *)
EXTENDS Integers, Sequences, TLC, TraceLib
VARIABLE i
Supported == 1000
Depths == {1, 2, 3, 17, 64, 100, 255, 256, 257, 512, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1100, 2000, 5000}
RawOnly == {20000, 70000, 200000}
Shapes == {"bare", "file", "sib"}
Scenarios == [ what: {"ser", "raw"}, d: Depths, shape: Shapes ] \cup [ what: {"raw"}, d: RawOnly, shape: Shapes ]

Judge(x) ==
  Clause("refused_a_supported_nesting", x.d <= Supported => ~x.err)
  \cup Clause("altered_the_tree", x.err \/ x.equal)
  \cup (IF x.what = "ser" THEN Clause("written_but_not_readable", x.err \/ x.read) ELSE {})

Gen == IOEnv.GEN = "1"
Init == IF Gen THEN i = 0 /\ \A s \in Scenarios : PrintT(<<"T", ToJson(s)>>)
        ELSE i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == ~Gen /\ i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
