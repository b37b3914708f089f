----------------------------- MODULE ImageTrace -----------------------------
(* Judges built images (one per line) against ImageContract.                *)
EXTENDS ImageContract, Json, IOUtils
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == 8
Report(k, bad) == bad # {} => PrintT(<<"BAD", ToJson([i |-> k, bad |-> SetToSeq(bad)])>>)
P == IOEnv.PROP
Judge(x) == CASE P = "C01" -> Builds(x) \cup C01(x)
              [] P = "C02" -> C02(x)
              [] P = "C03" -> C03(x)
              [] P = "C04" -> C04(x)
              [] P = "C13" -> C13(x)
              [] P = "C17" -> C17(x)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
