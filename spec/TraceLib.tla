------------------------------ MODULE TraceLib ------------------------------
(* Common part of the specifications that judge observations recorded from  *)
(* the real code.  Obs is the recorded sequence (one JSON object per line); *)
(* lines are independent of each other, so they are consumed by Lanes       *)
(* interleaved chains.  A module instantiating this defines Judge(line):    *)
(* the set of names of the violated clauses.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == 8
Consumed == TLCGet("distinct") >= Len(Obs)
Report(i, bad) == bad # {} => PrintT(<<"BAD", ToJson([i |-> i, bad |-> SetToSeq(bad)])>>)
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
