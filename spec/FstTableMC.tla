----------------------------- MODULE FstTableMC -----------------------------
(* (a) every tree reachable by editing with <= MaxNodes nodes encodes to a  *)
(*     well-formed table (C10 on the model);                                *)
(* (b) generator of those trees with varied names and offsets for the       *)
(*     implementation.                                                      *)
EXTENDS FstEdit, FstTable
MCNames == { <<97>>, <<66>>, <<227,130,189>> }
\* trees of the edit machine carry o=1,l=2: give every file boundary values
Val(i) == << <<0,0>>, <<0,1>>, <<65535,65535>>, <<32768,0>>, <<16384,1>>, <<0,65535>>, <<1,0>> >>[1 + (i % 7)]
RECURSIVE Stamp(_, _)
Stamp(list, i) ==
  IF list = <<>> THEN <<>>
  ELSE LET h == Head(list) IN
       << IF h.k = "d" THEN Dir(h.n, Stamp(h.c, i + 1)) ELSE File(h.n, Val(i), Val(i + 3)) >>
       \o Stamp(Tail(list), i + 2)
InvRoundTrip == \A i \in 0..6 : LET t == Stamp(tree, i) IN WellFormed(Encode(t), t)
EmitTree == \A i \in 0..6 : PrintT(<<"T", ToJson([tree |-> Stamp(tree, i)])>>)
=============================================================================
