---------------------------- MODULE IoWindowSim ----------------------------
(* Long random operation sequences on random windows, over sources that     *)
(* transfer short counts or fail. unit: what one byte of the model stands   *)
(* for in the replay (big buffers behave like small ones).                  *)
EXTENDS IoWindow, TLC, Json
CONSTANT MaxOps
VARIABLES n, ops, c
Ofs == (0..30) \cup {Huge}
RndBytes == { <<>>, <<201>>, <<202, 203>>, <<204, 205, 206, 207, 208>>, [ j \in 1..20 |-> 220 + j ] }
Init == n = 0 /\ ops = <<>> /\ c = [start |-> 0]
Op(k, o, d, m, b) ==
  CASE k = 1 -> <<"start", o>> [] k \in 2..3 -> <<"cur", d>> [] k = 4 -> <<"end", d>> [] k \in 5..6 -> <<"read", m>>
    [] k \in 7..8 -> <<"exact", m>> [] k = 9 -> <<"write", b>> [] k = 10 -> <<"wall", b>> [] k = 11 -> <<"pos">> [] OTHER -> <<"start", o % 8>>
Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \E k \in {RandomElement(1..12)}, o \in {RandomElement(Ofs)}, d \in {RandomElement(-9..9)}, m \in {RandomElement({0, 1, 2, 3, 5, 8, 13, 40})}, b \in {RandomElement(RndBytes)} :
       ops' = TLCEval(Append(ops, Op(k, IF k = 12 /\ o = Huge THEN 1 ELSE o, d, m, b)))
  /\ \E st \in {RandomElement({0, 1, 5, 17})}, l \in {RandomElement({-1, 0, 1, 7, 12, 30, Huge})}, sn \in {RandomElement({0, 6, 20, 40})}, at \in {RandomElement({0, 3, 100})},
        hi \in {RandomElement(0..3)}, sh \in {RandomElement({0, 0, 0, 1, 2})}, fl \in {RandomElement({-1, -1, -1, 1, 2, 4, 7, 11})}, un \in {RandomElement({1, 1, 1, 256, 4096, 32768, 65536, 31744})} :
       c' = IF n = 0 THEN [w |-> [start |-> st, len |-> l, src |-> [ j \in 1..sn |-> 10 + j ], pos |-> 0], at |-> at, hi |-> hi, short |-> sh, fault |-> IF un = 1 THEN fl ELSE -1, unit |-> un] ELSE c
  /\ n' = MaxOps => PrintT(<<"T", ToJson([w |-> c'.w, at |-> c'.at, hi |-> c'.hi, short |-> c'.short, fault |-> c'.fault, unit |-> c'.unit, ops |-> ops'])>>)
Spec == Init /\ [][Next]_<<n, ops, c>>
=============================================================================
