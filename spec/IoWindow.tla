------------------------------ MODULE IoWindow ------------------------------
(* A window onto a seekable stream.                                         *)
(*   w = [start, len, src, pos]: byte 0 of the window is byte start of the  *)
(*   source (src, a sequence of bytes); len = -1: unbounded                 *)
(* After(w, op, r): the window states possible after operation op returned  *)
(* r = [e, v, d, f] (error?, number, bytes, did the source fail meanwhile?);*)
(* empty if that result is not allowed.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Huge == 1000000000          \* stands for positions near 2^63 and 2^64
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
Left(w)  == IF w.len = -1 \/ w.len >= Huge THEN Huge ELSE Greater(0, w.len - w.pos)
Avail(w) == Greater(0, Lesser(Left(w), Len(w.src) - w.start - w.pos))
Slice(w, n) == SubSeq(w.src, w.start + w.pos + 1, w.start + w.pos + n)
At(w, p) == [w EXCEPT !.pos = p]
\* the source after writing b at absolute position p
Over(src, p, b) ==
  IF b = <<>> \/ p >= Huge \div 2 THEN src      \* such far bytes are not recorded
  ELSE LET pad == IF p > Len(src) THEN src \o [ j \in 1..(p - Len(src)) |-> 0 ] ELSE src
       IN  SubSeq(pad, 1, p) \o b \o SubSeq(pad, p + Len(b) + 1, Len(pad))
Put(w, b) == [w EXCEPT !.pos = w.pos + Len(b), !.src = Over(w.src, w.start + w.pos, b)]

Seek(w, t, r) ==
  IF t < 0 THEN (IF r.e THEN {w} ELSE IF r.v = 0 THEN {At(w, 0)} ELSE {})
  \* (r.v = -1: some such position)
  ELSE IF t >= Huge \div 2 THEN (IF r.e THEN {w} ELSE IF r.v = -1 THEN {At(w, t)} ELSE {})
  ELSE IF r.e THEN (IF r.f THEN {w} ELSE {})
  ELSE IF r.v = t THEN {At(w, t)} ELSE {}

After(w, op, r) ==
  CASE op[1] = "start" -> Seek(w, op[2], r)
    [] op[1] = "cur"   -> Seek(w, w.pos + op[2], r)
    \* without a length there is no end to be relative to: refused, or whatever it says
    [] op[1] = "end"   -> IF w.len = -1 THEN (IF r.e THEN {w} ELSE {At(w, r.v)}) ELSE Seek(w, w.len + op[2], r)
    [] op[1] = "pos"   -> Seek(w, w.pos, r)
    [] op[1] = "read"  ->
         IF r.e THEN (IF r.f THEN {w} ELSE {})
         ELSE LET k == Len(r.d) IN
              IF k <= Lesser(op[2], Avail(w)) /\ (k = 0 => (op[2] = 0 \/ Avail(w) = 0)) /\ r.d = Slice(w, k)
              THEN {At(w, w.pos + k)} ELSE {}
    [] op[1] = "exact" ->
         IF r.e THEN (IF r.f \/ op[2] > Avail(w) THEN { At(w, w.pos + j) : j \in 0..Lesser(op[2], Avail(w)) } ELSE {})
         ELSE IF op[2] <= Avail(w) /\ r.d = Slice(w, op[2]) THEN {At(w, w.pos + op[2])} ELSE {}
    \* so far off that only the numbers' size decides
    [] op[1] \in {"write", "wall"} /\ w.len >= Huge /\ w.pos >= Huge \div 2 -> {w}
    [] op[1] = "write" ->
         IF r.e THEN (IF r.f THEN {w} ELSE {})
         ELSE IF r.v <= Lesser(Len(op[2]), Left(w)) /\ (r.v = 0 => (op[2] = <<>> \/ Left(w) = 0))
              THEN {Put(w, SubSeq(op[2], 1, r.v))} ELSE {}
    [] op[1] = "wall"  ->
         IF r.e THEN (IF r.f \/ Len(op[2]) > Left(w) THEN { Put(w, SubSeq(op[2], 1, j)) : j \in 0..Lesser(Len(op[2]), Left(w)) } ELSE {})
         ELSE IF Len(op[2]) <= Left(w) THEN {Put(w, op[2])} ELSE {}

\* an access of the source <<first, past last>> is inside the window
Confined(w, t) == t[1] = t[2] \/ (t[1] >= w.start /\ (w.len = -1 \/ w.len >= Huge \/ t[2] <= w.start + w.len))
=============================================================================
