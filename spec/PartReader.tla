----------------------------- MODULE PartReader -----------------------------
(* What reading from an opened partition, a file of it or a window onto it  *)
(* may return.  Positions are pairs <<groups, rest>> (TLC's numbers have 32 *)
(* bits): rest < GD, the number of data bytes of a group.  Positions of Far *)
(* groups and more stand for positions near 2^63 and 2^64.                  *)
(* A stream is [base, len, size, pos]: byte 0 is byte base of the           *)
(* partition; len is the window's length, <<>> if unbounded; size is the    *)
(* declared data size of the partition.                                     *)
(* r = [e, f, at, n, ok, v, after]: error?; did the source fail meanwhile?; *)
(* n bytes were returned, and ok: they are the partition's bytes at at; v:  *)
(* position returned; after: position observed afterwards, <<>> if not asked*)
EXTENDS Integers, Sequences
CONSTANTS GD, Far

Cap == 2000000000
IsFar(p) == p[1] >= Far
Plus(p, n) == << p[1] + (p[2] + n) \div GD, (p[2] + n) % GD >>
Sum(p, q) == << p[1] + q[1] + (p[2] + q[2]) \div GD, (p[2] + q[2]) % GD >>
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
\* p - q for q <= p
Diff(p, q) == IF p[2] >= q[2] THEN << p[1] - q[1], p[2] - q[2] >> ELSE << p[1] - q[1] - 1, p[2] - q[2] + GD >>
Num(p) == IF p[1] >= Cap \div GD THEN Cap ELSE p[1] * GD + p[2]
Least(a, b) == IF a <= b THEN a ELSE b
\* bytes between p and end
Room(p, end) == IF Leq(end, p) THEN 0 ELSE Num(Diff(end, p))
Left(s) == IF s.len = <<>> THEN Cap ELSE Room(s.pos, s.len)
Avail(s) == IF IsFar(s.pos) THEN 0 ELSE Least(Left(s), Room(Sum(s.base, s.pos), s.size))
At(s, p) == [s EXCEPT !.pos = p]

\* a seek to position t (<<>>: before the start; Far: anywhere far off)
SeekOk(s, t, r) ==
  IF t = <<>> THEN r.e \/ r.v = <<0, 0>>
  ELSE IF IsFar(t) THEN r.e \/ IsFar(r.v)
  ELSE ~r.e /\ r.v = t
Seek(s, t, r) == IF ~SeekOk(s, t, r) THEN {} ELSE IF r.e THEN {s} ELSE {At(s, r.v)}
Moved(p, sign, d) == IF IsFar(p) \/ IsFar(d) THEN (IF sign = -1 /\ ~IsFar(p) THEN <<>> ELSE <<Far, 0>>)
                     ELSE IF sign = 1 THEN Sum(p, d) ELSE IF Leq(d, p) THEN Diff(p, d) ELSE <<>>
\* relative to a far position: only known to be accepted or refused
Vague(s, r) == IF r.e THEN {s} ELSE {At(s, r.v)}

After(s, op, r) ==
  CASE op[1] = "start" -> Seek(s, op[2], r)
    [] op[1] = "cur" -> IF IsFar(s.pos) THEN Vague(s, r) ELSE Seek(s, Moved(s.pos, op[2], op[3]), r)
    [] op[1] = "end" -> IF s.len # <<>> THEN Seek(s, Moved(s.len, op[2], op[3]), r)
                        ELSE IF r.e THEN {s} ELSE {At(s, r.v)}
    [] op[1] = "pos" -> IF r.e THEN {} ELSE IF IsFar(s.pos) THEN (IF IsFar(r.v) THEN {s} ELSE {}) ELSE IF r.v = s.pos THEN {s} ELSE {}
    [] op[1] = "read" ->
         IF r.e THEN (IF r.f THEN {s} ELSE {})
         ELSE IF /\ r.n <= Least(op[2], Avail(s))
                 /\ r.n = 0 => (op[2] = 0 \/ Avail(s) = 0)
                 /\ r.n > 0 => (r.ok /\ r.at = Sum(s.base, s.pos))
              THEN {IF r.n = 0 THEN s ELSE At(s, Plus(s.pos, r.n))} ELSE {}
    [] op[1] = "exact" ->
         IF r.e THEN (IF /\ r.f \/ op[2] > Avail(s)
                         /\ r.after # <<>>
                         /\ IF IsFar(s.pos) THEN IsFar(r.after)
                            ELSE Leq(s.pos, r.after) /\ Leq(r.after, Plus(s.pos, Least(op[2], Avail(s))))
                      THEN {At(s, r.after)} ELSE {})
         ELSE IF op[2] = 0 THEN {s}
         ELSE IF op[2] <= Avail(s) /\ r.n = op[2] /\ r.ok /\ r.at = Sum(s.base, s.pos) THEN {At(s, Plus(s.pos, r.n))} ELSE {}

\* a read of the range of n bytes at p of a partition of the given size
Range(p, n, size, r) ==
  LET k == IF IsFar(p) THEN 0 ELSE Least(n, Room(p, size))
  IN  IF r.e THEN r.f ELSE r.n = k /\ (k > 0 => (r.ok /\ r.at = p))
=============================================================================
