---------------------------- MODULE PartReaderMC ----------------------------
(* The reader as a program: one decrypted group is cached, a position is    *)
(* kept, the source can fail.  Checked against the contract of PartReader.  *)
EXTENDS PartReader, FiniteSets, TLC
CONSTANTS Sizes, MaxOps
VARIABLES size, pos, cur, cache, ops, last
vars == <<size, pos, cur, cache, ops, last>>
\* flat cell numbers; contents of cell c is c + 1
Flat(p) == p[1] * GD + p[2]
Pair(c) == << c \div GD, c % GD >>
Garbage == [ j \in 0..(GD - 1) |-> 0 ]
Group(g) == [ j \in 0..(GD - 1) |-> g * GD + j + 1 ]
Init == /\ size \in Sizes /\ pos = 0 /\ cur = -1 /\ cache = Garbage /\ ops = 0
        /\ last = [op |-> <<"none">>, bytes |-> <<>>, e |-> FALSE, f |-> FALSE, from |-> 0]
Rec(op, b, e, f) == last' = [op |-> op, bytes |-> b, e |-> e, f |-> f, from |-> pos]
\* loading a group: fails or not
Load(g, fail) == IF g = cur THEN [ok |-> TRUE, cur |-> cur, cache |-> cache]
                 ELSE IF fail THEN [ok |-> FALSE, cur |-> -1, cache |-> Garbage]
                 ELSE [ok |-> TRUE, cur |-> g, cache |-> Group(g)]
Read(n, fail) ==
  LET g == pos \div GD
      want == Least(n, Least(GD - (pos % GD), IF pos >= size THEN 0 ELSE size - pos))
      l == Load(g, fail)
  IN  IF want = 0 THEN Rec(<<"read", n>>, <<>>, FALSE, FALSE) /\ UNCHANGED <<pos, cur, cache>>
      ELSE IF ~l.ok THEN Rec(<<"read", n>>, <<>>, TRUE, TRUE) /\ cur' = l.cur /\ cache' = l.cache /\ UNCHANGED pos
      ELSE /\ Rec(<<"read", n>>, [ j \in 1..want |-> l.cache[(pos % GD) + j - 1] ], FALSE, FALSE)
           /\ cur' = l.cur /\ cache' = l.cache /\ pos' = pos + want
RECURSIVE Collect(_, _, _, _, _)
\* whole-range read: k-th load fails
Collect(at, n, c, got, k) ==
  IF n = 0 \/ at >= size THEN [c |-> c, got |-> got, e |-> FALSE]
  ELSE LET g == at \div GD
           m == Least(n, Least(GD - (at % GD), size - at))
       IN  IF g # c.cur /\ k = 0 THEN [c |-> [cur |-> -1, cache |-> Garbage], got |-> got, e |-> TRUE]
           ELSE LET d == IF g = c.cur THEN c ELSE [cur |-> g, cache |-> Group(g)]
                IN  Collect(at + m, n - m, d, got \o [ j \in 1..m |-> d.cache[(at % GD) + j - 1] ], IF g # c.cur THEN k - 1 ELSE k)
Vec(at, n, k) ==
  LET x == Collect(at, n, [cur |-> cur, cache |-> cache], <<>>, k)
  IN  /\ Rec(<<"vec", at, n>>, x.got, x.e, x.e) /\ cur' = x.c.cur /\ cache' = x.c.cache /\ UNCHANGED pos
Seek2(t) == pos' = t /\ Rec(<<"start", t>>, <<>>, FALSE, FALSE) /\ UNCHANGED <<cur, cache>>
Next == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED size
        /\ \/ \E n \in 0..(GD + 1), fail \in BOOLEAN : Read(n, fail)
           \/ \E at \in 0..(3 * GD), n \in {0, 1, GD, GD + 2, 100}, k \in {0, 1, 9} : Vec(at, n, k)
           \/ \E t \in 0..(3 * GD + 1) : Seek2(t)
Spec == Init /\ [][Next]_vars
CacheOk == cur # -1 => cache = Group(cur)
Str(p) == [base |-> <<0, 0>>, len |-> <<>>, size |-> Pair(size), pos |-> Pair(p)]
Res == [e |-> last.e, f |-> last.f, n |-> Len(last.bytes), at |-> IF last.op[1] = "vec" THEN Pair(last.op[2]) ELSE Pair(last.from),
        ok |-> \A j \in 1..Len(last.bytes) : last.bytes[j] = (IF last.op[1] = "vec" THEN last.op[2] ELSE last.from) + j, v |-> Pair(pos), after |-> <<>>]
Contract ==
  /\ last.op[1] = "read" => After(Str(last.from), last.op, Res) = {Str(pos)}
  /\ last.op[1] = "vec" => Range(Pair(last.op[2]), last.op[3], Pair(size), Res) /\ pos = last.from
  /\ last.op[1] = "start" => After(Str(last.from), <<"start", Pair(last.op[2])>>, Res) = {Str(pos)}
=============================================================================
