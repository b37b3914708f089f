--------------------------- MODULE IoWindowTrace ---------------------------
(* Judges recorded window behaviours: the set of window states that explain *)
(* the results so far must never become empty.                              *)
(*  line: [w, ops, res, acc, fin]; acc[k]: source accesses during op k      *)
(*  <<first, past last>>; fin: the source afterwards                        *)
EXTENDS IoWindow, TraceLib
VARIABLE i
RECURSIVE Run(_, _, _)
\* result: first operation that nothing explains (0: none), and the states
Run(x, k, ws) ==
  IF k > Len(x.res) THEN [bad |-> 0, ws |-> ws]
  ELSE LET nx == UNION { After(y, x.ops[k], x.res[k]) : y \in ws }
       IN  IF nx = {} THEN [bad |-> k, ws |-> {}] ELSE Run(x, k + 1, nx)
Judge(x) ==
  LET r == Run(x, 1, {x.w})
      out == { k \in 1..Len(x.acc) : \E j \in 1..Len(x.acc[k]) : ~Confined(x.w, x.acc[k][j]) }
  IN  (IF r.bad = 0 THEN {} ELSE { x.ops[r.bad][1] \o "_result_at_" \o ToString(r.bad) })
      \cup Clause("access_outside_the_window", out = {})
      \cup Clause("source_contents", r.bad # 0 \/ x.ro \/ \E y \in r.ws : y.src = x.fin)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
