----------------------------- MODULE FstEditSim -----------------------------
(* Long random editing histories over a rich name pool, generated by        *)
(* `tlc -simulate` and replayed into the real table.                        *)
EXTENDS FstEdit
CONSTANTS Steps
VARIABLES hist, n

Pool == { <<65>>, <<97>>, <<97,97>>, <<65,66>>, <<97,46,98>>, <<97,95,98>>, <<65,95,66>>, <<97,45,98>>,
          <<90>>, <<122>>, <<91,120>>, <<96,121>>, <<123,113>>, <<95,117>>, <<64,109>>,
          <<48>>, <<48,57>>, <<57>>, <<126>>, <<32>>, <<100,97,116,97>>, <<68,65,84,65>>,
          <<68,97,116,97,46,66,105,110>>, <<100,97,116,97,46,98,105,110>>, <<100,97,116>>,
          <<227,130,162>>, <<227,130,189,46,97,114,99>>, <<195,169>>, <<195,137>>, <<98,0 + 1>>,
          [ i \in 1..60 |-> 97 + (i % 26) ], [ i \in 1..61 |-> 97 + (i % 26) ], [ i \in 1..60 |-> 65 + (i % 26) ] }

FlipB(b) == IF b \in 65..90 THEN b + 32 ELSE IF b \in 97..122 THEN b - 32 ELSE b
FlipName(s) == [ i \in 1..Len(s) |-> FlipB(s[i]) ]
FlipPath(p) == [ i \in 1..Len(p) |-> IF i % 2 = 1 THEN FlipName(p[i]) ELSE p[i] ]

SimInit == Init /\ hist = <<>> /\ n = 0

Rec(op, p, v, r, old, post) ==
  hist' = Append(hist, [op |-> op, p |-> p, v |-> v, r |-> r, old |-> old, post |-> post])

SAdd(p, v) ==
  LET a == AddP(tree, p, v) IN
  IF Size(a.t) > MaxNodes \/ Depth(a.t) > MaxDepth
  THEN UNCHANGED <<tree, hist, last>>
  ELSE tree' = a.t /\ Rec("add", p, v, a.r, a.old, a.t) /\ UNCHANGED last
SRemove(p) ==
  LET a == RemoveP(tree, p) IN
  tree' = a.t /\ Rec("rm", p, <<>>, IF a.r = <<>> THEN "none" ELSE "some", a.r, a.t) /\ UNCHANGED last
SFind(p) ==
  LET a == FindP(tree, p) IN
  tree' = tree /\ Rec("find", p, <<>>, IF a = <<>> THEN "none" ELSE "some", a, tree) /\ UNCHANGED last
SFix == tree' = tree /\ Rec("fix", <<>>, <<>>, "ok", <<>>, tree) /\ UNCHANGED last

SimNext ==
  /\ n < Steps
  /\ n' = n + 1
  /\ \E k \in { RandomElement(1..20) }, w \in { RandomElement(1..12) },
        a \in { RandomElement(Pool) }, b \in { RandomElement(Pool) }, c \in { RandomElement(Pool) },
        d \in { RandomElement(DirPaths(tree)) },
        e \in { IF tree = <<>> THEN <<>> ELSE RandomElement(Paths(tree)) },
        f \in { IF FilePaths(tree) = {} THEN <<>> ELSE RandomElement(FilePaths(tree)) },
        o \in { RandomElement(0..100000) } :
      LET par == CASE w <= 4 -> d
                   [] w = 5 -> FlipPath(d)
                   [] w = 6 -> Append(d, a)
                   [] w = 7 -> <<a, b>>
                   [] w = 8 -> <<a>>
                   [] w = 9 -> f
                   [] w = 10 -> Append(f, b)
                   [] w = 11 -> <<>>
                   [] OTHER -> d \o <<a, b>>
          tgt == CASE w <= 5 -> e
                   [] w = 6 -> FlipPath(e)
                   [] w = 7 -> Append(e, a)
                   [] w = 8 -> <<a>>
                   [] w = 9 -> d
                   [] w = 10 -> Append(d, b)
                   [] w = 11 -> <<>>
                   [] OTHER -> <<a, b>>
      IN  CASE k <= 11 -> SAdd(par, IF k <= 3 THEN Dir(c, <<>>)
                                    ELSE IF k = 4 THEN Dir(c, << File(b, o, o) >>)
                                    ELSE File(c, o, o + 1))
            [] k <= 14 -> SRemove(tgt)
            [] k <= 19 -> SFind(tgt)
            [] OTHER   -> SFix
  /\ (n' = Steps => PrintT(<<"T", ToJson(hist')>>))
SimSpec == SimInit /\ [][SimNext]_<<tree, last, hist, n>>
=============================================================================
