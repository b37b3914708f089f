----------------------------- MODULE FstWalkSim -----------------------------
(* Larger random trees and plans for the traversals.                        *)
EXTENDS FstEditSim, FstWalk
PlanOf(r) == [ i \in 1..25 |-> LET x == ((r * 7919 + i * 104729 + (r \div 13) * i) % 9973) % 24 IN
                  CASE x < 2 -> "ren" [] x < 4 -> "alt" [] x = 4 -> "flip" [] x = 5 -> "nil" [] x < 9 -> "set" [] x = 9 -> "fill" [] x = 10 -> "drop"
                    [] x = 11 /\ r % 3 # 0 -> "stop" [] OTHER -> "keep" ]
WScn(p) == LET m == MutWalk(tree, <<>>, p, 0)
               r == SerWalk(tree, <<>>, p, 0)
           IN  [plan |-> p, vis |-> m.vis, post |-> m.t, stop |-> m.stop,
                svis |-> r.vis, spost |-> r.t, sstop |-> r.stop]
WSimNext ==
  /\ SimNext
  /\ (n % 12 = 11) =>
       \E r \in { RandomElement(1..9000) } :
          /\ Assert(WalkOk(tree, PlanOf(r)), "WalkOk") /\ Assert(SerOk(tree, PlanOf(r)), "SerOk")
          /\ PrintT(<<"W", ToJson([tree |-> tree, walk |-> Walk(tree, <<>>),
                    count |-> FileCount(tree), scn |-> << WScn(PlanOf(r)), WScn(<<>>) >>])>>)
WSimSpec == SimInit /\ [][WSimNext]_<<tree, last, hist, n>>
=============================================================================
