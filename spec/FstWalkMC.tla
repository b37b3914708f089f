----------------------------- MODULE FstWalkMC -----------------------------
(* Exhaustive: every tree reachable by editing with <= MaxNodes nodes,      *)
(* every plan over at most that many calls (sampled kinds).                 *)
EXTENDS FstEdit, FstWalk
MCNames == { <<97>>, <<66>> }
Kinds == {"keep", "ren", "alt", "flip", "nil", "set", "fill", "drop", "stop"}
Plans(s) == IF s < 3 THEN [1..(2 * s) -> Kinds] ELSE [1..s -> Kinds]
Scn(p) == LET m == MutWalk(tree, <<>>, p, 0)
              r == SerWalk(tree, <<>>, p, 0)
          IN  [plan |-> p, vis |-> m.vis, post |-> m.t, stop |-> m.stop,
               svis |-> r.vis, spost |-> r.t, sstop |-> r.stop]
InvWalk == \A p \in Plans(Size(tree)) : WalkOk(tree, p) /\ SerOk(tree, p)
EmitInv == PrintT(<<"T", ToJson([tree |-> tree, walk |-> Walk(tree, <<>>),
                     count |-> FileCount(tree),
                     scn |-> LET P == Plans(Size(tree)) IN SetToSeq({ Scn(p) : p \in P })])>>)
=============================================================================
