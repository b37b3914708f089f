------------------------------ MODULE ExtDeep ------------------------------
(* Extraction histories on discs nested far deeper than the generated ones. *)
EXTENDS ExtGen
DF(nm, id, sz) == [k |-> "f", n |-> nm, s |-> nm, id |-> id, sz |-> sz, pad |-> 0, past |-> 0]
DD(nm, c) == [k |-> "d", n |-> nm, s |-> nm, c |-> c]
\* d directories with a file at the bottom; every third level has files before and after the next one, too
RECURSIVE Chain(_, _)
Chain(d, id) ==
  IF d = 0 THEN << DF(<<122>>, id, 33) >>
  ELSE LET below == DD(<<109, 97 + (d % 26)>>, Chain(d - 1, id)) IN
       IF d % 3 = 0 THEN << DF(<<98>>, id + 2 * d, d), below, DF(<<120>>, id + 2 * d + 1, 40000 + d) >> ELSE << below >>
DeepTrees == { Chain(d, 1000) : d \in {8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 65, 100} }
         \cup { << DD(<<97>>, Chain(d, 1000)), DF(<<98>>, 1, 5), DD(<<99>>, Chain(d + 7, 2000)), DF(<<100>>, 2, 70000) >> : d \in {10, 20, 48} }
DeepInit ==
  /\ n = MaxNodes /\ phase = "prep" /\ st = <<>> /\ ops = <<>>
  /\ disc \in { [seed |-> s, title |-> <<84, 73>>, lay |-> 5, parts |-> << [Part(0, s, 0, 3, 300) EXCEPT !.tree = tr] >>] : s \in {5, 6}, tr \in DeepTrees }
DeepSpec == DeepInit /\ [][Op \/ Out]_<<n, disc, st, ops, phase>>
=============================================================================
