------------------------------ MODULE SectNames ------------------------------
(* Section names: every spelling of the three, everything one edit away     *)
(* from them, and what each has to be taken for.                            *)
EXTENDS SectDisc, Json
VARIABLE v
Spell(nm) == { [ i \in 1..Len(nm) |-> nm[i] + 32 * c[i] ] : c \in [ 1..Len(nm) -> 0..1 ] }
Bytes == { 32, 48, 64, 65, 69, 76, 91, 95, 97, 122 }
Cut(nm, i) == SubSeq(nm, 1, i - 1) \o SubSeq(nm, i + 1, Len(nm))
Put(nm, i, b) == SubSeq(nm, 1, i) \o <<b>> \o SubSeq(nm, i + 1, Len(nm))
Near(nm) ==
  { Cut(nm, i) : i \in 1..Len(nm) } \cup { Put(nm, i, b) : i \in 0..Len(nm), b \in Bytes }
  \cup { [nm EXCEPT ![i] = b] : i \in 1..Len(nm), b \in Bytes } \cup { nm \o nm, nm \o <<0>>, nm \o <<10>> }
  \* letters that only look alike, or that upper-case to others outside ASCII
  \cup { Cut(nm, i) \o <<195, 132>> : i \in 1..Len(nm) } \cup { SubSeq(nm, 1, i - 1) \o <<239, 188, 160 + nm[i] - 64>> \o SubSeq(nm, i + 1, Len(nm)) : i \in 1..Len(nm) }
Names == UNION { Spell(Sections[k]) \cup Near(Sections[k]) : k \in 1..3 } \cup { <<>>, <<48>>, <<49>>, <<65>> }
Init == v \in Names /\ PrintT(<<"T", ToJson([nm |-> v, t |-> TypeOf(v)])>>)
\* a disc with all of them, some twice
Disc == [seed |-> 4712, title |-> <<84>>, lay |-> 5, parts |-> << Part(1, 1, 0), Part(2, 2, 0), Part(3, 0, 0), Part(4, 1, 0), Part(5, 0, 0), Part(6, 2, 1) >>]
ASSUME PrintT(<<"I", ToJson([disc |-> Disc])>>)
Next == FALSE /\ v' = v
Spec == Init /\ [][Next]_v
\* a name means at most one section, and only its spellings mean it
Sound == /\ TypeOf(v) \in -1..2
         /\ \A k \in 1..3 : (TypeOf(v) = k - 1) <=> v \in Spell(Sections[k])
=============================================================================
