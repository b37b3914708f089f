------------------------------- MODULE ExtBig -------------------------------
(* Sections of more than 4 GiB.  Sizes in KiB: TLC's integers have 32 bits. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT Which
VARIABLE d
Max == 4194303           \* longest length a file table can record, in whole KiB
Lists == << << Max, 7, 90000 >>, << 1500000, 1400001, 3, 1350000, 64 >>, << 64, Max >>, << 2097152, 2097151, 2 >>, << 2097152, 2097152 >>, << 1, Max, Max, 5 >> >>
Name(k) == << 97 + k >>
Disc(l) == [ seed |-> 41, title |-> <<84>>, lay |-> 3, parts |-> <<
   [ seed |-> 71, t |-> 0, key |-> 0, ntmd |-> 1, certs |-> << <<0, 1>>, <<1, 0>>, <<2, 1>> >>, title |-> <<65>>, bi2 |-> 8192, app |-> 64, dol |-> 300, ann |-> "exact", fail |-> <<>>,
     bad |-> 0, lay |-> 3, psys |-> "", hole |-> 2200,
     tree |-> [ k \in 1..Len(l) |-> [ k |-> "f", n |-> Name(k), s |-> Name(k), id |-> k, sz |-> 0, kb |-> l[k], pad |-> 0, past |-> 0 ] ] ] >> ]
Init == d \in { Lists[k] : k \in Which } /\ PrintT(<<"T", ToJson([disc |-> Disc(d), kb |-> d])>>)
Next == UNCHANGED d
Spec == Init /\ [][Next]_d
=============================================================================
