------------------------------ MODULE VastGen ------------------------------
(* Discs near the limits of the format.  Sizes are <<groups, rest>> (groups *)
(* of GD data bytes).  The limits: a file's length has 32 bits; a           *)
(* partition's global hash table holds 4915 group hashes; a partition's     *)
(* start is recorded in 32 bits of 4-byte units (16 GiB).                   *)
EXTENDS Vast, Json, TLC, IOUtils
VARIABLE v
F(id, g, r) == [id |-> id, sz |-> <<g, r>>, pad |-> <<0, 0>>]
FP(id, g, r, pg, pr) == [id |-> id, sz |-> <<g, r>>, pad |-> <<pg, pr>>]
P(s, t, ann, files) == [seed |-> s, t |-> t, ann |-> ann, rep |-> 1, files |-> files]
D(s, ps) == [seed |-> s, parts |-> ps]
\* just below, at and above 2^32 bytes
Lim(id, d) == F(id, (FileLimit[1] + (FileLimit[2] + d) \div GD), (FileLimit[2] + d) % GD)
Small == P(90, 1, 1, << F(900, 0, 70000), F(901, 1, 5) >>)
\* n groups of data altogether, in files of 500
Fill(id, n, r) == [ i \in 1..(n \div 500) |-> F(id + i, 500, 0) ] \o << F(id, n % 500, r) >>
\* fills the table of hashes; does not fit, the next one does
Full == D(11, << P(110, 0, 1, Fill(1100, MaxGroups - 1, 1000000)), Small >>)
Over == D(12, << P(120, 0, 1, Fill(1200, MaxGroups + 1, 0)), Small >>)
\* for the progress of more than 4 GiB, with the lengths announced and without
Long == { D(17, << P(170, 0, 1, [ i \in 1..36 |-> F(2000 + i, IF i = 9 THEN 300 ELSE 53, 1000 * i) ]) >>),
          D(18, << P(180, 0, 0, [ i \in 1..5 |-> F(2100 + i, 30 * i, i) ]), P(181, 0, 1, << F(2200, 10, 0), Lim(2201, -1), F(2202, 7, 9) >>) >>) }
\* as many partitions as the table takes, and more
Many == D(16, << [P(160, 0, 1, << F(1800, 0, 10) >>) EXCEPT !.rep = MaxParts], [P(161, 1, 1, << F(1801, 0, 20) >>) EXCEPT !.rep = 3] >>)
\* the third starts just below 16 GiB; and just above
Below == D(13, << P(130, 0, 0, Fill(1300, 4000, 0)), P(131, 2, 1, Fill(1400, 4180, 5)), Small >>)
Above == D(14, << P(140, 0, 1, Fill(1500, 4100, 0)), P(141, 1, 0, Fill(1600, 4100, 7)), Small, Small >>)
Quick ==
  { D(1, << P(10, 0, a, << F(1, 0, 100), Lim(2, d), F(3, 0, 5) >>), Small >>) : a \in 0..2, d \in { 0, 1, 64, 100000 } }
  \cup { D(2, << Small, P(20, 0, 2, << [F(4, 0, 0) EXCEPT !.sz = <<2 * FileLimit[1] + (2 * FileLimit[2] + 7) \div GD, (2 * FileLimit[2] + 7) % GD>>] >>), Small >>) }
  \cup { Full, Over, Many, Below, Above }
Big ==
  { Full, Over,
    Below, Above,
    D(15, << P(150, 0, 1, << Lim(1700, -1), F(1701, 0, 3), FP(1702, 0, 77, FileLimit[1], FileLimit[2] - 1), F(1703, 2, 9) >>), Small >>),  \* largest file, largest padding
    Many }
\* for the hash trees: the largest partition there is, and one of more than 4 GiB after another
Trees == { Full, D(19, << Small, P(190, 2, 0, Fill(2300, 2116, 77)), Small >>) }
Init == v \in (IF IOEnv.KIND = "long" THEN Long ELSE IF IOEnv.KIND = "trees" /\ IOEnv.TIER = "quick" THEN Trees ELSE IF IOEnv.TIER = "quick" THEN Quick ELSE Big) /\ PrintT(<<"T", ToJson(v)>>)
Next == FALSE /\ v' = v
Spec == Init /\ [][Next]_v
=============================================================================
