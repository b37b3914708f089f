-------------------------------- MODULE Vast --------------------------------
(* What the format can represent, and what a builder therefore may and must *)
(* do with definitions near the limits.  Positions are <<groups, rest>>.    *)
(* Where a builder puts things is its business: clauses only apply where    *)
(* every layout fits, or none.                                              *)
EXTENDS Integers, Sequences, FiniteSets
GD == 2031616                                         \* data bytes of a group
FileLimit == << 2114, 131072 >>                       \* 2^32 bytes
MaxGroups == 4915                                     \* hashes in the global hash table
MaxParts == 7164                                      \* entries between the partition table and the region data
StartLimit == 8192 * 64                               \* 16 GiB in units of 32 KiB
ASSUME FileLimit[1] < 2115 /\ FileLimit[2] < GD
Sum(p, q) == << p[1] + q[1] + (p[2] + q[2]) \div GD, (p[2] + q[2]) % GD >>
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
RECURSIVE Total(_)
Total(fs) == IF fs = <<>> THEN <<0, 0>> ELSE Sum(Sum(fs[1].sz, fs[1].pad), Total(Tail(fs)))
Data(fs) == IF fs = <<>> THEN <<0, 0>> ELSE LET r == Total([fs EXCEPT ![Len(fs)].pad = <<0, 0>>]) IN r
TooLong(fs) == \E i \in 1..Len(fs) : Leq(FileLimit, fs[i].sz)
\* system files and alignment take less than a quarter of a group
Cannot(fs) == TooLong(fs) \/ Leq(<<MaxGroups, 0>>, Data(fs))
Must(fs) == ~TooLong(fs) /\ Leq(Sum(Total(fs), <<0, GD \div 4>>), <<MaxGroups, 0>>)
\* bounds for the 32 KiB units a finished partition takes
LeastUnits(fs) == 4 + 64 * (Data(fs)[1])
MostUnits(fs) == 64 + 64 * (Total(fs)[1] + 2)
=============================================================================
