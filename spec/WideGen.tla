------------------------------ MODULE WideGen ------------------------------
(* Definitions and file tables with very many entries: node counts and      *)
(* table sizes past 16 bits, tables spanning several groups, name tables    *)
(* around the 24-bit limit of name offsets.                                 *)
EXTENDS DiscDef, Json, IOUtils
VARIABLE v
Stem(n) == [ j \in 1..n |-> 97 + (j % 26) ]
Run(n, cnt, id, sz) == [k |-> "r", n |-> Stem(n), w |-> 6, cnt |-> cnt, id |-> id, sz |-> sz]
Dir(n, c) == [k |-> "d", n |-> n, c |-> c]
File(n, id, sz, pad) == [k |-> "f", n |-> n, id |-> id, sz |-> sz, pad |-> pad]
Part(s, app, dol, tree) ==
  [ seed |-> s, t |-> 0, key |-> 0, ntmd |-> 1, certs |-> << <<1, 1>>, <<1, 1>>, <<1, 1>> >>, title |-> <<65, 66>>,
    bi2 |-> 8192, app |-> app, dol |-> dol, ann |-> "exact", fail |-> <<>>, tree |-> tree ]
Disc(s, parts) == [ seed |-> s, title |-> <<87>>, dest |-> "empty", parts |-> parts ]
Around(r) == << File(<<65>>, 11, 100, 0), Dir(<<66>>, << Dir(<<120>>, <<>>), r, File(<<122>>, 12, 70000, 0) >>), File(<<67>>, 13, 5, 64), Dir(<<68>>, <<>>) >>
\* more than 256 groups
Long == Disc(9, << Part(9, 4096, 256, << File(<<97>>, 31, 180000001, 0), Dir(<<98>>, << File(<<97>>, 32, 170000000, 64), File(<<98>>, 33, 0, 0), File(<<99>>, 34, 179000000, 0) >>), File(<<99>>, 35, 12345, 0) >>), Part(10, 32, 0, << File(<<97>>, 36, 3000, 0) >>) >>)
\* a table that begins in the first group, whose names begin there, too, and that ends so many bytes before the end of the second
Aimed(s, y) == Disc(s, << Part(s, 469664 - 32 * y, 256, << Run(493, 7000, 100000, 10), File(<<122>>, 15, 70000, 0) >>) >>)
\* table sizes: one group is 2031616 bytes; a node with a 7 byte name takes 20
Discs ==
  { Disc(1, << Part(1, 4096, 256, Around(Run(1, 66000, 100000, 0))) >>),
    Disc(2, << Part(2, 4096, 1000, << Run(1, 104000, 100000, 0) >>), Part(3, 32, 0, Around(Run(2, 1000, 1, 33))) >>),
    Disc(3, << Part(4, 4096, 2000000, Around(Run(2, 101000, 100000, 7))) >>),
    Aimed(40, 3), Aimed(41, 500), Aimed(42, 980), Aimed(43, 1000), Aimed(44, 14000),
    \* system files of more than a write batch
    Disc(12, << Part(13, 17000001, 40000003, Around(File(<<97>>, 14, 9000000, 0))), [Part(14, 40000000, 256, << File(<<97>>, 37, 3000, 0) >>) EXCEPT !.ann = "none"] >>),
    Long,
    \* many partitions
    Disc(8, [ i \in 1..24 |-> [Part(20 + i, 32 + i, 100 * i, << File(<<96 + i>>, 500 + i, 1000 * i, 0), Dir(<<66>>, << File(<<67>>, 600 + i, i, 32 * i) >>) >>) EXCEPT !.t = i % 3, !.key = (i \div 2) % 2] ]),
    Disc(4, << Part(5, 100, 256, Around(Run(30, 140000, 100000, 1))) >>) }
  \cup (IF IOEnv.TIER = "quick" THEN {} ELSE
  { Disc(5, << Part(6, 4096, 1900000, << Run(1, 310000, 100000, 0) >>) >>),
    Disc(6, << Part(7, 4096, 256, Around(Run(60, 150000, 100000, 65))) >>),
    Disc(7, << Part(8, 64, 300, << Dir(<<97>>, << Run(1, 50000, 1, 1) >>), Dir(<<98>>, << Run(3, 66000, 60000, 2) >>), Run(5, 40000, 200000, 3) >>) >>) })

\* tables alone; n is the name length including the terminator
T(n, cnt) == [k |-> "r", n |-> Stem(n - 7), w |-> 6, cnt |-> cnt, o |-> 10, st |-> 16, l |-> 33]
TT(c) == [tree |-> c]
WDir(n, c) == [k |-> "d", n |-> n, c |-> c]
Tables ==
  { TT(<< T(8, 1000) >>), TT(<< T(8, 65534) >>), TT(<< T(8, 65535) >>), TT(<< T(8, 65536) >>), TT(<< T(8, 70000) >>), TT(<< WDir(<<97>>, << T(8, 66000) >>), T(9, 1500) >>),
    TT(<< WDir(<<97>>, << WDir(<<99>>, <<>>), T(10, 40000), WDir(<<120>>, << T(8, 30000) >>) >>), T(9, 2000) >>),
    \* last name offset 1 + (cnt - 1) * n: just below, at and past 2^24
    TT(<< T(94, 178482) >>), TT(<< T(94, 178483) >>), TT(<< T(256, 65536) >>), TT(<< T(256, 65537) >>), TT(<< T(255, 65793) >>), TT(<< T(255, 65794) >>), TT(<< T(128, 131072) >>), TT(<< T(128, 131073) >>),
    TT(<< WDir(<<97>>, << T(256, 65537) >>), WDir(<<98>>, <<>>) >>), TT(<< T(300, 70000) >>) }
\* files, the file table's end and the next partition past 4 GiB
Huge == { Disc(10, << Part(11, 4096, 256, << Dir(<<98>>, << File(<<97>>, 41, 1500000001, 0), File(<<98>>, 42, 1700000000, 1) >>), File(<<99>>, 43, 1094000000, 0), File(<<100>>, 44, 77777, 0),
                                                   File(<<101>>, 45, 999999, 0), Dir(<<102>>, << File(<<97>>, 46, 64, 0), File(<<98>>, 47, 1, 4000000), File(<<99>>, 48, 2100000, 0) >>) >>),
                   [ Part(12, 64, 300, << File(<<97>>, 49, 3000, 0), File(<<98>>, 50, 4000000, 0) >>) EXCEPT !.t = 1 ] >>) }
Init == v \in (CASE IOEnv.KIND = "discs" -> Discs [] IOEnv.KIND = "huge" -> Huge [] IOEnv.KIND = "long" -> { Long } [] OTHER -> Tables) /\ PrintT(<<"T", ToJson(v)>>)
Next == FALSE /\ v' = v
Spec == Init /\ [][Next]_v
=============================================================================
