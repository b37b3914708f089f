--------------------------- MODULE PartReaderSim ---------------------------
(* Histories of reads over the opened partitions of synthetic images.       *)
EXTENDS PartReader, TLC, Json, FiniteSets
CONSTANTS MaxOps, WindowsOnly
VARIABLES n, ops, c
BD == 31744
\* images; off in 4-byte units
\* where title metadata, certificates, hash table and data are in the partition
Places(t, ki) ==
  CASE t = 0 /\ ki = 0 -> <<704, 1280, 32768, 131072>> [] t = 1 /\ ki = 1 -> <<832, 4096, 8192, 114692>>
    [] t = 1 -> <<20480, 704, 32768, 131076>> [] t = 0 -> <<704, 16384, 32768, 262144>> [] OTHER -> <<704, 1280, 8192, 106496>>
P(t, ki, off, size, fstAt, app, dol, files) == [hd |-> Places(t, ki), t |-> t, ki |-> ki, off |-> off, size |-> size, fstAt |-> fstAt, app |-> app, dol |-> dol, files |-> files]
F(nm, at, len) == [name |-> nm, at |-> at, len |-> len]
Images == <<
  [seed |-> 1, parts |-> << P(0, 0, 81920, <<3, 0>>, <<0, 120000>>, <<100, 60000>>, [at |-> <<0, 80000>>, off |-> 256, sizes |-> <<1000, 0, 30000>>],
     << F("a", <<0, 200000>>, <<0, 50000>>), F("b/c", <<0, 2000000>>, <<1, 100000>>), F("b/d", <<2, 1900000>>, <<0, 500000>>), F("z", <<1, 4>>, <<0, 0>>) >>),
     P(1, 1, 8388608, <<1, 12344>>, <<1, 0>>, <<0, 0>>, [at |-> <<0, 2031600>>, off |-> 12000, sizes |-> <<5>>],
     << F("X", <<0, 31740>>, <<0, 31750>>), F("Y", <<0, 2031612>>, <<0, 8>>) >>) >>],
  [seed |-> 2, parts |-> << P(1, 0, 4194304, <<0, 99996>>, <<0, 50000>>, <<4, 4>>, [at |-> <<0, 40000>>, off |-> 0, sizes |-> <<100>>],
     << F("f1", <<0, 99000>>, <<0, 2000>>), F("f2", <<0, 100>>, <<0, 7>>) >>),
     P(0, 1, 81920, <<2, 1015808>>, <<0, 31740>>, <<31744, 1>>, [at |-> <<0, 400000>>, off |-> 1, sizes |-> <<2031616>>],
     << F("big", <<0, 1000000>>, <<2, 0>>), F("big2", <<0, 2031612>>, <<4, 0>>) >>),
     P(2, 0, 33554432, <<2, 0>>, <<0, 600000>>, <<2000000, 2000000>>, [at |-> <<1, 1000>>, off |-> 100000, sizes |-> <<1000000, 1000000>>],
     << F("q", <<1, 2031612>>, <<0, 4>>) >>) >>],
  \* more than 4 GiB, and a file of almost 4 GiB
  [seed |-> 3, parts |-> << P(0, 0, 81920, <<2125, 1000>>, <<2114, 100000>>, <<10, 10>>, [at |-> <<2113, 2031612>>, off |-> 256, sizes |-> <<40000>>],
     << F("m", <<2114, 31744>>, <<0, 100000>>), F("n", <<5, 8>>, <<2114, 100001>>), F("o", <<2100, 0>>, <<30, 0>>),
        F("p", <<2114, 131076>>, <<1, 5000>>), F("q", <<2117, 100>>, <<0, 300000>>), F("r", <<2124, 64>>, <<2, 0>>) >>),
     P(0, 1, 1200000000, <<1, 0>>, <<0, 120000>>, <<0, 0>>, [at |-> <<0, 80000>>, off |-> 256, sizes |-> <<1000>>], << F("s", <<0, 300000>>, <<0, 40000>>), F("t", <<0, 2031000>>, <<0, 616>>) >>) >>],
  \* system files after 4 GiB
  [seed |-> 4, parts |-> << P(1, 1, 81920, <<2400, 31740>>, <<2115, 4000>>, <<10, 10>>, [at |-> <<2200, 31740>>, off |-> 300, sizes |-> <<40000>>],
     << F("u", <<0, 100000>>, <<0, 100000>>), F("v", <<2399, 31744>>, <<0, 2031612>>) >>) >>]
>>
Sel(S) == RandomElement(S)
\* interesting positions near boundaries of a partition of size sz
Spot(sz, k, d, g) ==
  CASE k = 1 -> <<g, d>>
    [] k = 2 -> IF g = 0 THEN <<0, (BD - 8) + d>> ELSE <<g - 1, (GD - 8) + (d % 8)>>
    [] k = 3 -> <<g, (BD * 3 - 8) + (d % 16)>>
    [] k = 4 -> LET p == Plus(sz, d) IN (IF Leq(<<0, 8>>, p) THEN Diff(p, <<0, 8>>) ELSE p)
    [] k = 5 -> sz
    [] k = 6 -> IF sz[1] > 2000 THEN (CASE d % 3 = 0 -> <<2114, 131060 + d>> [] d % 3 = 1 -> <<2047, 2031560 + d>> [] OTHER -> <<2114, 94198 + d>>) ELSE <<g, 60000 + d>>   \* 4 GiB
    [] k = 7 -> <<Far, 0>>
    [] OTHER -> <<g, d * 31 + 5>>
NearEnd(sz) == IF sz[1] > 1 THEN <<sz[1] - 1, sz[2]>> ELSE <<0, 100>>
Sizes == {0, 1, 3, 7, 16, 31, 256, 1024, 4096, 31743, 31744, 31745, 32768, 65536, 70000, 131072}
StreamOp(k, p, q, sg, m) ==
  CASE k \in 1..4 -> <<"start", p>> [] k = 5 -> <<"cur", sg, q>> [] k = 6 -> <<"pos">> [] k = 7 -> <<"end", -1, q>>
    [] k \in 8..13 -> <<"read", m>> [] OTHER -> <<"exact", m>>
\* one random operation on partition i of image im
Op(im, i, kind, k1, k2, g, d, sg, m, big, w) ==
  LET pt == im.parts[i]
      sp == Spot(pt.size, k1, d, IF g <= pt.size[1] THEN g ELSE pt.size[1])
      small == <<0, d>>
  IN CASE kind \in 1..10 -> <<"s", i, StreamOp(k2, sp, IF sg = 1 THEN small ELSE <<IF g > 1 THEN 1 ELSE 0, d>>, sg, IF big = 1 THEN 2031600 + d ELSE IF big = 2 THEN 2097152 ELSE m)>>
       [] kind \in 11..13 -> IF big = 1 THEN <<"vec", i, NearEnd(pt.size), 1000000000>> ELSE IF big = 2 THEN <<"vec", i, sp, 2600000>> ELSE IF big = 3 THEN <<"vec", i, sp, 2097152>> ELSE <<"vec", i, sp, m>>
       [] kind = 14 -> <<"bi2", i>> [] kind = 15 -> <<"app", i>> [] kind = 16 -> <<"dol", i>> [] kind = 17 -> <<"tmd", i>>
       [] kind = 25 /\ ~WindowsOnly -> <<"meta", i>>
       [] kind = (IF WindowsOnly THEN 18 ELSE 26) ->
            <<"nofile", i, LET f == pt.files[1 + (g % Len(pt.files))].name IN CASE sg = 1 -> f \o "/x" [] d % 3 = 0 -> "b" [] d % 3 = 1 -> f \o "x" [] OTHER -> "no/such" >>
       [] kind = 18 -> <<"certs", i>> [] kind = 19 -> <<"reopen", i>>
       [] kind \in 20..23 -> <<"file", i, 1 + (d % Len(pt.files)), w>>
       [] OTHER -> <<"win", i, IF IsFar(sp) THEN <<0, 1>> ELSE sp, IF d = 0 THEN <<>> ELSE <<0, d * 900>>, w>>
\* (z: without a parameter TLC would evaluate this once and for all)
Pick(z) == [ k1 |-> Sel(1..8), k2 |-> Sel(1..16), d |-> Sel(0..40), g |-> Sel(0..4), sg |-> Sel({-1, 1}), m |-> Sel(Sizes), big |-> Sel(1..12) ]
\* operations on a file or window: lengths are what the partition offers
SubOp(x, len) ==
  LET sp == Spot(len, x.k1, x.d, IF x.g <= len[1] THEN x.g ELSE len[1])
  IN  StreamOp(x.k2, sp, <<0, x.d>>, x.sg, IF x.big = 1 THEN 2031600 + x.d ELSE IF x.big = 2 THEN 1048576 ELSE x.m)
Init == n = 0 /\ ops = <<>> /\ c = [img |-> 0]
Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \E im \in {IF n = 0 THEN Sel(1..Len(Images)) ELSE c.img} :
     /\ c' = IF n = 0 THEN [img |-> im, short |-> Sel({0, 0, 0, 5000, 300000}), \* the source may end early: in this partition, after so many groups and bytes
                               cut |-> LET i == Sel(1..Len(Images[im].parts)) z == Images[im].parts[i].size IN IF Sel(1..4) > 1 THEN <<>> ELSE <<i, Sel({0, 1, z[1], IF z[1] > 0 THEN z[1] - 1 ELSE 0}), Sel({0, 1, 976, 1024, 32767, 65536, 1000000, 2097151})>>,
                               faults |-> Sel({<<>>, <<>>, << <<3, 0>> >>, << <<9, 0>>, <<14, 0>> >>, << <<2, 1>>, <<5, 1>>, <<20, 0>> >>, << <<31, 0>>, <<32, 0>> >>})] ELSE c
     /\ \E i \in {Sel(1..Len(Images[im].parts))} : \E x \in {Pick(n)} : \E ws \in {[ j \in 1..7 |-> Pick(j) ]} : \E kind \in {IF WindowsOnly THEN Sel(18..26) ELSE Sel(1..26)} :
          LET pt == Images[im].parts[i]
              len == IF kind \in 20..23 THEN pt.files[1 + (x.d % Len(pt.files))].len ELSE <<0, x.d * 900>>
              w == [ j \in 1..7 |-> SubOp(ws[j], len) ]
          IN  ops' = TLCEval(Append(ops, Op(Images[im], i, kind, x.k1, x.k2, x.g, x.d, x.sg, x.m, x.big, w)))
  /\ n' = MaxOps => PrintT(<<"T", ToJson([img |-> Images[c'.img], short |-> c'.short, cut |-> c'.cut, faults |-> c'.faults, ops |-> ops'])>>)
Spec == Init /\ [][Next]_<<n, ops, c>>
=============================================================================
