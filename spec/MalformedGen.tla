--------------------------- MODULE MalformedGen ---------------------------
(* Images with arbitrary values in the fields the format documents          *)
(* (Formats): every field singly at boundary values, every truncation point *)
(* of a list, and random combinations of 2 to 4 of them.                    *)
EXTENDS Formats, Json
CONSTANT Singles
VARIABLES ps, want, cut
F(nm, at, len) == [name |-> nm, at |-> at, len |-> len]
\* 2 partitions of one image; off in 4-byte units, positions <<group, byte>>
FstAt == << 120000, 24000 >>
DolAt == << 80000, 20000 >>
Off   == << 327680, 8388608 >>
Image == [seed |-> 11, parts |-> <<
   [t |-> 0, ki |-> 0, off |-> 81920, size |-> <<2, 0>>, fstAt |-> <<0, FstAt[1]>>, app |-> <<100, 30000>>, dol |-> [at |-> <<0, DolAt[1]>>, off |-> 256, sizes |-> <<1000, 0, 30000>>],
    files |-> << F("a", <<0, 200000>>, <<0, 50000>>), F("b/c", <<0, 2000000>>, <<0, 100000>>), F("b/d", <<1, 1900000>>, <<0, 500>>), F("z", <<1, 4>>, <<0, 0>>) >>],
   [t |-> 1, ki |-> 1, off |-> 2097152, size |-> <<0, 60000>>, fstAt |-> <<0, FstAt[2]>>, app |-> <<0, 0>>, dol |-> [at |-> <<0, DolAt[2]>>, off |-> 0, sizes |-> <<5>>],
    files |-> << F("X", <<0, 31740>>, <<0, 9000>>) >>] >>]
\* a site: <<space, partition, position, length>>; space "raw" or "plain"
Flat(S) == FlattenSeq(S)
\* each 4-byte word of fields that are longer (up to 28 of them are interesting in dol headers)
Words(space, p, base, t) ==
  Flat([ k \in 1..Len(t) |->
     IF t[k][4] = "-" THEN <<>>
     ELSE IF t[k][3] <= 4 THEN << <<space, p, base + t[k][2], t[k][3]>> >>
     ELSE [ w \in 1..(IF t[k][3] > 48 THEN 1 ELSE t[k][3] \div 4) |-> <<space, p, base + t[k][2] + 4 * (w - 1), 4>> ] ])
Sites ==
  Words("raw", 1, 0, DiscFields)
  \o [ w \in 1..12 |-> <<"raw", 1, 262144 + 4 * (w - 1), 4>> ]                 \* partition tables and entries
  \o Flat([ p \in 1..2 |->
       Words("raw", p, Off[p], PartHeaderFields) \o Words("raw", p, Off[p] + 704, TmdFields(1))
       \o << <<"raw", p, Off[p] + 1280, 4>>, <<"raw", p, Off[p] + 1280 + 4 + 512 + 60 + 64, 4>>, <<"raw", p, Off[p] + 1280 + 4 + 256 + 60 + 64, 4>> >>
       \o Words("plain", p, 0, DiscFields) \o Words("plain", p, 9280, AppFields) \o Words("plain", p, DolAt[p], DolFields)
       \o [ w \in 1..(3 * (IF p = 1 THEN 6 ELSE 2)) |-> <<"plain", p, FstAt[p] + 4 * (w - 1), 4>> ] ])
V4 == << <<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,2>>, <<0,0,0,3>>, <<0,0,0,4>>, <<0,0,0,5>>, <<0,0,0,6>>, <<0,0,0,7>>, <<0,0,0,32>>, <<0,0,1,0>>, <<0,0,1,15>>, <<0,0,1,16>>,
         <<0,0,58,152>>, <<0,0,58,153>>, <<0,0,255,255>>, <<0,1,0,0>>, <<0,1,0,1>>, <<0,1,0,2>>, <<0,1,0,3>>, <<0,7,191,255>>, <<0,7,192,0>>, <<0,15,128,0>>, <<0,16,0,0>>,
         <<0,255,255,255>>, <<1,0,0,0>>, <<1,0,0,1>>, <<1,255,255,255>>, <<2,0,0,0>>, <<63,255,255,255>>, <<64,0,0,0>>, <<127,255,255,255>>, <<128,0,0,0>>, <<192,0,0,0>>,
         <<255,0,0,0>>, <<255,255,255,252>>, <<255,255,255,254>>, <<255,255,255,255>> >>
V2 == << <<0,0>>, <<0,1>>, <<0,2>>, <<1,0>>, <<127,255>>, <<128,0>>, <<255,255>> >>
V1 == << <<0>>, <<1>>, <<2>>, <<3>>, <<127>>, <<128>>, <<255>> >>
Vals(s) == CASE s[4] = 4 -> V4 [] s[4] = 2 -> V2 [] s[4] = 1 -> V1 [] OTHER -> << [ k \in 1..s[4] |-> 0 ], [ k \in 1..s[4] |-> 255 ] >>
Cuts == << 0, 1, 100, 1087, 1088, 262143, 262144, 262147, 262152, 262175, 262176, 262180, 262191, 262192, 319487, 319488, 319519, 319520, 327680, 327681, 328383, 328384, 328868, 329000,
           331000, 360448, 458751, 458752, 458753, 2555903, 2555904, 2555905, 4653055, 4653056, 4653057, 8388608, 8389000, 8519680, 8519681, 8600000, 10616831 >>
Patch(s, v) == [s |-> s[1], p |-> s[2], at |-> s[3], b |-> v]
Sel(S) == RandomElement(S)
Emit(x, c) == PrintT(<<"T", ToJson([img |-> Image, ps |-> x, cut |-> c])>>)
InitS == /\ ps \in ({ <<>> } \cup UNION { { << Patch(Sites[k], Vals(Sites[k])[j]) >> : j \in 1..Len(Vals(Sites[k])) } : k \in 1..Len(Sites) })
         /\ cut \in (IF ps = <<>> THEN { -1 } \cup { Cuts[k] : k \in 1..Len(Cuts) } ELSE { -1 })
         /\ want = 0 /\ Emit(ps, cut)
InitR == ps = <<>> /\ want = -1 /\ cut = -1
Start == want = -1 /\ (\E n \in {Sel(2..4)}, c \in {Sel(1..8)}, x \in {Sel(1..Len(Cuts))} : want' = n /\ cut' = (IF c = 1 THEN Cuts[x] ELSE -1)) /\ UNCHANGED ps
Add == /\ want > 0
       /\ \E k \in {Sel(1..Len(Sites))}, j \in {Sel(1..1000)} :
            ps' = TLCEval(Append(ps, Patch(Sites[k], Vals(Sites[k])[1 + (j % Len(Vals(Sites[k])))])))
       /\ want' = want - 1 /\ UNCHANGED cut
Done == want = 0 /\ ~Singles /\ Emit(ps, cut) /\ want' = -2 /\ UNCHANGED <<ps, cut>>
Init == IF Singles THEN InitS ELSE InitR
Next == ~Singles /\ (Start \/ Add \/ Done)
Spec == Init /\ [][Next]_<<ps, want, cut>>
=============================================================================
