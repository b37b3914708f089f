----------------------------- MODULE FormatGen -----------------------------
(* Encodings of every structure: each field all zeros, all ones, only its   *)
(* first or last bit, a ramp, or random; unused bytes too.                  *)
EXTENDS Formats, Json
CONSTANT Each
VARIABLES v, k
Kinds == << <<"ticket">>, <<"part">>, <<"tmd", 0>>, <<"tmd", 1>>, <<"tmd", 2>>, <<"tmd", 7>>, <<"tmd", 300>>, <<"disc">>, <<"disc">>, <<"entry">>, <<"dol">>, <<"app">>,
            <<"cert", 1, 1>>, <<"cert", 1, 2>>, <<"cert", 2, 1>>, <<"cert", 2, 2>>, <<"cert", 3, 1>>, <<"cert", 3, 2>> >>
Titles == { <<>>, <<65>>, [ i \in 1..63 |-> 65 + (i % 26) ], [ i \in 1..64 |-> 65 + (i % 26) ], [ i \in 1..62 |-> 97 + (i % 26) ] \o <<195, 169>>,
            <<227,130,162,227,130,189>>, <<97, 32, 98>>, <<240,159,152,128>>, <<1, 127>> }
LongTitles == { [ i \in 1..n |-> 65 + (i % 26) ] : n \in {0, 1, 62, 63, 64, 65, 66, 100, 200} }
              \cup { [ i \in 1..n |-> 65 ] \o <<227,130,162>> \o [ i \in 1..9 |-> 66 ] : n \in 58..66 }
              \cup { FlattenSeq([ i \in 1..n |-> <<240,159,152,128>> ]) : n \in {15, 16, 17, 40} }
Fill(how, n, o) ==
  CASE how = 1 -> [ i \in 1..n |-> 0 ] [] how = 2 -> [ i \in 1..n |-> 255 ] [] how = 3 -> [ i \in 1..n |-> IF i = 1 THEN 128 ELSE 0 ]
    [] how = 4 -> [ i \in 1..n |-> IF i = n THEN 1 ELSE 0 ] [] how = 5 -> [ i \in 1..n |-> (7 * (o + i) + ((o + i) \div 37)) % 256 ]
    [] OTHER -> [ i \in 1..n |-> RandomElement(0..255) ]
Field(x, f, how) ==
  CASE f[1] = "sig_type" -> SigTypes[IF x[1] = "cert" THEN x[2] ELSE 1 + (how % 3)]
    [] f[1] = "key_type" -> KeyTypes[x[3]]
    [] f[1] = "common_key_idx" -> << how % 2 >>
    [] f[1] = "num_contents" -> << x[2] \div 256, x[2] % 256 >>
    [] f[1] = "type" /\ x[1] = "entry" -> << 0, 0, 0, how % 3 >>
    [] f[4] = "t" -> LET s == RandomElement(Titles) IN IF Len(s) >= 63 THEN s \o Zeros(64 - Len(s)) ELSE s \o <<0>> \o [ i \in 1..(63 - Len(s)) |-> RandomElement(0..255) ]
    [] OTHER -> Fill(how, f[3], f[2])
Sample(x) == LET t == Table(x) IN FlattenSeq([ j \in 1..Len(t) |-> Field(x, t[j], RandomElement(1..8)) ])
\* a selector field (signature type, key type, partition type, common key) with a value that selects nothing
BadKinds == << <<<<"ticket">>, "sig_type">>, <<<<"ticket">>, "common_key_idx">>, <<<<"part">>, "common_key_idx">>, <<<<"part">>, "sig_type">>, <<<<"tmd", 1>>, "sig_type">>,
               <<<<"entry">>, "type">>, <<<<"cert", 2, 2>>, "sig_type">>, <<<<"cert", 1, 1>>, "key_type">> >>
BadVals(nm) ==
  CASE nm = "common_key_idx" -> { <<2>>, <<3>>, <<4>>, <<127>>, <<128>>, <<129>>, <<254>>, <<255>> }
    [] nm = "sig_type" -> { <<0,0,0,0>>, <<0,0,0,1>>, <<0,1,0,3>>, <<0,1,0,4>>, <<1,1,0,1>>, <<0,1,1,1>>, <<128,1,0,1>>, <<255,255,255,255>> }
    [] nm = "key_type" -> { <<0,0,0,3>>, <<0,0,1,0>>, <<0,0,1,1>>, <<1,0,0,0>>, <<255,255,255,255>> }
    [] OTHER -> { <<0,0,0,3>>, <<0,0,0,4>>, <<0,0,1,0>>, <<0,0,1,1>>, <<1,0,0,0>>, <<128,0,0,1>>, <<255,255,255,255>> }
BadOf(x, nm, val) == LET t == Table(x) IN FlattenSeq([ j \in 1..Len(t) |-> IF t[j][1] = nm THEN val ELSE Field(x, t[j], RandomElement(1..8)) ])
Init == v \in 1..Len(Kinds) /\ k = 0
        /\ (v = 1 => \A j \in 1..Len(BadKinds) : \A val \in BadVals(BadKinds[j][2]) :
              \E b \in {TLCEval(BadOf(BadKinds[j][1], BadKinds[j][2], val))} : PrintT(<<"T", ToJson([v |-> <<"bad", BadKinds[j][1][1], BadKinds[j][2]>>, b |-> b])>>))
        /\ (v = 1 => \A s \in LongTitles : PrintT(<<"T", ToJson([v |-> <<"title">>, b |-> s])>>))
        \* a title in Shift-JIS
        /\ (v = 1 => PrintT(<<"T", ToJson([v |-> <<"rawtitle">>, b |-> <<131, 65, 131, 92>>])>>))
Next == k < Each /\ k' = k + 1 /\ UNCHANGED v
        /\ \E b \in {TLCEval(Sample(Kinds[v]))} : PrintT(<<"T", ToJson([v |-> Kinds[v], b |-> b])>>)
Spec == Init /\ [][Next]_<<v, k>>
=============================================================================
