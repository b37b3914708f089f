---------------------------- MODULE FormatTrace ----------------------------
(* Judges what the library decoded and encoded again.                       *)
(*  [v, b, ok, f (fields decoded, by name), enc, key, rekey]                *)
EXTENDS Formats, TraceLib
VARIABLE i
Prefix(s, n) == SubSeq(s, 1, n)
HeaderWith(x, t) == \* the header of reference with the title field replaced
  SubSeq(x.ref, 1, 32) \o t \o SubSeq(x.ref, 97, Len(x.ref))
Judge(x) ==
  IF x.v[1] = "bad" THEN Clause("unknown_" \o x.v[3] \o "_accepted", ~x.ok) ELSE
  IF x.v[1] = "title" THEN
    Clause("title_displaces_fields", Len(x.enc) = Len(x.ref) /\ SubSeq(x.enc, 1, 32) = SubSeq(x.ref, 1, 32) /\ SubSeq(x.enc, 97, Len(x.enc)) = SubSeq(x.ref, 97, Len(x.ref)))
    \cup Clause("title_bytes", \E n \in 0..64 : n <= Len(x.b) /\ (Len(x.b) <= 64 => n = Len(x.b)) /\ (Len(x.b) > 64 => n > 60)
                               /\ SubSeq(x.enc, 33, 96) = Prefix(x.b, n) \o Zeros(64 - n))
    \cup Clause("title_decodes", x.back = Text(SubSeq(x.enc, 33, 96)))
  ELSE IF x.v[1] = "rawtitle" THEN Clause("title_bytes", SubSeq(x.enc, 33, 96) = x.b \o Zeros(64 - Len(x.b)))
  ELSE LET t == Table(x.v)
       IN  IF ~x.ok THEN {"valid_encoding_refused"}
           ELSE UNION { IF t[k][4] \in {"-", "k", "n"} THEN {}
                        ELSE Clause("field_" \o t[k][1], t[k][1] \in DOMAIN x.f /\ x.f[t[k][1]] = Value(x.b, t[k])) : k \in 1..Len(t) }
                \cup Clause("encoded_again", x.enc = Canon(x.b, t))
                \cup Clause("consumed_size", x.used = Len(x.b))
                \cup (IF x.v[1] \in {"ticket", "part"} THEN Clause("title_key", x.key) \cup Clause("title_key_encrypted", x.rekey) ELSE {})
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
