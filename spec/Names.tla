------------------------------- MODULE Names -------------------------------
(* Entry names of the file system table.  A name is the sequence of the     *)
(* UTF-8 bytes of the string a user of the library sees; on disc the name   *)
(* is stored in Shift-JIS.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b

(* Three-way comparison of two names ignoring ASCII case: byte-wise, a      *)
(* proper prefix sorts first.  Result -1, 0 or 1.                           *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  LET ca == IF i <= Len(a) THEN Lower(a[i]) ELSE 0
      cb == IF i <= Len(b) THEN Lower(b[i]) ELSE 0
  IN  IF ca < cb THEN -1
      ELSE IF ca > cb THEN 1
      ELSE IF i > Len(a) \/ i > Len(b) THEN 0
      ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)

SameName(a, b) == Cmp(a, b) = 0

----------------------------------------------------------------------------
(* Shift-JIS.  ASCII maps to itself; the multi-byte repertoire the checks   *)
(* use is listed explicitly as <<UTF-8 bytes, Shift-JIS bytes>>.            *)
(* Everything else is "not representable on disc".                          *)
Repertoire ==
  << << <<227,130,162>>, <<131,65>> >>,      \* KATAKANA A         83 41
     << <<227,130,189>>, <<131,92>> >>,      \* KATAKANA SO        83 5C (trail byte is a backslash)
     << <<232,161,168>>, <<149,92>> >>,      \* KANJI hyou         95 5C
     << <<233,173,148>>, <<150,130>> >>,     \* KANJI ma           96 82
     << <<227,129,130>>, <<130,160>> >>,     \* HIRAGANA A         82 A0
     << <<239,189,177>>, <<177>> >>,         \* HALFWIDTH A        B1
     << <<239,188,141>>, <<129,124>> >>,     \* FULLWIDTH HYPHEN   81 7C
     << <<239,188,158>>, <<129,132>> >>,     \* FULLWIDTH >        81 84
     << <<227,128,128>>, <<129,64>> >>,      \* IDEOGRAPHIC SPACE  81 40
     << <<232,162,171>>, <<148,237>> >>,     \* KANJI hi           94 ED
     << <<233,187,145>>, <<141,149>> >>,     \* KANJI kuro         8D 95
     << <<206,177>>, <<131,191>> >>,         \* GREEK alpha        83 BF
     << <<209,143>>, <<132,145>> >>,         \* CYRILLIC ya        84 91
     << <<239,189,187>>, <<187>> >>,         \* HALFWIDTH SA       BB
     << <<239,189,191>>, <<191>> >>,         \* HALFWIDTH SO       BF
     << <<194,128>>, <<128>> >> >>           \* U+0080             80

(* Strings that must be refused because Shift-JIS has no faithful encoding. *)
Unfaithful ==
  << <<194,165>>,          \* YEN SIGN        (would come back as a backslash)
     <<226,128,190>>,      \* OVERLINE        (would come back as a tilde)
     <<226,136,146>>,      \* MINUS SIGN      (would come back as FULLWIDTH HYPHEN)
     <<195,169>>,          \* e acute         (no encoding)
     <<240,159,152,128>>,  \* emoji           (no encoding)
     <<0>> >>              \* NUL             (terminates the stored name)

Bad == << -1 >>

CharToSjis(ch) ==
  IF Len(ch) = 1 THEN (IF ch[1] = 0 THEN Bad ELSE ch)
  ELSE LET hits == { i \in 1..Len(Repertoire) : Repertoire[i][1] = ch }
       IN  IF hits = {} THEN Bad ELSE Repertoire[CHOOSE i \in hits : TRUE][2]

(* A name split into its characters (UTF-8 continuation bytes are 128..191). *)
Chars(n) ==
  LET st == SetToSortSeq({ i \in 1..Len(n) : n[i] \notin 128..191 }, LAMBDA x, y : x < y)
  IN  [ j \in 1..Len(st) |-> SubSeq(n, st[j], IF j = Len(st) THEN Len(n) ELSE st[j + 1] - 1) ]
ToSjis(n) ==
  LET cs == Chars(n)
      es == [ j \in 1..Len(cs) |-> CharToSjis(cs[j]) ]
  IN  IF \E j \in 1..Len(es) : es[j] = Bad THEN Bad ELSE FlattenSeq(es)
Representable(n) == ToSjis(n) # Bad

(* Decoding of the repertoire (inverse of ToSjis); Bad for anything else.   *)
RECURSIVE FromSjisFrom(_, _)
FromSjisFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] < 128 THEN
         LET r == FromSjisFrom(s, i + 1) IN IF r = Bad THEN Bad ELSE <<s[i]>> \o r
       ELSE LET two == { j \in 1..Len(Repertoire) :
                           /\ i + Len(Repertoire[j][2]) - 1 <= Len(s)
                           /\ SubSeq(s, i, i + Len(Repertoire[j][2]) - 1) = Repertoire[j][2] }
            IN IF two = {} THEN Bad
               ELSE LET j == CHOOSE x \in two : TRUE
                        r == FromSjisFrom(s, i + Len(Repertoire[j][2]))
                    IN  IF r = Bad THEN Bad ELSE Repertoire[j][1] \o r
FromSjis(s) == FromSjisFrom(s, 1)
=============================================================================
