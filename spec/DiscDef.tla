------------------------------ MODULE DiscDef ------------------------------
(* What a user hands to the disc builder, and which of it must be refused.  *)
(*  disc  [seed, title, dest, parts]                                        *)
(*  part  [seed, t, key, ntmd, certs, title, bi2, app, dol, ann, fail, tree]*)
(*  tree  directories [k |-> "d", n, c], files [k |-> "f", n, id, sz, pad], *)
(*        runs of numbered files [k |-> "r", n, w, cnt, id, sz]: files named*)
(*        n followed by the w-digit decimals 0 .. cnt-1, numbered from id   *)
(* Contents are symbolic: file contents are blob number id of sz bytes.     *)
EXTENDS Names, TLC

Align(x, a) == ((x + a - 1) \div a) * a
BlockData == 31744          \* 0x7C00
GroupData == 2031616        \* 0x1F0000
Batch     == 16777216       \* bytes the builder writes at a time

RECURSIVE FilesIn(_, _)
FilesIn(list, prefix) ==
  TLCEval(FlattenSeq(TLCEval([ i \in 1..Len(list) |->
     LET p == TLCEval(Append(prefix, list[i].n)) IN
     IF list[i].k = "f" THEN << [p |-> p, f |-> list[i]] >> ELSE IF list[i].k = "r" THEN <<>> ELSE FilesIn(list[i].c, p) ])))
Files(part) == FilesIn(part.tree, <<>>)

RECURSIVE NamesIn(_)
NamesIn(list) ==
  FlattenSeq([ i \in 1..Len(list) |->
     IF list[i].k # "d" THEN << list[i].n >> ELSE << list[i].n >> \o NamesIn(list[i].c) ])

CertSize(c) == << 512, 256, 64 >>[c[1] + 1] + << 512, 256 >>[c[2] + 1] + 4 + 60 + 64 + 4 + 64 + 8 + 52
CertsSize(part) == CertSize(part.certs[1]) + CertSize(part.certs[2]) + CertSize(part.certs[3])
TmdSize(part) == 484 + 36 * part.ntmd

(* Does one of the definition's own callbacks fail?                          *)
CallbackFails(part) ==
  /\ part.fail # <<>>
  /\ \/ part.fail[1] \in { "hdr", "bi2", "app", "fst", "dol" }
     \/ \E k \in 0..(Len(Files(part)) - 1) : part.fail[1] = "f" \o ToString(k)

(* Bytes taken by the stored names, and by the last of them.                *)
RECURSIVE NameBytes(_)
NameBytes(list) ==
  IF list = <<>> THEN 0
  ELSE LET h == Head(list)  l == Len(ToSjis(h.n)) + 1 IN
       (CASE h.k = "f" -> l [] h.k = "d" -> l + NameBytes(h.c) [] h.k = "r" -> h.cnt * (l + h.w)) + NameBytes(Tail(list))
RECURSIVE LastName(_)
LastName(list) ==
  IF list = <<>> THEN 0
  ELSE LET h == Last(list)  l == Len(ToSjis(h.n)) + 1 IN
       CASE h.k = "f" -> l [] h.k = "d" -> (IF h.c = <<>> THEN l ELSE LastName(h.c)) [] h.k = "r" -> l + h.w
(* Name offsets are stored in 24 bits.                                      *)
NamesFit(list) == 1 + NameBytes(list) - LastName(list) <= 16777215

(* Definitions that cannot be put on a disc faithfully.                     *)
Unbuildable(part) ==
  \/ \E k \in 1..Len(NamesIn(part.tree)) : ~Representable(NamesIn(part.tree)[k])
  \/ /\ \A k \in 1..Len(NamesIn(part.tree)) : Representable(NamesIn(part.tree)[k])
     /\ ~NamesFit(part.tree)
  \/ part.bi2 > 8192
  \/ part.ntmd = 0
  \/ Align(704 + TmdSize(part), 32) + CertsSize(part) > 32768
MustFail(part) == CallbackFails(part) \/ Unbuildable(part)
=============================================================================
