------------------------------ MODULE FstTable ------------------------------
(* The on-disc file system table: 12-byte big-endian nodes in pre-order     *)
(* followed by a table of zero-terminated Shift-JIS names.                  *)
(*   byte 0      0 = file, anything else = directory                        *)
(*   bytes 1-3   name offset into the name table                            *)
(*   bytes 4-7   file: data offset in 4-byte units; directory: parent index *)
(*   bytes 8-11  file: byte length; directory: index past last descendant   *)
(* 32-bit quantities are pairs <<hi, lo>> of 16-bit halves (TLC integers    *)
(* are 31 bits wide).                                                       *)
EXTENDS FstTree

U(hi, lo) == <<hi, lo>>
Huge == 1000000000                                   \* larger than any table
ToInt(u) == IF u[1] >= 15000 THEN Huge ELSE u[1] * 65536 + u[2]
FromInt(i) == << i \div 65536, i % 65536 >>

Halves(bs, at) == << bs[at] * 256 + bs[at + 1], bs[at + 2] * 256 + bs[at + 3] >>
Node(bs, i) ==                                        \* i counts from 0
  [ t  |-> bs[12 * i + 1],
    no |-> bs[12 * i + 2] * 65536 + bs[12 * i + 3] * 256 + bs[12 * i + 4],
    o  |-> Halves(bs, 12 * i + 5),
    l  |-> Halves(bs, 12 * i + 9) ]

Err == [ok |-> FALSE, t |-> <<>>, i |-> 0]

(* A zero-terminated name starting at 1-based byte position at.             *)
RECURSIVE NameEnd(_, _)
NameEnd(bs, at) == IF at > Len(bs) THEN 0 ELSE IF bs[at] = 0 THEN at ELSE NameEnd(bs, at + 1)
NameAt(bs, at) ==
  LET e == NameEnd(bs, at) IN
  IF e = 0 THEN Bad ELSE FromSjis(SubSeq(bs, at, e - 1))

(* Children idx..end-1 of a directory whose range ends at end.              *)
RECURSIVE ParseList(_, _, _, _)
ParseList(bs, strOff, idx, end) ==
  IF idx = end THEN [ok |-> TRUE, t |-> <<>>, i |-> idx]
  ELSE LET nd == Node(bs, idx)
           nm == NameAt(bs, strOff + nd.no + 1)
       IN  IF nm = Bad THEN Err
           ELSE IF nd.t = 0
           THEN LET r == ParseList(bs, strOff, idx + 1, end)
                IN  IF ~r.ok THEN Err
                    ELSE [ok |-> TRUE, t |-> << File(nm, nd.o, nd.l) >> \o r.t, i |-> r.i]
           ELSE LET cend == ToInt(nd.l)
                IN  IF cend < idx + 1 \/ cend > end THEN Err     \* must nest in the parent
                    ELSE LET c == ParseList(bs, strOff, idx + 1, cend)
                         IN  IF ~c.ok THEN Err
                             ELSE LET r == ParseList(bs, strOff, cend, end)
                                  IN  IF ~r.ok THEN Err
                                      ELSE [ok |-> TRUE, t |-> << Dir(nm, c.t) >> \o r.t, i |-> r.i]

(* What reading a table from bs means: Err or the tree.                     *)
Decode(bs) ==
  IF Len(bs) < 12 THEN Err
  ELSE LET root == Node(bs, 0)
           n    == ToInt(root.l)
       IN  IF root.t = 0 \/ root.o # <<0, 0>> \/ n = 0 \/ n > Len(bs) \div 12 THEN Err
           ELSE ParseList(bs, 12 * n, 1, n)

----------------------------------------------------------------------------
(* Writing.  One encoder (names laid out in node order after an empty root  *)
(* name); any encoder whose output satisfies WellFormed is acceptable.      *)
FirstBad(tree) == \E e \in Paths(tree) : ~Representable(Last(e))
Encodable(tree) == ~FirstBad(tree)

RECURSIVE Raw(_, _, _, _)
\* list, parent index, next index, next name offset -> [nodes, names, idx, no]
Raw(list, parent, idx, no) ==
  IF list = <<>> THEN [nodes |-> <<>>, names |-> <<>>, idx |-> idx, no |-> no]
  ELSE LET h == Head(list)
           nm == ToSjis(h.n) \o <<0>>
           sub == IF h.k = "d" THEN Raw(h.c, idx, idx + 1, no + Len(nm))
                  ELSE [nodes |-> <<>>, names |-> <<>>, idx |-> idx + 1, no |-> no + Len(nm)]
           me == IF h.k = "d" THEN [t |-> 1, no |-> no, o |-> FromInt(parent), l |-> FromInt(sub.idx)]
                 ELSE [t |-> 0, no |-> no, o |-> h.o, l |-> h.l]
           r == Raw(Tail(list), parent, sub.idx, sub.no)
       IN  [nodes |-> <<me>> \o sub.nodes \o r.nodes, names |-> nm \o sub.names \o r.names,
            idx |-> r.idx, no |-> r.no]

B4(u) == << u[1] \div 256, u[1] % 256, u[2] \div 256, u[2] % 256 >>
NodeBytes(nd) == << nd.t, nd.no \div 65536, (nd.no \div 256) % 256, nd.no % 256 >> \o B4(nd.o) \o B4(nd.l)
RECURSIVE AllBytes(_)
AllBytes(nodes) == IF nodes = <<>> THEN <<>> ELSE NodeBytes(Head(nodes)) \o AllBytes(Tail(nodes))
Encode(tree) ==
  LET r == Raw(tree, 0, 1, 1)
      root == [t |-> 1, no |-> 0, o |-> <<0, 0>>, l |-> FromInt(r.idx)]
  IN  AllBytes(<<root>> \o r.nodes) \o <<0>> \o r.names

(* Parent indices as the console expects them.                              *)
RECURSIVE ParentsOk(_, _, _)
ParentsOk(bs, list, cur) ==     \* cur = [parent, idx]; TRUE/FALSE with next index
  IF list = <<>> THEN [ok |-> TRUE, idx |-> cur.idx]
  ELSE LET h == Head(list)
           nd == Node(bs, cur.idx)
           me == (h.k = "d") => ToInt(nd.o) = cur.parent
           sub == IF h.k = "d" THEN ParentsOk(bs, h.c, [parent |-> cur.idx, idx |-> cur.idx + 1])
                  ELSE [ok |-> TRUE, idx |-> cur.idx + 1]
           r == ParentsOk(bs, Tail(list), [parent |-> cur.parent, idx |-> sub.idx])
       IN  [ok |-> me /\ sub.ok /\ r.ok, idx |-> r.idx]

WellFormed(bs, tree) ==
  LET d == Decode(bs) IN
  /\ d.ok /\ d.t = tree
  /\ ToInt(Node(bs, 0).l) = Size(tree) + 1
  /\ ParentsOk(bs, tree, [parent |-> 0, idx |-> 1]).ok
=============================================================================
