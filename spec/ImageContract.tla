--------------------------- MODULE ImageContract ---------------------------
(* What a finished disc image has to look like for the definition it was    *)
(* built from.  Independent of how the builder lays things out.             *)
(*  x.def  the definition (DiscDef)                                         *)
(*  x.img  what an independent decoder found in the image, and what the     *)
(*         library's own reader returned (x.img.rd)                         *)
(* Offsets and sizes of regions are in words of 4 bytes.                    *)
EXTENDS DiscDef

Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
OkIdx(x) == SelectSeq([ k \in 1..Len(x.def.parts) |-> k ], LAMBDA k : k <= Len(x.img.adds) /\ x.img.adds[k])
(* Definition and observation of the k-th listed partition.                 *)
DefOf(x, k) == x.def.parts[OkIdx(x)[k]]
Listed(x) == 1..Len(OkIdx(x))
Seen(x, k) == IF k <= Len(x.img.parts) THEN x.img.parts[k] ELSE [ok |-> FALSE]
ReadBack(x, k) == IF x.img.rd.ok /\ k <= Len(x.img.rd.parts) THEN x.img.rd.parts[k] ELSE [ok |-> FALSE]
Each(x, C(_, _)) == UNION { C(DefOf(x, k), Seen(x, k)) : k \in Listed(x) }

RECURSIVE SameTree(_, _, _)
SameTree(def, got, sj) ==
  /\ Len(def) = Len(got)
  /\ \A i \in 1..Len(def) :
       /\ def[i].k = got[i].k
       /\ (IF sj THEN ToSjis(def[i].n) ELSE def[i].n) = got[i].n
       /\ IF def[i].k = "r" THEN got[i].cnt = def[i].cnt /\ got[i].w = def[i].w /\ got[i].l = def[i].sz /\ got[i].id = def[i].id
          ELSE IF def[i].k = "d" THEN SameTree(def[i].c, got[i].c, sj)
          ELSE got[i].l = def[i].sz /\ got[i].id = def[i].id

Builds(x) == Clause("a_buildable_definition_was_refused", x.img.res = "ok" /\ \A k \in 1..Len(x.def.parts) : x.img.adds[k])

----------------------------------------------------------------------------
(* C01: contents.                                                           *)
LocationFields == 1056..1071      \* dol, fst offset, fst size, fst max size
Contents(d, p) ==
  IF ~p.ok THEN {"partition_unreadable"}
  ELSE Clause("tree", SameTree(d.tree, p.tree, TRUE))
       \cup Clause("boot_header", \A j \in 1..Len(p.boot_diff) : p.boot_diff[j] \in LocationFields)
       \cup Clause("bi2", p.bi2_ok) \cup Clause("apploader", p.app_ok) \cup Clause("dol", p.dol_ok)
ReaderSees(d, r) ==
  IF ~r.ok THEN {"reader_cannot_read_partition"}
  ELSE Clause("reader_tree", SameTree(d.tree, r.tree, FALSE)) \cup Clause("reader_by_path", r.bypath)
       \cup Clause("reader_boot_header", r.boot) \cup Clause("reader_bi2", r.bi2)
       \cup Clause("reader_apploader", r.app) \cup Clause("reader_dol", r.dol)
       \cup Clause("reader_type", r.t = d.t)
C01(x) ==
  IF x.img.res # "ok" THEN {}
  ELSE Clause("disc_header", x.img.hdr_diff = <<>>) \cup Clause("region", x.img.region)
       \cup Each(x, Contents)
       \cup (IF ~x.img.rd.ok THEN {"reader_cannot_open"}
             ELSE Clause("reader_header", x.img.rd.hdr) \cup Clause("reader_region", x.img.rd.region)
                  \cup Clause("reader_partitions", x.img.rd.n = Len(OkIdx(x)))
                  \cup UNION { ReaderSees(DefOf(x, k), ReadBack(x, k)) : k \in Listed(x) })

----------------------------------------------------------------------------
(* C02: hash tree.                                                          *)
Hashes(d, p) ==
  IF ~Has(p, "gbad") THEN {"partition_unreadable"}
  ELSE Clause("groups_present", p.present) \cup Clause("group_hashes", p.gbad = <<>>)
       \cup Clause("global_hash_table", p.h3bad = <<>>) \cup Clause("unused_global_hashes", p.h3_rest_zero)
C02(x) == IF x.img.res # "ok" THEN {} ELSE Each(x, Hashes)

----------------------------------------------------------------------------
(* C03: layout.  A region is <<first word, words>>.                         *)
Words(b) == (b + 3) \div 4
RegionsDisjoint(rs) ==
  \A i \in 1..Len(rs) : \A j \in 1..Len(rs) :
     (i < j /\ rs[i][2] > 0 /\ rs[j][2] > 0) => (rs[i][1] + rs[i][2] <= rs[j][1] \/ rs[j][1] + rs[j][2] <= rs[i][1])
Within(rs, n) == \A i \in 1..Len(rs) : rs[i][1] >= 0 /\ rs[i][2] >= 0 /\ rs[i][1] + rs[i][2] <= n
GroupWords == GroupData \div 4
PartRegions(p) ==
  << <<p.off, 176>>, <<p.off + p.tmd_off, Words(p.tmd_size)>>, <<p.off + p.cert_off, Words(p.cert_size)>>,
     <<p.off + p.h3_off, 24576>>, <<p.off + p.data_off, (p.data_size \div GroupWords) * 524288>> >>
RECURSIVE FileRegions(_, _)
FileRegions(def, got) ==
  FlattenSeq([ i \in 1..Len(def) |->
     IF def[i].k = "d" THEN FileRegions(def[i].c, got[i].c)
     ELSE IF def[i].k = "r" THEN << <<IF got[i].st * 4 >= got[i].l THEN got[i].o ELSE -1, (got[i].cnt - 1) * got[i].st + Words(got[i].l)>> >>
     ELSE << <<got[i].o, Words(got[i].l + def[i].pad)>> >> ])
InnerRegions(d, p) ==
  << <<0, 272>>, <<272, 2048>>, <<2320, Words(d.app)>>, <<p.dol_off, Words(d.dol)>>, <<p.fst_off, p.fst_sz>> >>
  \o FileRegions(d.tree, p.tree)
Layout(d, p) ==
  IF ~p.ok THEN {"partition_unreadable"}
  ELSE IF ~SameTree(d.tree, p.tree, TRUE) THEN {"tree"}
  ELSE LET inner == InnerRegions(d, p) IN
       Clause("whole_groups", p.whole_groups /\ p.present)
       \cup Clause("metadata_sizes", p.tmd_size = TmdSize(d) /\ p.cert_size = CertsSize(d))
       \cup Clause("metadata_where_recorded", p.cert_diff = <<>> /\ \A j \in 1..Len(p.tmd_diff) : p.tmd_diff[j] < 1000000)
       \cup Clause("file_table_extent", p.fst_sz * 4 >= p.fst_used /\ p.fst_max >= p.fst_sz)
       \cup Clause("inner_regions_disjoint", RegionsDisjoint(inner))
       \cup Clause("inner_regions_in_bounds", Within(inner, p.data_size))
       \cup Clause("system_files_where_recorded", p.bi2_ok /\ p.app_ok /\ p.dol_ok)
C03(x) ==
  IF x.img.res # "ok" THEN {}
  ELSE Each(x, Layout)
       \cup (IF \E k \in Listed(x) : ~Seen(x, k).ok THEN {}
             ELSE LET outer == << <<0, 272>>, <<65536, 8>>, <<79872, 8>> >>
                               \o << <<65544, 2 * Len(x.img.table)>> >>
                               \o FlattenSeq([ k \in 1..Len(OkIdx(x)) |-> PartRegions(Seen(x, k)) ])
                  IN  Clause("outer_regions_disjoint", RegionsDisjoint(outer))
                      \cup Clause("outer_regions_in_bounds", Within(outer, x.img.len)))

----------------------------------------------------------------------------
(* C13: title metadata.                                                     *)
Signature == 4..259
FakeSign  == 410..465
ContentSizeHash == 492..519
Metadata(d, p) ==
  IF ~Has(p, "tmd_sha0") THEN {"partition_unreadable"}
  ELSE Clause("ticket", p.tick_diff = <<>>) \cup Clause("certificates", p.cert_diff = <<>>)
       \cup Clause("tmd_only_where_allowed", \A j \in 1..Len(p.tmd_diff) : p.tmd_diff[j] \in Signature \cup FakeSign \cup ContentSizeHash)
       \cup Clause("tmd_signature_zeroed", p.tmd_sig_zero) \cup Clause("tmd_content_size", p.tmd_c0_size = p.data_size)
       \cup Clause("tmd_content_hash", p.tmd_hash_ok) \cup Clause("tmd_fake_signed", p.tmd_sha0 = 0)
C13(x) == IF x.img.res # "ok" THEN {} ELSE
          Each(x, Metadata)
          \cup UNION { IF ReadBack(x, k).ok THEN Clause("reader_ticket", ReadBack(x, k).ticket) \cup Clause("reader_certificates", ReadBack(x, k).certs)
                       ELSE {} : k \in Listed(x) }

----------------------------------------------------------------------------
(* C17: progress.  prog[j] = <<value, number of files asked for so far>>.   *)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Progress(d, prog) ==
  LET fs == Files(d)
      sz == IF d.ann = "exact" THEN [ k \in 1..Len(fs) |-> fs[k].f.sz ] ELSE [ k \in 1..Len(fs) |-> 0 ]
      \* in KiB, rounded down and up, where bytes would not fit into 32 bits
      kib == Sum([ k \in 1..Len(fs) |-> sz[k] \div 1024 ], Len(fs))
      w == IF \A k \in 1..Len(fs) : sz[k] = 0 THEN [ k \in 1..Len(fs) |-> 1 ] ELSE sz
      w0 == IF kib < 19000 THEN w ELSE [ k \in 1..Len(fs) |-> w[k] \div 1024 ]
      w1 == IF kib < 19000 THEN w ELSE [ k \in 1..Len(fs) |-> w[k] \div 1024 + 1 ]
      total == Sum(w0, Len(fs))
      total1 == Sum(w1, Len(fs))
      Lo(k) == IF k = 0 \/ total = 0 THEN 0 ELSE (100 * Sum(w0, k - 1)) \div total1 - 1
      Hi(k) == IF total = 0 THEN 0 ELSE (100 * Sum(w1, k)) \div total
  IN  IF prog = <<>> THEN {"no_progress_reported"}
      ELSE Clause("starts_at_0", prog[1][1] = 0)
           \cup Clause("never_decreases", \A j \in 1..(Len(prog) - 1) : prog[j][1] <= prog[j + 1][1])
           \cup Clause("never_exceeds_100", \A j \in 1..Len(prog) : prog[j][1] <= 100)
           \cup Clause("ends_at_100", total > 0 => prog[Len(prog)][1] = 100)
           \cup Clause("proportional", \A j \in 1..Len(prog) : prog[j][1] >= Lo(prog[j][2]) /\ prog[j][1] <= Hi(prog[j][2]))
C17(x) == UNION { IF x.img.adds[k] THEN Progress(x.def.parts[k], x.img.prog[k]) ELSE {} : k \in 1..Len(x.img.adds) }

----------------------------------------------------------------------------
(* C04: the table lists exactly the successful additions.                   *)
C04(x) ==
  Clause("builder_unusable", x.img.res = "ok")
  \cup Clause("additions", Has(x.def, "fault") \/ (Len(x.img.adds) = Len(x.def.parts) /\ \A k \in 1..Len(x.img.adds) : x.img.adds[k] = ~MustFail(x.def.parts[k])))
  \* with a destination that failed once: one addition more may have failed
  \cup Clause("additions_after_fault", Has(x.def, "fault") =>
         Cardinality({ k \in 1..Len(x.img.adds) : ~x.img.adds[k] /\ ~MustFail(x.def.parts[k]) }) <= 1)
  \cup (IF x.img.res # "ok" THEN {} ELSE
        Clause("listed", Len(x.img.table) = Len(OkIdx(x)))
        \cup Clause("types", Len(x.img.table) = Len(OkIdx(x)) => \A k \in Listed(x) : x.img.table[k][2] = DefOf(x, k).t)
        \cup Clause("reader_listing", x.img.rd.ok /\ x.img.rd.n = Len(OkIdx(x)))
        \cup Each(x, Contents) \cup Each(x, Hashes) \cup Each(x, Metadata)
        \cup UNION { ReaderSees(DefOf(x, k), ReadBack(x, k)) : k \in Listed(x) })
=============================================================================
