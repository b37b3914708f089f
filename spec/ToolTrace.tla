----------------------------- MODULE ToolTrace -----------------------------
(* Judges what the Python module and the command line tool did (C15, C17,   *)
(* C19) by replaying each recorded history on the Extractor model.          *)
EXTENDS Extractor, Json, IOUtils
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == 8
Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Report(k, bad) == bad # {} => PrintT(<<"BAD", ToJson([i |-> k, bad |-> SetToSeq(bad)])>>)

Parts(x) == x.s.disc.parts
Step(st, parts, o) ==
  CASE o.op = "prepare" -> Prepare(st, parts, o.nm)
    [] o.op = "remove"  -> RemoveFiles(st, o.nm, { o.gone[j] : j \in 1..Len(o.gone) })
    [] OTHER -> [ok |-> DolHash(st, parts, o.nm) > 0, st |-> st]
RECURSIVE States(_, _, _)
\* states before each operation and after the last
States(st, parts, ops) == IF ops = <<>> THEN << st >> ELSE << st >> \o States(Step(st, parts, Head(ops)).st, parts, Tail(ops))
InSeq(v, s) == \E k \in 1..Len(s) : s[k] = v
SeqSet(s) == { s[k] : k \in 1..Len(s) }
OpMatches(x, k, st) ==
  LET o == x.s.ops[k]  r == x.o.res[k]  e == Step(st, Parts(x), o) IN
  /\ r.r = (IF e.ok THEN "ok" ELSE "err")
  /\ (o.op = "dolhash" /\ e.ok) => InSeq(DolOf(st, o.nm), r.v)
\* the callback was asked about exactly the files there were
AskedRight(x, k, st) ==
  LET o == x.s.ops[k] IN
  (o.op = "remove" /\ IsPrepared(st, o.nm) /\ AllPlain(st)) =>
     SeqSet(x.o.res[k].seen) = { FilesIn(st[At(st, o.nm)].tree, <<>>)[j].p : j \in 1..Len(FilesIn(st[At(st, o.nm)].tree, <<>>)) }
Cut(x) == Has(x.s, "fault") /\ x.s.fault.kind = "cut"

----------------------------------------------------------------------------
MaxSize(st) == LET z == { f[4] : f \in FilesOut(st) } IN IF z = {} THEN 0 ELSE CHOOSE v \in z : \A w \in z : w <= v
HasFilesIn(st, sec) == \E f \in FilesOut(st) : f[1] = sec
\* extraction cannot have written everything
SysPast(x, st) == \E k \in 1..Len(st) : Psys(Parts(x)[st[k].part]) # ""
MustErr(st, f) ==
  \/ AnyPast(st)
  \/ f.kind = "full" /\ f.target.sz > 0
  \/ f.kind \in {"dir", "nosys", "ro"}
  \/ f.kind = "nofiles" /\ HasFilesIn(st, f.sec)
  \/ f.kind = "fsize" /\ (f.lim < 8192 \/ MaxSize(st) > f.lim)
\* the destination has no room for the expected layout: not judged further
Odd(st, f) == ~AllPlain(st) \/ f.kind = "full" \/ f.kind = "nofiles"
MayErr(st, f) == MustErr(st, f) \/ Odd(st, f) \/ f.kind \in {"cut", "shrink", "fsize"}
Exactly(st, o) ==
  Clause("files_written", /\ Len(o.out) = Cardinality(FilesOut(st))
                          /\ \A f \in FilesOut(st) : \E k \in 1..Len(o.out) : o.out[k][1] = f[1] /\ o.out[k][2] = f[2] /\ o.out[k][4] = f[4] /\ InSeq(f[3], o.out[k][3]))
  \cup Clause("system_files_written", /\ Len(o.sys) = Cardinality(SysOut(st))
                          /\ \A f \in SysOut(st) : \E k \in 1..Len(o.sys) : o.sys[k][1] = f[1] /\ o.sys[k][2] = f[2] /\ InSeq(f[3], o.sys[k][3]))
  \cup Clause("nothing_else_written", o.odd = <<>>) \cup Clause("other_files_kept", o.kept)
(* Afterwards the extractor may be used again: a section prepared anew is   *)
(* complete, whatever was removed or failed before.                         *)
Again(x) ==
  IF ~Has(x.o, "re") THEN {}
  ELSE LET st == Prepare(<<>>, Parts(x), x.o.re.nm).st IN
       IF x.o.re.p # "ok" THEN Clause("second_preparation_fails", st = <<>>) ELSE
       IF ~AllPlain(st) \/ AnyPast(st) \/ SysPast(x, st) THEN {}
       ELSE IF x.o.re.r # "ok" THEN {"second_extraction_fails"}
       ELSE { "second_extraction_" \o c : c \in Exactly(st, x.o.re) }
C15(x) ==
  IF Has(x.o, "died") THEN {"process_died"}
  ELSE IF x.o.open # "ok" THEN Clause("panic", x.o.open # "panic") \cup Clause("cannot_open", Cut(x))
  ELSE LET ss == States(<<>>, Parts(x), x.s.ops)  st == ss[Len(ss)] IN
       Clause("panic", \A k \in 1..Len(x.o.res) : x.o.res[k].r # "panic")
       \cup (IF ~Has(x.o, "r") THEN {} ELSE
         Clause("panic", x.o.r # "panic") \cup Clause("changed_something_outside", x.o.outside)
         \cup (IF \E k \in 1..Len(x.o.res) : ~OpMatches(x, k, ss[k]) THEN {} ELSE
               Clause("callback_asked", \A k \in 1..Len(x.o.res) : AskedRight(x, k, ss[k]))
               \cup Clause("success_over_failure", MustErr(st, x.s.fault) \/ SysPast(x, st) => x.o.r # "ok")
               \cup Clause("refused", MayErr(st, x.s.fault) \/ SysPast(x, st) \/ x.o.r = "ok")
               \cup Again(x)
               \cup (IF x.o.r = "ok" /\ ~Odd(st, x.s.fault) /\ ~MustErr(st, x.s.fault) THEN Exactly(st, x.o) ELSE {})))

----------------------------------------------------------------------------
(* Progress of extracting one section: prog[j] = <<value, files begun,      *)
(* bytes on disk>>.                                                         *)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
\* more than 4 GiB: prog[j] = <<value, files begun, KiB on disk>>, sizes in KiB
BigProgress(x) ==
  LET kb == x.s.kb  total == Sum(kb, Len(kb))  p == x.o.prog
      Lo(b) == (100 * ((IF b < 1024 THEN 0 ELSE b - 1024) \div 16)) \div (total \div 16 + 1) - 1
      Hi(b) == (100 * ((b + 1024) \div 16)) \div (total \div 16) + 1
  IN  Clause("refused", x.o.r = "ok") \cup
      (IF p = <<>> THEN {"no_progress_reported"}
       ELSE Clause("starts_at_0", p[1][1] = 0)
            \cup Clause("never_decreases", \A j \in 1..(Len(p) - 1) : p[j][1] <= p[j + 1][1])
            \cup Clause("never_exceeds_100", \A j \in 1..Len(p) : p[j][1] <= 100)
            \cup Clause("ends_at_100", p[Len(p)][1] = 100)
            \cup Clause("written_size", x.o.lens = kb)
            \cup Clause("proportional_to_bytes", \A j \in 1..Len(p) : p[j][1] >= Lo(p[j][3]) /\ p[j][1] <= Hi(p[j][3])))
C17(x) ==
  IF x.s.kind = "big" THEN (IF Has(x.o, "r") THEN BigProgress(x) ELSE {"died"}) ELSE
  IF ~Has(x.o, "r") \/ x.o.r # "ok" THEN {}
  ELSE LET ss == States(<<>>, Parts(x), x.s.ops)  st == ss[Len(ss)] IN
       IF Len(st) > 1 THEN (IF x.o.prog = <<>> THEN {"no_progress_reported"}
                            ELSE Clause("starts_at_0", x.o.prog[1][1] = 0) \cup Clause("never_exceeds_100", \A j \in 1..Len(x.o.prog) : x.o.prog[j][1] <= 100))
       ELSE IF Len(st) # 1 \/ MayErr(st, x.s.fault) \/ (\E k \in 1..Len(x.o.res) : ~OpMatches(x, k, ss[k])) \/ x.s.stale > 0 THEN {}
       ELSE LET fs == FilesIn(st[1].tree, <<>>)
                sz == [ k \in 1..Len(fs) |-> fs[k].f.sz ]
                total == Sum(sz, Len(fs))
                p == x.o.prog
                \* in units of u bytes, so that percentages fit into 32 bits
                u == IF total <= 20000000 THEN 1 ELSE 256
                Lo(k) == IF k = 0 \/ total = 0 THEN 0 ELSE (100 * (Sum(sz, k - 1) \div u)) \div (total \div u + 1) - 1
                Hi(k) == IF total = 0 THEN 100 ELSE (100 * (Sum(sz, k) \div u + 1)) \div (total \div u)
                \* 1 MiB may be on its way
                At0(b) == (100 * ((IF b < 1048576 THEN 0 ELSE b - 1048576) \div u)) \div (total \div u + 1) - 1
                At1(b) == (100 * ((b + 1048576) \div u)) \div (total \div u) + 1
            IN  IF p = <<>> THEN {"no_progress_reported"}
                ELSE Clause("starts_at_0", p[1][1] = 0)
                     \cup Clause("never_decreases", \A j \in 1..(Len(p) - 1) : p[j][1] <= p[j + 1][1])
                     \cup Clause("never_exceeds_100", \A j \in 1..Len(p) : p[j][1] <= 100)
                     \cup Clause("ends_at_100", total > 0 => p[Len(p)][1] = 100)
                     \cup Clause("proportional", \A j \in 1..Len(p) : p[j][2] <= Len(fs) => p[j][1] >= Lo(p[j][2]) /\ p[j][1] <= Hi(p[j][2]))
                     \cup Clause("proportional_to_bytes", total < 200000000 => \A j \in 1..Len(p) : total > 0 /\ p[j][3] <= total => p[j][1] >= At0(p[j][3]) /\ p[j][1] <= At1(p[j][3]))

----------------------------------------------------------------------------
\* what test_print shows: every node of every prepared section; a path printed with escapes is <<>>
RECURSIVE NodePaths(_, _)
NodePaths(list, prefix) ==
  FlattenSeq([ k \in 1..Len(list) |-> << Append(prefix, list[k].n) >> \o (IF list[k].k = "d" THEN NodePaths(list[k].c, Append(prefix, list[k].n)) ELSE <<>>) ])
Printed(x, st) ==
  /\ x.o.printed.r = "ok" /\ Len(x.o.printed.l) = Len(st)
  /\ \A k \in 1..Len(st) : LET w == NodePaths(st[k].tree, <<>>)  g == x.o.printed.l[k] IN
        Len(w) = Len(g) /\ \A j \in 1..Len(w) : g[j] \in { <<>>, w[j] }
Api19(x) ==
  IF Has(x.o, "died") THEN {"process_died"}
  ELSE IF x.o.open # "ok" THEN {"cannot_open"}
  ELSE LET ss == States(<<>>, Parts(x), x.s.ops)  st == ss[Len(ss)] IN
       Clause("operation_results", Len(x.o.res) = Len(x.s.ops) /\ \A k \in 1..Len(x.o.res) : OpMatches(x, k, ss[k]))
       \cup (IF ~Has(x.o, "printed") THEN {} ELSE Clause("printed_sections", Printed(x, st)))
       \cup (IF ~Has(x.o, "probe") THEN {} ELSE
             Clause("prepared_sections_usable", \A t \in 1..3 :
               LET d == DolOf(st, Sections[t]) IN IF d = 0 THEN x.o.probe[t].r = "err" ELSE x.o.probe[t].r = "ok" /\ InSeq(d, x.o.probe[t].v)))
SysNames == { "sys/boot.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol", "sys/fst.bin" }
Cli19(x) ==
  IF Has(x.o, "died") THEN {"process_died"}
  ELSE LET ps == Parts(x)
           Nm(k) == IF x.s.names[k] = <<0>> THEN Sections[1] ELSE x.s.names[k]
       IN  Clause("section_list", /\ x.o.sections.r = "ok" /\ Len(x.o.sections.l) = Len(ps)
                                  /\ \A k \in 1..Len(ps) : x.o.sections.l[k] = << ps[k].t, x.s.offs[k] >>)
           \cup Clause("file_listing", \A k \in 1..Len(x.s.names) :
                  LET d == Selected(ps, Nm(k))  l == IF d = 0 THEN <<>> ELSE Listing(ps[d].tree, 0) IN
                  IF d = 0 THEN x.o.files[k].r = "err" /\ x.o.files[k].l = <<>>
                  ELSE /\ x.o.files[k].r = "ok" /\ Len(x.o.files[k].l) = Len(l)
                       /\ \A j \in 1..Len(l) : x.o.files[k].l[j] = << 2 * l[j][1], l[j][2] >>)
           \cup Clause("system_files", \A k \in 1..Len(x.s.names) :
                  LET d == Selected(ps, Nm(k)) IN
                  /\ x.o.sys[k].outside
                  /\ IF d = 0 THEN x.o.sys[k].r = "err"
                     ELSE /\ x.o.sys[k].r = "ok" /\ { x.o.sys[k].l[j][1] : j \in 1..Len(x.o.sys[k].l) } = SysNames
                          /\ \A j \in 1..Len(x.o.sys[k].l) : InSeq(d, x.o.sys[k].l[j][2]))
C19(x) == IF x.s.kind = "cli" THEN Cli19(x) ELSE Api19(x)

Judge(x) == CASE IOEnv.PROP = "C15" -> C15(x) [] IOEnv.PROP = "C17" -> C17(x) [] IOEnv.PROP = "C19" -> C19(x)
Init == i \in 1..Lanes /\ i <= Len(Obs) /\ Report(i, Judge(Obs[i]))
Next == i + Lanes <= Len(Obs) /\ i' = i + Lanes /\ Report(i', Judge(Obs[i']))
Spec == Init /\ [][Next]_i
=============================================================================
