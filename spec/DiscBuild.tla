----------------------------- MODULE DiscBuild -----------------------------
(* The disc builder as a program of destination writes.  Partitions are     *)
(* added one after the other; an addition calls back into its definition    *)
(* (which can fail) and writes to the destination (which can fail, or the   *)
(* process can stop).  The destination is modelled in units: a partition at *)
(* unit o uses unit o for its unencrypted part and o+1 .. o+g for g groups. *)
(* Every state of this specification is also a possible crash state: the    *)
(* invariants about the destination hold in all of them.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxAdds, MaxGroups, Fails, Faults, MidFinish

VARIABLES phase,   \* "idle", "adding", "finishing", "done"
          todo,    \* steps left of the running call
          cur,     \* the running addition [id, o, g, f]
          off,     \* unit where the next partition goes
          list,    \* in memory: partitions that will be listed
          disk,    \* unit -> [certs, h3, tmd, phdr, grp]: which addition wrote it
          table,   \* on the destination: [cnt, ents, hdr, region]
          good,    \* ids whose addition was reported successful, in order
          errs,    \* calls that reported an error
          faults,  \* destination faults that happened
          hist     \* calls so far: kinds added, <<>> for finish
vars == <<phase, todo, cur, off, list, disk, table, good, errs, faults, hist>>

Kinds == [ g : 1..MaxGroups, f : {"none"} \cup Fails ]
Unit == [ certs |-> 0, h3 |-> 0, tmd |-> 0, phdr |-> 0, grp |-> 0 ]
MaxUnit == MaxAdds * (MaxGroups + 1)
NAdds == Cardinality({ i \in 1..Len(hist) : hist[i] # <<>> })

\* steps of an addition: callbacks, writes, and the in-memory listing at the end
RECURSIVE FileSteps(_, _)
FileSteps(n, g) ==
  IF n > g THEN <<>> ELSE << <<"cb", "file" \o ToString(n)>> >> \o (IF n < g THEN << <<"grp", n>> >> ELSE <<>>) \o FileSteps(n + 1, g)
AddSteps(g) ==
  << <<"cb", "notmd">>, <<"certs">>, <<"cb", "bigtmd">>, <<"cb", "fst">>, <<"cb", "names">>, <<"cb", "hdr">>, <<"cb", "bi2">>, <<"cb", "bigbi2">>,
     <<"cb", "app">>, <<"cb", "dol">> >>
  \o FileSteps(1, g)
  \o << <<"grp", g>> >>                                 \* leaving the last group
  \o (IF g > 1 THEN << <<"grp", 1>> >> ELSE <<>>)       \* the file table and header, written again
  \o << <<"h3">>, <<"tmd">>, <<"phdr">>, <<"list">> >>
FinSteps(n) == << <<"dhdr">>, <<"region">>, <<"count">> >> \o [ i \in 1..n |-> <<"ent", i>> ]

Init == /\ phase = "idle" /\ todo = <<>> /\ cur = [id |-> 0, o |-> 0, g |-> 0, f |-> "none"] /\ off = 0 /\ list = <<>>
        /\ disk = [ u \in 0..MaxUnit |-> Unit ] /\ table = [cnt |-> 0, ents |-> <<>>, hdr |-> FALSE, region |-> FALSE]
        /\ good = <<>> /\ errs = 0 /\ faults = 0 /\ hist = <<>>

StartAdd(k) ==
  /\ phase = "idle" /\ NAdds < MaxAdds
  /\ phase' = "adding" /\ todo' = AddSteps(k.g)
  /\ cur' = [id |-> NAdds + 1, o |-> off, g |-> k.g, f |-> k.f]
  /\ hist' = Append(hist, <<k.g, k.f>>)
  /\ UNCHANGED <<off, list, disk, table, good, errs, faults>>
StartFinish ==
  /\ phase = "idle"
  /\ phase' = "finishing" /\ todo' = FinSteps(Len(list)) /\ hist' = Append(hist, <<>>)
  /\ UNCHANGED <<cur, off, list, disk, table, good, errs, faults>>

Write(s) ==
  CASE s[1] = "certs" -> disk' = [disk EXCEPT ![cur.o].certs = cur.id] /\ UNCHANGED table
    [] s[1] = "h3"    -> disk' = [disk EXCEPT ![cur.o].h3 = cur.id] /\ UNCHANGED table
    [] s[1] = "tmd"   -> disk' = [disk EXCEPT ![cur.o].tmd = cur.id] /\ UNCHANGED table
    [] s[1] = "phdr"  -> disk' = [disk EXCEPT ![cur.o].phdr = cur.id] /\ UNCHANGED table
    \* group data runs over whatever was there
    [] s[1] = "grp"   -> disk' = [disk EXCEPT ![cur.o + s[2]] = [Unit EXCEPT !.grp = cur.id]] /\ UNCHANGED table
    [] s[1] = "dhdr"  -> table' = [table EXCEPT !.hdr = TRUE] /\ UNCHANGED disk
    [] s[1] = "region"-> table' = [table EXCEPT !.region = TRUE] /\ UNCHANGED disk
    [] s[1] = "count" -> table' = [table EXCEPT !.cnt = Len(list)] /\ UNCHANGED disk
    [] s[1] = "ent"   -> table' = [table EXCEPT !.ents = SubSeq(@, 1, s[2] - 1) \o << list[s[2]] >> \o SubSeq(@, s[2] + 1, Len(@))] /\ UNCHANGED disk

GiveUp == phase' = "idle" /\ todo' = <<>> /\ errs' = errs + 1
Step ==
  /\ phase \in {"adding", "finishing"} /\ todo # <<>>
  /\ LET s == Head(todo) IN
     IF s[1] = "cb"
     THEN IF cur.f = s[2] THEN GiveUp /\ UNCHANGED <<cur, off, list, disk, table, good, faults, hist>>
          ELSE todo' = Tail(todo) /\ UNCHANGED <<phase, cur, off, list, disk, table, good, errs, faults, hist>>
     ELSE IF s[1] = "list"
     THEN /\ list' = Append(list, [id |-> cur.id, o |-> cur.o, g |-> cur.g]) /\ good' = Append(good, cur.id)
          /\ off' = cur.o + cur.g + 1 /\ phase' = "idle" /\ todo' = <<>>
          /\ UNCHANGED <<cur, disk, table, errs, faults, hist>>
     ELSE /\ Write(s) /\ todo' = Tail(todo)
          /\ phase' = (IF Len(todo) = 1 THEN (IF MidFinish THEN "idle" ELSE "done") ELSE phase)
          /\ UNCHANGED <<cur, off, list, good, errs, faults, hist>>
\* a destination operation fails: the running call reports an error
Fault ==
  /\ Faults > faults /\ phase \in {"adding", "finishing"} /\ todo # <<>> /\ Head(todo)[1] \notin {"cb", "list"}
  /\ faults' = faults + 1 /\ GiveUp
  /\ UNCHANGED <<cur, off, list, disk, table, good, hist>>
Next == (\E k \in Kinds : StartAdd(k)) \/ StartFinish \/ Step \/ Fault
\* at most two finishes in a row matter
Bounded == Len(hist) <= MaxAdds + (IF MidFinish THEN 2 ELSE 1)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What a reader finds on the destination, in any state.                    *)
OnDisc == SubSeq(table.ents, 1, IF table.cnt < Len(table.ents) THEN table.cnt ELSE Len(table.ents))
Opens(e) == disk[e.o].phdr # 0
Complete(e) ==
  LET a == disk[e.o].phdr IN
  /\ disk[e.o].certs = a /\ disk[e.o].h3 = a /\ disk[e.o].tmd = a
  /\ \A j \in 1..e.g : disk[e.o + j].grp = a
\* C06
NeverIncomplete == \A i \in 1..Len(OnDisc) : Opens(OnDisc[i]) => Complete(OnDisc[i])
\* C04: after a finish that reported success, exactly the successful additions
Finished == phase \in {"idle", "done"} /\ hist # <<>> /\ hist[Len(hist)] = <<>> /\ todo = <<>>
Exact == (Finished /\ faults = 0) =>
          /\ [ i \in 1..Len(OnDisc) |-> OnDisc[i].id ] = good
          /\ \A i \in 1..Len(OnDisc) : Opens(OnDisc[i]) /\ Complete(OnDisc[i]) /\ disk[OnDisc[i].o].phdr = OnDisc[i].id
\* C05
Reported == errs >= faults
Disjoint == \A i, j \in 1..Len(list) : i < j => list[i].o + list[i].g < list[j].o
=============================================================================
