----------------------------- MODULE PartStream -----------------------------
(* The encrypted partition writer: a stream of cells over groups of G cells *)
(* with one cached group.  A group is hashed and encrypted when the cache   *)
(* leaves it or on flush; a revisited group is read back unless it will be  *)
(* overwritten completely or has never been written.                        *)
(*   plain    what a plain stream would hold: cell -> last value written    *)
(*   disk     group -> cells stored (and, implicitly, their hash tree)      *)
(*   h3       group -> the cells its recorded top hash was computed from    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS G, MaxGroups, MaxOps, Any, AnyWrites

VARIABLES plain, disk, h3, cache, cur, dirty, filled, pos, ops, ok
vars == <<plain, disk, h3, cache, cur, dirty, filled, pos, ops, ok>>

Cells == 0..(G * MaxGroups - 1)
Groups == 0..(MaxGroups - 1)
None == -1
Empty == <<>>
Blank == [ j \in 0..(G - 1) |-> Any ]
Zero == [ j \in 0..(G - 1) |-> 0 ]

Init == /\ plain = [ c \in Cells |-> Any ] /\ disk = [ g \in Groups |-> Empty ] /\ h3 = [ g \in Groups |-> Empty ]
        /\ cache = Zero /\ cur = None /\ dirty = FALSE /\ filled = 0 /\ pos = 0 /\ ops = 0 /\ ok = TRUE

\* one write call of n cells with value v; the loop over groups is a fold
RECURSIVE Put(_, _, _, _)
Put(s, p, n, v) ==
  IF n = 0 THEN s
  ELSE LET g == p \div G
           o == p % G
           m == IF n < G - o THEN n ELSE G - o
           leave == s.cur # None /\ s.cur # g
           s1 == IF leave /\ s.dirty
                 THEN [s EXCEPT !.disk[s.cur] = s.cache, !.h3[s.cur] = s.cache,
                                !.filled = IF @ > s.cur THEN @ ELSE s.cur]
                 ELSE s
           skip == (o = 0 /\ n >= G) \/ g > s1.filled
           s2 == IF leave /\ ~skip
                 THEN IF s1.disk[g] = Empty THEN [s1 EXCEPT !.ok = FALSE]
                      ELSE [s1 EXCEPT !.cache = s1.disk[g]]
                 ELSE s1
           s3 == [s2 EXCEPT !.cur = g, !.dirty = TRUE,
                            !.cache = [ j \in 0..(G - 1) |-> IF j >= o /\ j < o + m THEN v ELSE s2.cache[j] ]]
       IN  IF ~s2.ok THEN s2 ELSE Put(s3, p + m, n - m, v)

Write(n) ==
  /\ pos + n <= G * MaxGroups
  /\ LET v == ops + 1
         s == Put([disk |-> disk, h3 |-> h3, cache |-> cache, cur |-> cur, dirty |-> dirty, filled |-> filled, ok |-> TRUE], pos, n, v)
     IN  /\ disk' = s.disk /\ h3' = s.h3 /\ cache' = s.cache /\ cur' = s.cur /\ dirty' = s.dirty /\ filled' = s.filled /\ ok' = s.ok
         /\ plain' = [ c \in Cells |-> IF c >= pos /\ c < pos + n THEN v ELSE plain[c] ]
         /\ pos' = pos + n
High == { c \in Cells : plain[c] # Any }
\* the builder never leaves a whole group unwritten behind its position
Seek(p) == /\ p # pos
           /\ AnyWrites \/ p = 0 \/ \E c \in High : c \div G = p \div G \/ c + 1 = p
           /\ pos' = p /\ UNCHANGED <<plain, disk, h3, cache, cur, dirty, filled, ok>>
Flush == /\ IF cur # None /\ dirty
            THEN /\ disk' = [disk EXCEPT ![cur] = cache] /\ h3' = [h3 EXCEPT ![cur] = cache]
                 /\ filled' = (IF filled > cur THEN filled ELSE cur) /\ cur' = None
            ELSE UNCHANGED <<disk, h3, filled, cur>>
         /\ UNCHANGED <<plain, cache, dirty, pos, ok>>

\* the builder flushes once, at the end
Next == /\ ops < MaxOps /\ ok /\ ops' = ops + 1
        /\ \/ \E n \in 1..(2 * G + 1) : Write(n)
           \/ \E p \in 0..(G * MaxGroups - 1) : Seek(p)
           \/ Flush /\ High # {} /\ cur # None
\* after a flush the stream is finished
NextOnce == ops >= 0 /\ (cur # None \/ High = {}) /\ Next
Spec == Init /\ [][NextOnce]_vars

\* a flushed stream is on disk exactly as a plain stream would have it
Flushed == High # {} /\ cur = None
Faithful == (Flushed /\ ok) => \A c \in High : disk[c \div G] # Empty /\ disk[c \div G][c % G] = plain[c]
HashesMatch == Flushed => \A g \in Groups : h3[g] = disk[g]
NoHole == (Flushed /\ ok) => \A g, k \in Groups : (g < k /\ disk[k] # Empty) => disk[g] # Empty
NeverReadsUnwritten == ok
=============================================================================
