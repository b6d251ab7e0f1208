------------------------------- MODULE UbxDual -------------------------------
(***************************************************************************)
(* The shape of the implementation: a base buffer of capacity Cap with a    *)
(* read offset, the new chunk with a read offset, and the operations        *)
(* drain / can_drain_and_take / take / drop that make them look like one    *)
(* buffer.  Refines UbxBoundedParser (and thereby, with a Cap that is never *)
(* reached, the growable parser).  `Break` selects a deliberate design      *)
(* mistake, used to show that the refinement check is not vacuous.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Base, Sync1, Sync2, IdLen, LenLen, MaxPayload, Cap, Bytes, MaxStream, Break
VARIABLES stream,       \* history: all bytes fed
          buf, off,     \* underlying buffer and bytes already read of it
          new, noff,    \* chunk of the live iterator and bytes already read of it
          iter, last
vars == <<stream, buf, off, new, noff, iter, last>>

Hdr == 2 + IdLen + LenLen
Ck  == 2
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* a dual buffer value: d = [buf, off, new, noff]
DLen(d)  == Len(d.buf) - d.off + Len(d.new) - d.noff
DAt(d,i) == IF d.off + i < Len(d.buf) THEN d.buf[d.off + i + 1]
            ELSE d.new[d.noff + i - (Len(d.buf) - d.off) + 1]
DDrain(d, n) ==
  LET u == Min(Len(d.buf) - d.off, n) IN
  [d EXCEPT !.off = @ + u, !.noff = @ + (n - u)]
Lost(d) == Max(0, DLen(d) - Cap)
CanDrainAndTake(d, drain, take) ==
  LET d1 == DDrain(d, drain)
      have == Len(d1.buf) - d1.off
      fromNew == take - Min(have, take)
  IN IF take > have + Len(d1.new) - d1.noff THEN FALSE
     ELSE IF Min(have, take) = 0 \/ fromNew = 0 THEN TRUE
     ELSE ~(fromNew > Cap - have)
Extend(b, x) == b \o SubSeq(x, 1, Min(Len(x), Cap - Len(b)))    \* bounded append
RestNew(d) == SubSeq(d.new, d.noff + 1, Len(d.new))
DTake(d, n) ==      \* [ok, bytes, d]
  LET have == Len(d.buf) - d.off
      u == Min(have, n)
      w == n - u
  IN CASE u = 0 -> [ok |-> TRUE, b |-> SubSeq(d.new, d.noff+1, d.noff+n), d |-> [d EXCEPT !.noff = @ + n]]
       [] u > 0 /\ w = 0 -> [ok |-> TRUE, b |-> SubSeq(d.buf, d.off+1, d.off+n), d |-> [d EXCEPT !.off = @ + n]]
       [] u > 0 /\ w > 0 /\ Cap < n -> [ok |-> FALSE, b |-> <<>>, d |-> d]
       [] u > 0 /\ w > 0 /\ Cap >= n /\ (w < Cap - Len(d.buf) \/ (Break = "take" /\ w <= Cap)) ->
            LET b2 == Extend(d.buf, RestNew(d)) IN
            [ok |-> TRUE, b |-> SubSeq(b2, d.off+1, Min(Len(b2), d.off+n)),
             d |-> [d EXCEPT !.buf = b2, !.noff = @ + (Len(b2) - Len(d.buf)), !.off = @ + n]]
       [] OTHER ->
            LET b2 == SubSeq(d.buf, d.off+1, Len(d.buf)) \o SubSeq(d.new, d.noff+1, d.noff+w) IN
            [ok |-> TRUE, b |-> SubSeq(b2, 1, n), d |-> [d EXCEPT !.buf = b2, !.off = n, !.noff = @ + w]]

RECURSIVE DVal(_, _, _)
DVal(d, p, n) == IF n = 0 THEN 0 ELSE DAt(d, p) + Base * DVal(d, p+1, n-1)
RECURSIVE DFl(_, _, _, _, _)
DFl(d, i, j, a, b) == IF i >= j THEN <<a, b>>
  ELSE LET a2 == (a + DAt(d, i)) % Base IN DFl(d, i+1, j, a2, (b + a2) % Base)
RECURSIVE DFind(_, _)
DFind(d, i) == IF i >= DLen(d) THEN i ELSE IF DAt(d, i) = Sync1 THEN i ELSE DFind(d, i+1)

\* the result of next(): [r, d] where r is what the caller sees
RECURSIVE DNext(_)
DNext(d0) ==
  IF DLen(d0) = 0 THEN [r |-> [k |-> "none"], d |-> d0]
  ELSE LET pos == DFind(d0, 0) IN
  IF pos = DLen(d0) THEN [r |-> [k |-> "none"], d |-> DDrain(d0, pos)]
  ELSE LET d == DDrain(d0, pos) IN
  IF DLen(d) < 2 THEN [r |-> [k |-> "none"], d |-> d]
  ELSE IF DAt(d, 1) # Sync2 THEN DNext(DDrain(d, 1))
  ELSE IF DLen(d) < Hdr THEN [r |-> [k |-> "none"], d |-> d]
  ELSE LET n == DVal(d, 2 + IdLen, LenLen) IN
  IF n > MaxPayload THEN DNext(DDrain(d, IF Break = "overlong" THEN Hdr ELSE 2))
  ELSE IF ~CanDrainAndTake(d, Hdr, n + Ck) THEN
         IF Lost(d) > 0 THEN [r |-> [k |-> "oom", required |-> n + Ck], d |-> DDrain(d, 2)]
         ELSE [r |-> [k |-> "none"], d |-> d]
  ELSE LET got == DFl(d, 2, Hdr + n, 0, 0)
           exp == <<DAt(d, Hdr + n), DAt(d, Hdr + n + 1)>> IN
  IF got # exp THEN [r |-> [k |-> "bad", expect |-> exp[1] + Base * exp[2], got |-> got[1] + Base * got[2]],
                     d |-> DDrain(d, IF Break = "bad" THEN Hdr ELSE 2)]
  ELSE LET t == DTake(DDrain(d, Hdr), n + Ck) IN
  IF ~t.ok THEN [r |-> [k |-> "oom", required |-> n + Ck], d |-> t.d]
  ELSE [r |-> [k |-> "frame", n |-> n, b |-> t.b], d |-> t.d]

\* dropping the iterator: keep the unread rest of the chunk, as far as it fits
DDrop(d) == Extend(SubSeq(d.buf, d.off+1, Len(d.buf)), RestNew(d))
----------------------------------------------------------------------------
D == [buf |-> buf, off |-> off, new |-> new, noff |-> noff]
Init == stream = <<>> /\ buf = <<>> /\ off = 0 /\ new = <<>> /\ noff = 0
        /\ iter = "idle" /\ last = [k |-> "none"]
Feed(b) == /\ iter \in {"idle", "chunk"}
           /\ Len(stream) < MaxStream
           /\ stream' = Append(stream, b)
           /\ new' = Append(new, b)
           /\ iter' = "chunk"
           /\ UNCHANGED <<buf, off, noff, last>>
\* consume() also drops what precedes the first sync byte
Begin == /\ iter \in {"idle", "chunk"}
         /\ LET i == DFind(D, 0) d == DDrain(D, i) IN
              IF i = DLen(D) THEN UNCHANGED <<off, noff>> ELSE off' = d.off /\ noff' = d.noff
         /\ iter' = "live"
         /\ UNCHANGED <<stream, buf, new, last>>
Poll == /\ iter \in {"live", "done"}
        /\ LET x == DNext(D) IN
             /\ last' = x.r
             /\ buf' = x.d.buf /\ off' = x.d.off /\ new' = x.d.new /\ noff' = x.d.noff
             /\ iter' = IF x.r.k = "none" THEN "done" ELSE "live"
        /\ UNCHANGED stream
Drop == /\ iter = "done"
        /\ buf' = DDrop(D) /\ off' = 0 /\ new' = <<>> /\ noff' = 0
        /\ iter' = "idle"
        /\ UNCHANGED <<stream, last>>
Next == (\E b \in Bytes : Feed(b)) \/ Begin \/ Poll \/ Drop
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
TypeOK == Len(buf) <= Cap /\ off <= Len(buf) /\ noff <= Len(new)
(* The view never skips or repeats a byte: it is a suffix of the stream.     *)
H == Len(stream) - DLen(D)
View == [i \in 1..DLen(D) |-> DAt(D, i-1)]
Contiguous == View = SubSeq(stream, H+1, Len(stream))
(* Refinement.  consume()'s early drop of garbage is invisible: map h of a   *)
(* live iterator to its position before it.                                  *)
Abs == INSTANCE UbxBounded
AbsStep ==
  \/ iter' = "chunk"
  \/ /\ iter = "live" \/ iter = "done"
     /\ iter' \in {"live", "done"}
     /\ \E r \in Abs!BSteps(stream, H, Len(stream), Cap) :
          /\ r.h = H'
          /\ r.k = last'.k
          /\ r.k = "oom" => r.required = last'.required
          /\ r.k = "bad" => r.expect = last'.expect /\ r.got = last'.got
          /\ r.k = "frame" => /\ r.n = last'.n
                              /\ last'.b = SubSeq(stream, r.at + Hdr + 1, r.h)
  \/ /\ iter' = "live" /\ iter \in {"idle", "chunk"}
     /\ H' \in {H, Abs!FirstSync(stream, H, Len(stream))}
  \/ /\ iter = "done" /\ iter' = "idle" /\ H' = H
Refines == [][AbsStep]_vars
=============================================================================
