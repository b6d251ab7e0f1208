------------------------------ MODULE ByteQueue ------------------------------
(***************************************************************************)
(* An UnderlyingBuffer as an abstract data type: a FIFO queue of at most    *)
(* cap bytes (cap = -1: unbounded).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Room(q, cap)        == IF cap < 0 THEN -1 ELSE cap - Len(q)
Taken(q, cap, d)    == IF cap < 0 \/ Len(d) <= cap - Len(q) THEN Len(d) ELSE cap - Len(q)
Extended(q, cap, d) == q \o SubSeq(d, 1, Taken(q, cap, d))
LeftOut(q, cap, d)  == Len(d) - Taken(q, cap, d)
Drained(q, n)       == SubSeq(q, (IF n < Len(q) THEN n ELSE Len(q)) + 1, Len(q))
Find(q, v)          == IF \E i \in 1..Len(q) : q[i] = v
                       THEN (CHOOSE i \in 1..Len(q) : q[i] = v /\ \A j \in 1..(i-1) : q[j] # v) - 1
                       ELSE -1

CONSTANTS Caps, Values, MaxOps
SmallCaps == -1..3
VARIABLES cap, q, ops, accepted, gone   \* history: bytes accepted, number removed in order
vars == <<cap, q, ops, accepted, gone>>
Data == UNION {[1..n -> Values] : n \in 0..2}
Init == cap \in Caps /\ q = <<>> /\ ops = 0 /\ accepted = <<>> /\ gone = 0
Extend(d) == /\ q' = Extended(q, cap, d)
             /\ accepted' = accepted \o SubSeq(d, 1, Len(d) - LeftOut(q, cap, d))
             /\ UNCHANGED <<cap, gone>>
Drain(n)  == /\ q' = Drained(q, n)
             /\ gone' = gone + Len(q) - Len(q')
             /\ UNCHANGED <<cap, accepted>>
Clear     == Drain(Len(q))
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E d \in Data : Extend(d)
           \/ \E n \in 0..4 : Drain(n)
           \/ Clear
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Bounded == cap >= 0 => Len(q) <= cap
Fifo    == q = SubSeq(accepted, gone + 1, Len(accepted))     \* nothing lost, changed or reordered
FillsUp == \A d \in Data : LeftOut(q, cap, d) > 0 => Len(Extended(q, cap, d)) = cap
FindsFirst == \A v \in Values : LET f == Find(q, v) IN
   IF f < 0 THEN \A i \in 1..Len(q) : q[i] # v
   ELSE q[f+1] = v /\ \A i \in 1..f : q[i] # v
=============================================================================
