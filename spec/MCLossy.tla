-------------------------------- MODULE MCLossy --------------------------------
(* The lossy parser as an object: Feed, Poll, Drop at any time.              *)
EXTENDS UbxLossy
CONSTANTS Bytes, MaxStream
VARIABLES fed,    \* bytes fed so far
          p,      \* pending bytes
          it,     \* "idle", "live", "done"
          lost,   \* bytes given up by early drops
          hard,   \* some drop had more pending than fits
          last
vars == <<fed, p, it, lost, hard, last>>
Nothing == [k |-> "none"]
Init == fed = <<>> /\ p = <<>> /\ it = "idle" /\ lost = 0 /\ hard = FALSE /\ last = Nothing
Pieces == {<<>>} \cup {<<a>> : a \in Bytes} \cup {<<a, b>> : a, b \in Bytes} \cup {<<Sync1, Sync2, a, b>> : a, b \in Bytes}
Consume(d) == /\ it = "idle" /\ Len(fed) + Len(d) <= MaxStream
              /\ fed' = fed \o d /\ p' = p \o d /\ it' = "live" /\ last' = Nothing
              /\ UNCHANGED <<lost, hard>>
Poll == /\ it = "live"
        /\ \E r \in NextResults(p, Cap) :
             /\ p' = After(p, r) /\ last' = r
             /\ it' = IF r.k = "none" THEN "done" ELSE "live"
        /\ UNCHANGED <<fed, lost, hard>>
Drop == /\ it \in {"live", "done"} /\ it' = "idle" /\ last' = Nothing
        /\ hard' = (hard \/ (it = "live" /\ Len(p) > Cap))
        /\ \E k \in Skips(p) :
             /\ p' = KeptFrom(p, k, Cap)
             /\ lost' = lost + Len(p) - k - Len(p')
        /\ UNCHANGED fed
Next == (\E d \in Pieces : Consume(d)) \/ Poll \/ Drop
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Holds == it = "idle" => Len(p) <= Cap
(* only an early drop with more pending than fits gives anything up          *)
NothingElse == ~ hard => lost = 0
(* what is kept is made of fed bytes, in order                               *)
IsSubseq(a, b) ==
  LET F[i \in 0..Len(a), j \in 0..Len(b)] ==
        IF i = 0 THEN TRUE ELSE IF j = 0 THEN FALSE
        ELSE IF a[i] = b[j] THEN F[i-1, j-1] ELSE F[i, j-1]
  IN F[Len(a), Len(b)]
InOrder == IsSubseq(p, fed)
(* dropping at once and polling later is the same as polling now, when it fits *)
DropIsHarmless ==
  it = "live" /\ Len(p) <= Cap =>
     \A q \in Drops(p, Cap) :
        {<<r.k, After(q, r)>> : r \in NextResults(q, Cap)} = {<<r.k, After(p, r)>> : r \in NextResults(p, Cap)}
=============================================================================
