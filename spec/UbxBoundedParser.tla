-------------------------- MODULE UbxBoundedParser ---------------------------
(* The bounded parser as an object (see UbxBounded), with its observable    *)
(* result `last` and the number of bytes it holds between calls.            *)
EXTENDS UbxBounded
CONSTANTS Bytes, MaxStream
VARIABLES stream, h, last, iter
vars == <<stream, h, last, iter>>
Nothing == [k |-> "none"]

Init == stream = <<>> /\ h = 0 /\ last = Nothing /\ iter = "idle"
Feed(b) == /\ iter \in {"idle", "chunk"}
           /\ Len(stream) < MaxStream
           /\ stream' = Append(stream, b)
           /\ iter' = "chunk"
           /\ UNCHANGED <<h, last>>
Begin == iter \in {"idle", "chunk"} /\ iter' = "live" /\ UNCHANGED <<stream, h, last>>
Poll == /\ iter = "live"
        /\ \E r \in BSteps(stream, h, Len(stream), Cap) :
             /\ h' = r.h
             /\ last' = r
             /\ iter' = IF r.k = "none" THEN "done" ELSE "live"
        /\ UNCHANGED stream
(* polling an exhausted iterator again changes nothing (C06)                *)
PollAgain == iter = "done" /\ last' = [k |-> "none", h |-> h] /\ UNCHANGED <<stream, h, iter>>
Drop == iter = "done" /\ iter' = "idle" /\ UNCHANGED <<stream, h, last>>
Next == (\E b \in Bytes : Feed(b)) \/ Begin \/ Poll \/ PollAgain \/ Drop
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Fits == iter \in {"idle", "done"} => Len(stream) - h <= Cap
Residue == iter = "done" => IsResidue(stream, h, Len(stream))
(* C05: at a position the scan reaches, a frame that fits is not given up.  *)
FitDelivered ==
  last.k = "oom" => LET p == last.h - 2 IN FrameLen(PayLen(stream, p)) > Cap
(* without oversize candidates the bounded parser is the growable one        *)
NoOversize == \A p \in 0..Len(stream)-1 :
   stream[p+1] = Sync1 => Classify(stream, p, Len(stream)).k \notin {"open", "bad", "frame"}
                          \/ FrameLen(PayLen(stream, p)) <= Cap
SameAsGrowable == NoOversize /\ iter = "done" => h = Scan(stream, 0, Len(stream)).h
=============================================================================
