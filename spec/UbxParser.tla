------------------------------ MODULE UbxParser ------------------------------
(***************************************************************************)
(* The parser as an object: Consume gives it a chunk and an iterator, Next  *)
(* polls the iterator, Drop ends it (at any moment, exhausted or not).      *)
(* `stream` is the history of all bytes fed; the parser holds [h, Len).     *)
(* This is the specification for a growable buffer; the bounded one is in   *)
(* UbxBounded, the DualBuffer-shaped refinement of both in UbxDual.         *)
(***************************************************************************)
EXTENDS UbxStream
CONSTANTS Bytes, MaxStream
VARIABLES stream, h, out, iter      \* iter: "idle", "live", "done"
vars == <<stream, h, out, iter>>

Init == stream = <<>> /\ h = 0 /\ out = <<>> /\ iter = "idle"

(* A chunk is built byte by byte so that TLC enumerates every chunking.     *)
Consume(b) == /\ iter = "idle"
              /\ Len(stream) < MaxStream
              /\ stream' = Append(stream, b)
              /\ iter' = "chunk"
              /\ UNCHANGED <<h, out>>
More(b)    == /\ iter = "chunk"
              /\ Len(stream) < MaxStream
              /\ stream' = Append(stream, b)
              /\ UNCHANGED <<h, out, iter>>
Empty      == iter = "idle" /\ iter' = "live" /\ UNCHANGED <<stream, h, out>>
Begin      == iter = "chunk" /\ iter' = "live" /\ UNCHANGED <<stream, h, out>>
Next1      == /\ iter = "live"
              /\ LET r == Step(stream, h, Len(stream)) IN
                   /\ h' = r.h
                   /\ IF r.k = "none" THEN out' = out /\ iter' = "done"
                                      ELSE out' = Append(out, r) /\ iter' = "live"
              /\ UNCHANGED stream
Drop       == iter \in {"live", "done"} /\ iter' = "idle" /\ UNCHANGED <<stream, h, out>>

Next == (\E b \in Bytes : Consume(b) \/ More(b)) \/ Empty \/ Begin \/ Next1 \/ Drop
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Whole == Scan(stream, 0, Len(stream))
(* C01: whatever the chunking and polling, the results are those of feeding *)
(* the stream at once; after exhaustion nothing is missing and the rest is  *)
(* the same.                                                                *)
ChunkInvariance ==
  /\ Len(out) <= Len(Whole.out)
  /\ out = SubSeq(Whole.out, 1, Len(out))
  /\ iter = "done" => out = Whole.out /\ h = Whole.h
(* C02 *)
OnlyWellFormed ==
  \A i \in 1..Len(out) : out[i].k = "frame" => WellFormedAt(stream, out[i].at, Len(stream))
Ends(r)   == r.h
Starts(r) == IF r.k = "frame" THEN r.at ELSE r.h - 2
InOrder == \A i \in 1..Len(out)-1 : Ends(out[i]) <= Starts(out[i+1])
(* C03: a well-formed frame is delivered, or lies (partly) inside a frame    *)
(* already delivered, or is hidden by an unfinished candidate before it.     *)
NoneMissed ==
  iter = "done" =>
    \A p \in 0..Len(stream)-1 : WellFormedAt(stream, p, Len(stream)) =>
      \/ \E i \in 1..Len(out) : out[i].k = "frame" /\ out[i].at <= p /\ p < out[i].h
      \/ h <= p /\ h < Len(stream) /\ p # h
(* C04: a failed candidate is reported once, with its own two checksums.     *)
ErrorsOnce ==
  \A i \in 1..Len(out) : out[i].k = "bad" =>
     /\ stream[out[i].h-1] = Sync1 /\ stream[out[i].h] = Sync2
     /\ out[i].expect # out[i].got
     /\ \A j \in 1..Len(out) : j # i /\ out[j].k = "bad" => out[j].h # out[i].h
(* C06: at most one result per two bytes.                                    *)
Progress == 2 * Len(out) <= Len(stream)
(* C07 *)
Residue == iter = "done" => IsResidue(stream, h, Len(stream))
                            /\ Len(stream) - h <= FrameLen(MaxPayload) - 1
=============================================================================
