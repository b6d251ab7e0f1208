------------------------------ MODULE UbxStream ------------------------------
(***************************************************************************)
(* The UBX byte stream as a user of the parser sees it.                    *)
(*                                                                         *)
(* A frame is                                                              *)
(*    Sync1 Sync2 id[IdLen] len[LenLen] payload[len] ckA ckB               *)
(* (really: B5 62, class, id, a little-endian 16 bit length, ...).  The    *)
(* constants allow exhaustive model checking with a small alphabet; all    *)
(* operators are also evaluated with the real constants on recorded runs   *)
(* of the implementation (Trace*.tla).                                     *)
(*                                                                         *)
(* A stream is a sequence of bytes s.  Offsets are 0-based; the pending    *)
(* (fed but unread) bytes are the interval [h, e) of s.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Base,        \* number of byte values
          Sync1, Sync2,
          IdLen, LenLen,
          MaxPayload   \* the longest payload any message of the library has

HdrLen == 2 + IdLen + LenLen
CkLen  == 2

RECURSIVE LEval(_, _, _)
LEval(s, p, n) ==      \* little-endian value of the n bytes at offset p
  IF n = 0 THEN 0 ELSE s[p+1] + Base * LEval(s, p+1, n-1)

FlStep(c, x) == LET a == (c[1] + x) % Base IN <<a, (c[2] + a) % Base>>
Fletcher(s, p, q) == FoldLeft(FlStep, <<0, 0>>, SubSeq(s, p+1, q))   \* of the bytes [p, q)

PayLen(s, p)   == LEval(s, p + 2 + IdLen, LenLen)
CkAt(s, p)     == LET q == p + HdrLen + PayLen(s, p) IN <<s[q+1], s[q+2]>>
CkOf(s, p)     == Fletcher(s, p + 2, p + HdrLen + PayLen(s, p))
FrameLen(n)    == HdrLen + n + CkLen
Num2(c)        == c[1] + Base * c[2]

(* A well-formed frame occurs at offset p, within the first e bytes.        *)
WellFormedAt(s, p, e) ==
  /\ p + FrameLen(0) <= e
  /\ s[p+1] = Sync1 /\ s[p+2] = Sync2
  /\ PayLen(s, p) <= MaxPayload
  /\ p + FrameLen(PayLen(s, p)) <= e
  /\ CkAt(s, p) = CkOf(s, p)

FirstSync(s, h, e) ==
  IF \E i \in h..(e-1) : s[i+1] = Sync1
  THEN CHOOSE i \in h..(e-1) : s[i+1] = Sync1 /\ \A j \in h..(i-1) : s[j+1] # Sync1
  ELSE e

(* Op(v), with v evaluated once: TLC evaluates LET definitions and operator   *)
(* arguments by need, and again at every use while it computes successors.    *)
Eager(v, Op(_)) == CHOOSE r \in {Op(x) : x \in {v}} : TRUE

(* What the Sync1 byte at offset p begins, when e bytes are known.          *)
Classify(s, p, e) ==
  IF e - p < 2 THEN [k |-> "more"]
  ELSE IF s[p+2] # Sync2 THEN [k |-> "skip", by |-> 1]
  ELSE IF e - p < HdrLen THEN [k |-> "more"]
  ELSE LET n == PayLen(s, p) IN
       IF n > MaxPayload THEN [k |-> "skip", by |-> 2]
       ELSE IF e - p < FrameLen(n) THEN [k |-> "open", n |-> n]
       ELSE IF CkAt(s, p) # CkOf(s, p)
            THEN [k |-> "bad", expect |-> Num2(CkAt(s, p)), got |-> Num2(CkOf(s, p))]
            ELSE [k |-> "frame", n |-> n]

(* One call of next() on the pending interval [h, e): its result and the    *)
(* new h.  "none" means that no result is available without more input.     *)
RECURSIVE Step(_, _, _)
Outcome(s, p, e, c) ==
  CASE c.k = "skip"  -> Step(s, p + c.by, e)
    [] c.k = "more"  -> [k |-> "none", h |-> p]
    [] c.k = "open"  -> [k |-> "none", h |-> p]
    [] c.k = "bad"   -> [k |-> "bad", h |-> p + 2, expect |-> c.expect, got |-> c.got]
    [] c.k = "frame" -> [k |-> "frame", h |-> p + FrameLen(c.n), at |-> p, n |-> c.n]
Step(s, h, e) ==
  Eager(FirstSync(s, h, e),
        LAMBDA p : IF p >= e THEN [k |-> "none", h |-> e]
                   ELSE Eager(Classify(s, p, e), LAMBDA c : Outcome(s, p, e, c)))

(* All results of the pending interval, and where it ends up.               *)
RECURSIVE ScanAll(_, _, _, _)
ScanAll(s, h, e, out) ==
  Eager(Step(s, h, e),
        LAMBDA r : IF r.k = "none" THEN [out |-> out, h |-> r.h]
                   ELSE ScanAll(s, r.h, e, Append(out, r)))
Scan(s, h, e) == ScanAll(s, h, e, <<>>)

(* The bytes a parser may keep: an unfinished candidate.                    *)
IsResidue(s, h, e) ==
  \/ h = e
  \/ /\ h < e
     /\ s[h+1] = Sync1
     /\ e - h >= 2 => s[h+2] = Sync2
     /\ e - h >= HdrLen => /\ PayLen(s, h) <= MaxPayload
                           /\ e - h < FrameLen(PayLen(s, h))
=============================================================================
