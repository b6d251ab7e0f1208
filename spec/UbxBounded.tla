------------------------------ MODULE UbxBounded -----------------------------
(***************************************************************************)
(* The parser over a buffer that holds at most Cap bytes between calls.    *)
(* It behaves like the growable one, except that a candidate whose frame   *)
(* does not fit (FrameLen > Cap) MAY be given up with an OutOfMemory result *)
(* that costs its two sync bytes (it may also be delivered, when it happens *)
(* to be complete inside one chunk), and MUST be when what is pending of it *)
(* does not fit.  Nothing else may be lost.  Every iterator is exhausted    *)
(* before it is dropped (C05 is stated under that condition).               *)
(***************************************************************************)
EXTENDS UbxStream
CONSTANTS Cap

Oom(p, n) == [k |-> "oom", h |-> p + 2, required |-> n + CkLen]

(* The set of allowed results of one next() on the pending bytes [h, e).    *)
RECURSIVE BSteps(_, _, _, _)
BOutcomes(s, p, e, cap, c) ==
  CASE c.k = "skip"  -> BSteps(s, p + c.by, e, cap)
    [] c.k = "more"  -> {[k |-> "none", h |-> p]}
    [] c.k = "open"  ->
         (IF e - p <= cap THEN {[k |-> "none", h |-> p]} ELSE {})
         \cup (IF FrameLen(c.n) > cap THEN {Oom(p, c.n)} ELSE {})
    [] OTHER ->
         {Outcome(s, p, e, c)}
         \cup (IF FrameLen(PayLen(s, p)) > cap THEN {Oom(p, PayLen(s, p))} ELSE {})
BSteps(s, h, e, cap) ==
  Eager(FirstSync(s, h, e),
        LAMBDA p : IF p >= e THEN {[k |-> "none", h |-> e]}
                   ELSE Eager(Classify(s, p, e), LAMBDA c : BOutcomes(s, p, e, cap, c)))
=============================================================================
