------------------------------- MODULE UbxLossy -------------------------------
(***************************************************************************)
(* The parser over a buffer of Cap bytes (Cap < 0: growable) whose          *)
(* iterators may be dropped early (C26).  UbxBounded describes the results  *)
(* while every iterator is exhausted; here the pending bytes are an explicit *)
(* sequence, because an early drop may give bytes up: what is pending when   *)
(* the iterator is dropped is kept, in order, up to Cap bytes; noise before  *)
(* the next candidate may be skipped first.  Nothing else is given up, and   *)
(* what follows is the parse of the kept bytes and the newly fed ones.       *)
(***************************************************************************)
EXTENDS UbxBounded

NextResults(p, cap) == IF cap < 0 THEN {Step(p, 0, Len(p))} ELSE BSteps(p, 0, Len(p), cap)
After(p, r) == SubSeq(p, r.h + 1, Len(p))

(* where the next candidate begins: what is before it is noise               *)
RECURSIVE NextCandidate(_, _)
NextCandidate(p, from) ==
  Eager(FirstSync(p, from, Len(p)),
        LAMBDA q : IF q >= Len(p) THEN q
                   ELSE Eager(Classify(p, q, Len(p)),
                              LAMBDA c : IF c.k = "skip" THEN NextCandidate(p, q + c.by) ELSE q))

KeptFrom(p, k, cap) ==
  SubSeq(p, k + 1, IF cap < 0 \/ Len(p) - k <= cap THEN Len(p) ELSE k + cap)
Skips(p) == {0, FirstSync(p, 0, Len(p)), NextCandidate(p, 0)}
Drops(p, cap) == {KeptFrom(p, k, cap) : k \in Skips(p)}
=============================================================================
