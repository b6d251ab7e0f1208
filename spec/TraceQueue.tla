----------------------------- MODULE TraceQueue ------------------------------
(* Judges recorded operation sequences on the real buffers (C18).            *)
(*   ["e",bytes,ret] extend_from_slice   ["r",n] drain   ["c"] clear          *)
(*   ["o",len,is_empty,max_capacity,content,indexed,finds,ranges,ixp,rgp]     *)
(*       everything observable: the whole range, every index, find of some    *)
(*       values, sub-ranges, and whether indexing at len and ranging to       *)
(*       len+1 panic                                                          *)
(*   ["g",ok] at the end: the bytes around the caller's slice are untouched   *)
(*   ["x",..] a panic                                                         *)
EXTENDS ByteQueue, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st
tvars == <<t, l, q, st, vars>>
R == Trace[t]
TInit == /\ t \in 1..Len(Trace) /\ l = 0 /\ st = "ok"
         /\ q = <<>> /\ cap = R.cap /\ ops = 0 /\ accepted = <<>> /\ gone = 0
Reject(w) == st' = w /\ UNCHANGED <<q, cap, ops, accepted, gone>>
Same == UNCHANGED <<st, q, cap, ops, accepted, gone>>
Observed(ev) ==
  /\ ev[2] = Len(q)
  /\ ev[3] = IF q = <<>> THEN 1 ELSE 0
  /\ ev[4] = cap
  /\ ev[5] = q
  /\ ev[6] = q
  /\ \A i \in 1..Len(ev[7]) : ev[7][i][2] = Find(q, ev[7][i][1])
  /\ \A i \in 1..Len(ev[8]) : ev[8][i][3] = SubSeq(q, ev[8][i][1] + 1, ev[8][i][2])
  /\ ev[9] = 1 /\ ev[10] = 1
Step(ev) ==
  CASE ev[1] = "e" -> IF ev[3] = LeftOut(q, cap, ev[2])
                      THEN Extend(ev[2]) /\ UNCHANGED <<st, ops>>
                      ELSE Reject("number of bytes left out")
    [] ev[1] = "r" -> Drain(ev[2]) /\ UNCHANGED <<st, ops>>
    [] ev[1] = "c" -> Clear /\ UNCHANGED <<st, ops>>
    [] ev[1] = "o" -> IF Observed(ev) THEN Same ELSE Reject("observation")
    [] ev[1] = "g" -> IF ev[2] = 1 THEN Same ELSE Reject("bytes outside the slice were touched")
    [] OTHER -> Reject("panic or hang")
TNext == st = "ok" /\ l < Len(R.ev) /\ l' = l + 1 /\ t' = t /\ Step(R.ev[l+1])
TSpec == TInit /\ [][TNext]_tvars
Accepted == st = "ok" /\ Bounded /\ Fifo
=============================================================================
