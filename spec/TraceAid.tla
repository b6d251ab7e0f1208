------------------------------- MODULE TraceAid -------------------------------
(* Judges AID-INI messages the real builder made (C25).  A record: f0 initial   *)
(* flags; ops the calls; steps the frame before the first call and after each.  *)
EXTENDS UbxAid, Json, IOUtils, TLC, SequencesExt
CkStep(c, x) == LET a == (c[1] + x) % 256 IN <<a, (c[2] + a) % 256>>
Fletcher(b) == FoldLeft(CkStep, <<0, 0>>, b)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES recno, judged
vars == <<recno, judged>>
Init == recno \in 1..Len(Trace) /\ judged = FALSE
Next == judged = FALSE /\ judged' = TRUE /\ recno' = recno
Spec == Init /\ [][Next]_vars

Payload(fr) == SubSeq(fr, 7, 6 + Size)
Framed(fr) == LET body == <<Class, Id, Size, 0>> \o Payload(fr)
              IN Len(fr) = Size + 8 /\ fr = <<181, 98>> \o body \o Fletcher(body)
BadStep(R, j) ==
  LET old == FromPayload(Payload(R.steps[j])) new == FromPayload(Payload(R.steps[j + 1])) IN
  IF Step(old, new, R.ops[j]) THEN ""
  ELSE IF R.ops[j][1] = "p" THEN "set_position" ELSE "set_time"
RECURSIVE BadFrom(_, _)
BadFrom(R, j) == IF j > Len(R.ops) THEN "ok"
                 ELSE IF ~Framed(R.steps[j + 1]) THEN "frame of AidIni"
                 ELSE LET b == BadStep(R, j) IN IF b # "" THEN b ELSE BadFrom(R, j + 1)
Verdict(R) ==
  IF "hang" \in DOMAIN R THEN "hang"
  ELSE IF "panic" \in DOMAIN R THEN "AidIni panics"
  ELSE IF ~Framed(R.steps[1]) \/ FromPayload(Payload(R.steps[1]))[13] # R.f0 THEN "frame of AidIni"
  ELSE BadFrom(R, 1)
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
