------------------------------ MODULE TraceKept ------------------------------
(* Judges values serialized and read back by the real code (C28).  A record:   *)
(*   y, b   type and the bytes it was made from                                *)
(*   s      what it serializes as                                              *)
(*   k      for each way it was kept: <<serialized again, printed again,       *)
(*          written by a builder again>>; <<"error", why>> where not read back *)
(*   d, w   how the original prints, what a builder writes for it              *)
(* or y, x, ok, s: a bare number x offered to a type with documented codes     *)
EXTENDS UbxKept, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES recno, judged
vars == <<recno, judged>>
Init == recno \in 1..Len(Trace) /\ judged = FALSE
Next == judged = FALSE /\ judged' = TRUE /\ recno' = recno
Spec == Init /\ [][Next]_vars
Verdict(R) ==
  IF "hang" \in DOMAIN R THEN "hang"
  ELSE IF "x" \in DOMAIN R
       THEN IF R.ok # ReadsNumber(R.y, R.x) THEN R.y \o " reads a number"
            ELSE IF R.ok /\ R.s # IntV(R.x) THEN R.y \o " reads another number" ELSE "ok"
  ELSE IF R.s # SerializedAs(R.y, R.b) THEN R.y \o " serializes as something else"
  ELSE LET bad == {j \in 1..Len(R.k) : R.k[j] # <<R.s, R.d, R.w>>} IN
       IF Len(R.k) = 0 THEN R.y \o " not kept"
       ELSE IF bad # {} THEN R.y \o " is not read back unchanged" ELSE "ok"
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
