----------------------------- MODULE TraceConvert -----------------------------
(* Judges what the real code derived from packets (C17).  A record:            *)
(*   c, i, pl  the frame fed      d  packet type delivered                     *)
(*   v   [conversion, [[quantity, nearest number of units (8 bytes), distance  *)
(*       to it in millionths of a unit], ...]]                                 *)
(*   t   [] or [y, mo, d, h, mi, s, ns] or [error name]                        *)
EXTENDS UbxConvert, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES recno, judged
vars == <<recno, judged>>
Init == recno \in 1..Len(Trace) /\ judged = FALSE
Next == judged = FALSE /\ judged' = TRUE /\ recno' = recno
Spec == Init /\ [][Next]_vars

(* the results are doubles: 2^31 * 100 units of 1e-9 are exact to 1e-4 units    *)
Close == 2000
BadQuantity(name, got, want) ==
  IF Len(got) # Len(want) THEN name
  ELSE LET bad == {j \in 1..Len(want) : got[j][1] # want[j][1] \/ got[j][2] # want[j][3] \/ got[j][3] > Close}
       IN IF bad = {} THEN "" ELSE name \o "." \o want[CHOOSE j \in bad : TRUE][1]
TimeVerdict(R) ==
  LET errs == TimeErrors(R.pl) IN
  IF R.t = <<"panic">> THEN "DateTime panics"
  ELSE IF errs = {} THEN IF R.t = InstantOf(R.pl) THEN "ok" ELSE "DateTime"
  ELSE IF Len(R.t) = 1 /\ R.t[1] \in errs THEN "ok" ELSE "DateTime of an invalid date or time"
Verdict(R) ==
  IF R.d # Dispatch(R.c, R.i, R.pl) THEN "delivered as " \o R.d
  ELSE LET want == Conversions(R.d, R.pl) IN
       IF Len(R.v) # Len(want) THEN "conversions of " \o R.d
       ELSE LET bad == {j \in 1..Len(want) : R.v[j][1] # want[j][1]
                          \/ BadQuantity(want[j][1], R.v[j][2], want[j][2]) # ""}
            IN IF bad # {} THEN LET j == CHOOSE j \in bad : TRUE
                                IN R.d \o " -> " \o BadQuantity(want[j][1], R.v[j][2], want[j][2])
               ELSE IF R.d = "NavPvt" THEN TimeVerdict(R) ELSE "ok"
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
