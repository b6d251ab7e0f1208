----------------------------- MODULE TracePrint -----------------------------
(* Judges printed forms recorded from the real code (C27).  A record is       *)
(*   c, i, pl, d, dt   frame fed, type delivered, its Debug text              *)
(*   ft   the Debug text of each accessor's result, in catalogue order        *)
(*   bl   blocks: <<iterator, bytes, text, texts of the accessors' results>>  *)
(* or                                                                         *)
(*   e, v, n, t        an error, its numbers and names, its Display text      *)
EXTENDS UbxPrint, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES recno, judged
vars == <<recno, judged>>
Init == recno \in 1..Len(Trace) /\ judged = FALSE
Next == judged = FALSE /\ judged' = TRUE /\ recno' = recno
Spec == Init /\ [][Next]_vars
BlocksBad(R) == {j \in 1..Len(R.bl) : LET B == R.bl[j] IN B[3] # ItemText(B[1], B[2], B[4])}
FieldsBad(m, R) == {k \in 1..Len(m.f) : R.ft[k] # FieldText(m.f[k], BytesOf(m, k, R.pl), R.ft[k])}
PacketVerdict(R) ==
  IF R.d \in {"panic", "hang"} THEN R.d
  ELSE IF R.d = "" THEN "ok"
  ELSE IF R.d = "Unknown" THEN IF R.dt = "Unknown(" \o UnknownText(R.c, R.i, R.pl) \o ")" THEN "ok" ELSE "Debug of Unknown"
  ELSE LET m == MsgByName[R.d] IN
       IF ~Valid(m, R.pl) THEN "ok"                     \* C08 decides
       ELSE IF Len(R.ft) # Len(m.f) THEN "number of fields of " \o R.d
       ELSE IF FieldsBad(m, R) # {} THEN "Debug of " \o R.d \o "." \o m.f[CHOOSE k \in FieldsBad(m, R) : TRUE].a
       ELSE IF R.dt # R.d \o "(" \o PacketText(m, R.pl, R.ft) \o ")" THEN "Debug of " \o R.d
       ELSE IF BlocksBad(R) # {} THEN "Debug of a block of " \o R.d
       ELSE "ok"
Verdict(R) == IF "e" \in DOMAIN R THEN IF ErrorTextOk(R.e, R.v, R.n, R.t) THEN "ok" ELSE "Display of " \o R.e
              ELSE PacketVerdict(R)
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
