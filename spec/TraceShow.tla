------------------------------ MODULE TraceShow -------------------------------
(* Judges what ublox-cli showed (C29).  A record: s, the bytes sent to it once it     *)
(* was configured, beginning and ending with a marker; out, its lines from the first  *)
(* marker's on; x, "runs" or the status it ended with.  LIST_TIME: that it ends with   *)
(* status 101 at a NAV-PVT whose time is none is a known finding.                      *)
EXTENDS UbxShow, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
Verdict(R) ==
  LET d == Differ(R.out, LinesFor(R.s), 1, 1) IN
  IF /\ IOEnv.LIST_TIME = "1" /\ R.x = "status 101" /\ \E f \in Range(FramesFrom(R.s, 0)) : NoTime(f)
     /\ Differ(R.out, LinesToNoTime(R.s), 1, 1) = 0
  THEN IF PrintT(<<"KNOWN", "time">>) THEN "ok" ELSE "ok"
  ELSE IF R.x # "runs" THEN "the program ended (" \o R.x \o ") after " \o ToString(Len(R.out)) \o " lines"
  ELSE IF d = 0 THEN "ok"
  ELSE "line " \o ToString(d) \o " is not what the packets call for" \o (IF d <= Len(R.out) THEN ": " \o R.out[d] ELSE "")
VARIABLES recno, judged
vars == <<recno, judged>>
TInit == recno \in 1..Len(Trace) /\ judged = FALSE
TSpec == TInit /\ [][~judged /\ judged' = TRUE /\ UNCHANGED recno]_vars
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
