----------------------------- MODULE TraceConfig ------------------------------
(* Judges what the real code did with configuration items (C14) and variable-   *)
(* length builders (C13).                                                       *)
EXTENDS UbxConfig, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES recno, judged
vars == <<recno, judged>>
Init == recno \in 1..Len(Trace) /\ judged = FALSE
Next == judged = FALSE /\ judged' = TRUE /\ recno' = recno
Spec == Init /\ [][Next]_vars

FletcherStep(ck, x) == <<(ck[1] + x) % 256, (ck[2] + ck[1] + x) % 256>>
Fletcher(b) == FoldLeft(FletcherStep, <<0, 0>>, b)
EncodeAll(vs) == FoldLeft(LAMBDA a, v : a \o Encode(v), <<>>, vs)
ValSetFrame(h, vs) ==
  LET pl == h[1] \o h[2] \o h[3] \o EncodeAll(vs)
      body == <<6, 138, Len(pl) % 256, Len(pl) \div 256>> \o pl
  IN <<181, 98>> \o body \o Fletcher(body)

ItemVerdict(R) ==
  LET v == R.item enc == Encode(v) n == Len(enc) IN
  IF n # LengthOf(v) THEN "size announced by the key of " \o v[1]
  ELSE IF R.len # n \/ R.empty # 0 THEN "len() of " \o v[1]
  ELSE IF R.w # n THEN "count of write_to of " \o v[1]
  ELSE IF R.buf # enc \o [j \in 1..(20 - n) |-> 165] THEN "write_to of " \o v[1]
  ELSE IF R.e # n THEN "count of extend_to of " \o v[1]
  ELSE IF R.ext # <<1, 2, 3>> \o enc THEN "extend_to of " \o v[1]
  ELSE IF R.p # v \/ R.p2 # v THEN "parse of " \o v[1]
  ELSE "ok"
ListVerdict(R) ==
  IF R.it # R.list THEN "CfgValIter"
  ELSE IF R.data # EncodeAll(R.list) THEN "data of CfgValIter" ELSE "ok"
SetVerdict(R) ==
  LET fr == ValSetFrame(R.h, R.items) IN
  IF R.vec # fr THEN "into_packet_vec"
  ELSE IF R.ext # R.pre \o fr THEN "extend_to a Vec"
  ELSE IF R.own # R.pre \o fr THEN "extend_to another buffer"
  ELSE "ok"
Verdict(R) ==
  IF "panic" \in DOMAIN R THEN "panic: " \o R.panic
  ELSE IF "hang" \in DOMAIN R THEN "hang"
  ELSE IF "item" \in DOMAIN R THEN ItemVerdict(R)
  ELSE IF "list" \in DOMAIN R THEN ListVerdict(R)
  ELSE SetVerdict(R)
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
