------------------------------- MODULE TraceCli -------------------------------
(* Judges recorded runs of ublox-cli against a pseudo terminal (C22).  A record:    *)
(*   o   the options                 s   all bytes the receiver sent                *)
(*   ev  <<"l", cflag, speed>>  line settings made     <<"d", n>> n bytes were sent *)
(*       <<"w", bytes>>  the host wrote                <<"x", code>> it ended        *)
(*       <<"t">>  it was given all the time it needs, and wrote nothing              *)
EXTENDS UbxCli, Json, IOUtils, TLC
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
(* deviations which are listed as known findings                                    *)
Listed == {q \in {"parity", "baud", "panic"} : IOEnv["LIST_" \o q] = "1"}

RECURSIVE Run(_, _, _, _, _, _, _)
(* H: the states the host may be in; n bytes sent so far; line: the settings        *)
Run(R, K, toks, k, H, n, line) ==
  IF H = {} THEN k - 1
  ELSE IF k > Len(R.ev) THEN 0
  ELSE LET x == R.ev[k]
           msgs == Messages(R.o, K)
           needs == Needs(R.o, K)
           seen(m) == [j \in 1..Cardinality({i \in 1..Len(toks) : toks[i].e <= m}) |-> toks[j].ack] IN
    CASE x[1] = "l" -> Run(R, K, toks, k+1, H, n, LineOf(x[2], x[3]))
      [] x[1] = "d" -> Run(R, K, toks, k+1, Closure(H, needs, seen(n + x[2])), n + x[2], line)
      [] x[1] = "w" ->
           LET S == {h \in H : CanSend(h, needs) /\ msgs[h.ph + 1] = x[2] /\ line = Line(R.o, K)} IN
           Run(R, K, toks, k+1, Closure({Send(h) : h \in S}, needs, seen(n)), n, line)
      [] x[1] = "t" -> Run(R, K, toks, k+1, {h \in H : MayRest(h, needs, seen(n))}, n, line)
      [] x[1] = "x" -> IF Refuses(R.o, K) /\ line = Line(R.o, K) THEN Run(R, K, toks, k+1, H, n, line) ELSE k
      [] OTHER -> k
Explains(R, K) == Run(R, K, Tokens(R.s, 0, Len(R.s)), 1, {Init0}, 0, <<>>)
(* the smallest set of listed deviations that explains the run                      *)
Verdict(R) ==
  LET at == Explains(R, {}) IN
  IF at = 0 THEN "ok"
  ELSE LET Ks == {K \in SUBSET Listed : Explains(R, K) = 0} IN
       IF Ks = {} THEN ToString(R.ev[at][1]) \o " is not what the options and the receiver's bytes call for (event " \o ToString(at) \o ")"
       ELSE LET K == CHOOSE K \in Ks : \A J \in Ks : Cardinality(K) <= Cardinality(J)
            IN IF PrintT(<<"KNOWN", K, R.o.par, IF R.o.cfg = <<>> THEN "" ELSE R.o.cfg[1].par>>) THEN "ok" ELSE "ok"

VARIABLES recno, judged
vars == <<recno, judged>>
TInit == recno \in 1..Len(Trace) /\ judged = FALSE
TSpec == TInit /\ [][~judged /\ judged' = TRUE /\ UNCHANGED recno]_vars
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
