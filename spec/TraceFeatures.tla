---------------------------- MODULE TraceFeatures ----------------------------
(* Judges the same operations performed by builds with every set of features     *)
(* (C23): each build offers what it should, all give the same, and that is what   *)
(* the specification says.  A record:                                            *)
(*   op, given                                                                   *)
(*   res  the distinct results: [by |-> the builds that gave it, out]            *)
EXTENDS TraceBuild, UbxFeatures
UC == INSTANCE UbxConfig
UP == INSTANCE UbxBounded WITH Base <- 256, Sync1 <- 181, Sync2 <- 98, IdLen <- 2, LenLen <- 2, MaxPayload <- 8176, Cap <- 0
Names(list) == {list[j] : j \in 1..Len(list)}
By(x) == {Names(x.by[j]) : j \in 1..Len(x.by)}

RECURSIVE StreamOk(_, _, _, _, _)
(* the events ev from k on, with h..e pending, are those of the parser           *)
StreamOk(g, ev, k, h, e) ==
  IF k > Len(ev) THEN e = Len(g.s)
  ELSE LET x == ev[k] IN
    CASE x[1] = "c" -> StreamOk(g, ev, k+1, h, e + x[2])
      [] x[1] = "d" -> x[3] = (IF x[2] = 0 THEN 1 ELSE 0) /\ StreamOk(g, ev, k+1, h, e)
      [] x[1] \in {"n", "p", "k", "m"} ->
           LET all == IF g.cap < 0 THEN {UP!Step(g.s, h, e)} ELSE UP!BSteps(g.s, h, e, g.cap)
               EventOf(r) == CASE r.k = "none"  -> <<"n">>
                                [] r.k = "frame" -> <<"p", g.s[r.at+3], g.s[r.at+4], SubSeq(g.s, r.at+7, r.at+6+r.n)>>
                                [] r.k = "bad"   -> <<"k", r.expect, r.got>>
                                [] r.k = "oom"   -> <<"m", r.required>>
           IN \E r \in {q \in all : EventOf(q)[1] = x[1] /\ EventOf(q) = x} : StreamOk(g, ev, k+1, r.h, e)
      [] OTHER -> FALSE
(* how words are recorded depends on serde, so those packets are left to C09      *)
HasWord(m) == \E k \in 1..Len(m.f) : m.f[k].a \in {"config", "config2", "mode"}
PacketOk23(g, o) ==
  LET d == Dispatch(g.c, g.i, g.pl)
      R == [c |-> g.c, i |-> g.i, pl |-> g.pl, d |-> o.d, cm |-> o.cm, pb |-> o.pb, a |-> o.a] IN
  /\ o.d = d /\ o.cm = <<g.c, g.i>> /\ o.pb = g.pl
  /\ d \in DOMAIN MsgByName => HasWord(MsgByName[d]) \/ Fields(R, FALSE) = "ok"
FrameOk23(g, o) ==
  LET fr == Built(MsgByName[g.b], g["in"]) IN
  /\ o.plen = Len(fr) /\ o.into = fr /\ o.arr = fr /\ o.res = "ok" /\ Writes(o.calls) = fr
  /\ "vec" \in DOMAIN o => o.vecok = 1 /\ o.vec = <<9, 8, 7>> \o fr
SetOk23(g, o, pre) ==
  o.f = pre \o FrameOf(6, 138, g.h[1] \o g.h[2] \o g.h[3] \o Concat([j \in 1..Len(g.items) |-> UC!Encode(g.items[j])]))
RequestOk23(n, o) ==
  LET m == MsgByName[n] IN
  /\ o.ci = <<m.c, m.i>> /\ o.rq = FrameOf(m.c, m.i, <<>>)
  /\ o.one = FrameOf(6, 1, <<m.c, m.i, RateV>>) /\ o.all = FrameOf(6, 1, <<m.c, m.i>> \o RatesV)
ContentOk(op, g, o) ==
  CASE "panic" \in DOMAIN o -> FALSE
    [] op \in {"flb", "own", "vec"} -> StreamOk(g, o.ev, 1, 0, 0)
    [] op = "packet" -> PacketOk23(g, o)
    [] op \in {"build", "vecsink"} -> FrameOk23(g, o)
    [] op = "extend" -> SetOk23(g, o, g.pre)
    [] op = "intovec" -> SetOk23(g, o, <<>>)
    [] op = "default" -> o.f = DefaultFrame(MsgByName[g[1]])
    [] op = "request" -> RequestOk23(g[1], o)
    [] op = "stderror" -> o.none = 1
    [] OTHER -> TRUE
FeatureVerdict(R) ==
  IF UNION {By(R.res[j]) : j \in 1..Len(R.res)} # OfferedBy(R.op) THEN "not every build offers " \o R.op
  ELSE IF Len(R.res) # 1 THEN "builds differ in " \o R.op
  ELSE IF ~ContentOk(R.op, R.given, R.res[1].out) THEN R.op \o " is not as specified" ELSE "ok"
FeatAccepted == judged => FeatureVerdict(Trace[recno]) = "ok"
FeatShown == [t |-> recno, l |-> 1, st |-> FeatureVerdict(Trace[recno])]
=============================================================================
