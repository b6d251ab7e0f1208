-------------------------------- MODULE UbxCli --------------------------------
(* What the options of ublox-cli ask for: line settings, messages, refusals.       *)
(* Options: [baud, data, stop, par, cfg]; 0 or "" where not given; cfg is <<>> or  *)
(* <<[sel, baud, data, stop, par, in, out]>>, in and out being 0/1 flags in the     *)
(* order ublox, nmea, rtcm, rtcm3 and ublox, nmea, rtcm3.                           *)
EXTENDS UbxDevice, FiniteSets
US == INSTANCE UbxStream WITH Base <- 256, Sync1 <- 181, Sync2 <- 98, IdLen <- 2, LenLen <- 2, MaxPayload <- 8176

Le(v, n) == [k \in 1..n |-> (v \div (256 ^ (k-1))) % 256]
Frame(c, i, pl) ==
  LET body == <<c, i>> \o Le(Len(pl), 2) \o pl IN <<181, 98>> \o body \o US!Fletcher(body, 0, Len(body))
Or(v, w, d) == IF v = w THEN d ELSE v

(* ---- K: the recorded deviations allowed to show ("parity", "baud", "panic")      *)
Par(p, K) == LET q == Or(p, "", "none") IN
             IF "parity" \in K /\ q # "none" THEN (IF q = "odd" THEN "even" ELSE "odd") ELSE q
Line(o, K) == [data |-> Or(o.data, 0, 8), stop |-> Or(o.stop, 0, 1), par |-> Par(o.par, K), baud |-> Or(o.baud, 0, 9600)]
(* of the termios settings                                                          *)
Bit(w, k) == (w \div 2 ^ k) % 2
LineOf(cflag, speed) ==
  [data |-> 5 + ((cflag \div 16) % 4), stop |-> 1 + Bit(cflag, 6),
   par |-> IF Bit(cflag, 8) = 0 THEN "none" ELSE IF Bit(cflag, 9) = 1 THEN "odd" ELSE "even", baud |-> speed]

PortOf(s) == CASE s = "uart1" -> 1 [] s = "uart2" -> 2 [] s = "usb" -> 3
Conflict(c) == c.in[3] = 1 /\ c.in[4] = 1
InMask(c) == 1 + 2 * c.in[2] + 4 * c.in[3] + 32 * c.in[4]      \* UBX is always accepted
OutMask(c) == LET m == c.out[1] + 2 * c.out[2] + 32 * c.out[3] IN IF m = 0 THEN 1 ELSE m
ModeWord(c, K) ==
  (IF Or(c.data, 0, 8) = 7 THEN 128 ELSE 192)
  + 512 * (CASE Par(c.par, K) = "even" -> 0 [] Par(c.par, K) = "odd" -> 1 [] OTHER -> 4)
  + 4096 * (IF Or(c.stop, 0, 1) = 2 THEN 2 ELSE 0)
ConfigureFrame(c, K) ==
  Frame(6, 0, <<PortOf(c.sel), 0, 0, 0>> \o Le(ModeWord(c, K), 4)
              \o Le(IF "baud" \in K THEN 9600 ELSE Or(c.baud, 0, 9600), 4)
              \o Le(InMask(c), 2) \o Le(OutMask(c), 2) \o <<0, 0, 0, 0>>)
EnableFrame == Frame(6, 1, <<1, 7, 0, 1, 1, 1, 0, 0>>)
PollFrame == Frame(10, 4, <<>>)

Refuses(o, K) == o.cfg # <<>> /\ (Conflict(o.cfg[1]) \/ "panic" \in K)
(* the messages in order, and what each waits for                                   *)
Messages(o, K) ==
  IF Refuses(o, K) THEN <<>>
  ELSE (IF o.cfg = <<>> THEN <<>> ELSE <<ConfigureFrame(o.cfg[1], K)>>) \o <<EnableFrame, PollFrame>>
Needs(o, K) ==
  IF Refuses(o, K) THEN <<>>
  ELSE (IF o.cfg = <<>> THEN <<>> ELSE <<<<6, 0>>>>) \o <<<<6, 1>>, <<>>>>

(* ---- the receiver's bytes as tokens with the offset of their end                 *)
RECURSIVE Tokens(_, _, _)
Tokens(s, h, e) ==
  LET r == US!Step(s, h, e) IN
  CASE r.k = "none" -> <<>>
    [] r.k = "frame" ->
         <<[e |-> r.h, ack |-> IF s[r.at+3] = 5 /\ s[r.at+4] = 1 /\ r.n = 2 THEN <<s[r.at+7], s[r.at+8]>> ELSE <<>>]>>
         \o Tokens(s, r.h, e)
    [] OTHER -> Tokens(s, r.h, e)
=============================================================================
