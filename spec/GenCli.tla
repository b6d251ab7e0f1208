-------------------------------- MODULE GenCli --------------------------------
(* Enumerates option combinations of ublox-cli and scripts for the receiver.        *)
(* A script is a list of steps:  <<"w">> wait for the host to write;                 *)
(* <<"d", bytes>> send;  <<"g", ms>> pause;  <<"q">> a while in which the host may    *)
(* do as it likes.                                                                   *)
EXTENDS UbxCli, Json, IOUtils, TLC
Thorough == IOEnv.TIER = "thorough"
O(baud, data, stop, par, cfg) == [baud |-> baud, data |-> data, stop |-> stop, par |-> par, cfg |-> cfg]
Plain == O(0, 0, 0, "", <<>>)
C(sel, baud, data, stop, par, in, out) ==
  <<[sel |-> sel, baud |-> baud, data |-> data, stop |-> stop, par |-> par, in |-> in, out |-> out]>>
Cfg0 == C("usb", 0, 0, 0, "", <<0,0,0,0>>, <<0,0,0>>)
Bauds == {0, 4800, 9600, 38400, 115200, 250000, 921600}
Bit01 == 0..1
Datas == {0, 7, 8}  Stops == {0, 1, 2}  Pars == {"", "even", "odd"}
PortOpts == {O(b, d, s, p, <<>>) : b \in Bauds, d \in Datas, s \in Stops, p \in Pars}
CfgOpts ==
  {O(0, 0, 0, "", C(l, b, d, s, p, <<0,0,0,0>>, <<0,0,0>>)) :
     l \in {"usb", "uart1", "uart2"}, b \in {0, 9600, 115200}, d \in {7, 8}, s \in {1, 2}, p \in Pars}
  \cup {O(0, 0, 0, "", C("uart1", 0, 0, 0, "", <<a, b, c, d>>, <<x, y, z>>)) :
     a \in Bit01, b \in Bit01, c \in Bit01, d \in Bit01, x \in Bit01, y \in Bit01, z \in Bit01}
  \cup {O(b, 0, 2, p, C("uart2", b, 0, 1, q, <<1,1,1,0>>, <<0,1,1>>)) : b \in {0, 57600}, p \in Pars, q \in Pars}
W == <<"w">>  Q == <<"q">>
D(b) == <<"d", b>>
G(ms) == <<"g", ms>>
Ack(c, i) == Frame(5, 1, <<c, i>>)
Nak(c, i) == Frame(5, 0, <<c, i>>)
Bad(f) == [f EXCEPT ![Len(f)] = (@ + 1) % 256]
(* what is not an acknowledgement of message c, i                                   *)
NotAcks(c, i) ==
  LET A == Ack(c, i) IN
  {Ack(c, i + 1), Ack(c + 1, i), Ack(i, c + 6), Nak(c, i), Bad(A), [A EXCEPT ![Len(A) - 1] = (@ + 128) % 256],
   Frame(1, 9, A),                          \* inside another frame
   Frame(5, 1, <<c, i, 0>>),                \* too long
   Frame(5, 1, <<c>>),
   Frame(6, 1, <<c, i>>),
   SubSeq(A, 1, 9), SubSeq(A, 2, 10), SubSeq(A, 1, 6),
   Frame(10, 4, [k \in 1..40 |-> 0]), <<36, 71, 78, 13, 10>>, <<181>>, <<181, 98>>, <<>>}
Chunks(f, cuts) ==      \* f in pieces with pauses longer than the host's 10 ms
  IF cuts = {} THEN <<D(f)>>
  ELSE LET RECURSIVE P(_, _)
           P(from, rest) == IF rest = {} THEN <<D(SubSeq(f, from + 1, Len(f)))>>
                            ELSE LET m == CHOOSE m \in rest : \A q \in rest : m <= q
                                 IN <<D(SubSeq(f, from + 1, m)), G(25)>> \o P(m, rest \ {m})
       IN P(0, cuts)
A1 == Ack(6, 1)
Garbage == <<181, 181, 98, 0, 255, 181>>
Scripts ==      \* without configure: enable, then poll
  {<<W, D(x), Q, D(A1), W, Q>> : x \in NotAcks(6, 1)}
  \cup {<<W, D(x), Q>> : x \in NotAcks(6, 1)}
  \cup {<<W, D(x \o A1), W>> : x \in {Ack(6, 0), Bad(A1), Garbage, Nak(6, 1), Frame(1, 9, A1), Frame(255, 1, <<1, 2>>)}}
  \cup {<<W, D(A1 \o x), W>> : x \in NotAcks(6, 1)}
  \cup {<<W>> \o Chunks(A1, {m}) \o <<W>> : m \in 1..9}
  \cup {<<W>> \o Chunks(A1, {m, m + 2}) \o <<W>> : m \in 1..7}
  \cup {<<W>> \o Chunks(Nak(6, 1) \o Garbage \o A1, {5, 12, 20}) \o <<W>>, <<W>> \o Chunks(A1, 1..9) \o <<W>>,
        <<D(A1), W, Q>>, <<W, D(A1), W, D(A1), Q>>, <<W, Q, W>>,
        <<W, D(Frame(1, 9, [k \in 1..2000 |-> 181]) \o A1), W>>,
        <<W, D(A1), W, D(Frame(10, 4, [k \in 1..70 |-> IF k % 10 = 0 THEN 0 ELSE 65])), Q, D(Frame(1, 7, [k \in 1..92 |-> 0])), Q>>}
A0 == Ack(6, 0)
Scripts2 ==     \* with configure
  {<<W, D(x), Q, D(A0), W, D(y), Q, D(A1), W>> : x \in {A1, Ack(0, 6), Nak(6, 0)}, y \in {A0, Ack(1, 6), Nak(6, 1)}}
  \cup {<<W, D(A1 \o A0), W, Q, D(A1), W>>, <<W, D(A0 \o A1), W, Q>>, <<W, D(A0), W, D(A0 \o A1), W>>,
        <<W, D(A1), Q>>, <<W, D(A0), W, D(A0), Q>>}
  \cup {<<W>> \o Chunks(A0, {m}) \o <<W>> \o Chunks(A1, {10 - m}) \o <<W>> : m \in 1..9}
Some(S, n) == IF Thorough THEN S ELSE {x \in S : TRUE}
Runs ==
  SetToSeq({[o |-> o, dbg |-> 0, sc |-> <<W>>] : o \in PortOpts})
  \o SetToSeq({[o |-> o, dbg |-> 0, sc |-> <<W, D(A0), W>>] : o \in CfgOpts})
  \o SetToSeq({[o |-> Plain, dbg |-> 0, sc |-> s] : s \in Scripts})
  \o SetToSeq({[o |-> O(0, 0, 0, "", Cfg0), dbg |-> 0, sc |-> s] : s \in Scripts2})
  \o SetToSeq({[o |-> O(0, 0, 0, "", C(l, 0, 0, 0, "", i, <<0,0,0>>)), dbg |-> 1, sc |-> <<W>>] :
                 l \in {"usb", "uart1"}, i \in {<<0,0,0,0>>, <<0,0,1,1>>}})
  \o <<[o |-> Plain, dbg |-> 1, sc |-> <<W, D(A1), W>>]>>
ASSUME ndJsonSerialize(IOEnv.OUT, Runs)
VARIABLE done
Spec == done = TRUE /\ [][UNCHANGED done]_done
=============================================================================
