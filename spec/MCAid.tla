-------------------------------- MODULE MCAid ---------------------------------
(* The design: whatever the order of the calls, the message holds the last      *)
(* position and the last time given, says so in its flags, and nothing else     *)
(* changes.                                                                     *)
EXTENDS UbxAid, TLC, FiniteSets
CONSTANT MaxOps
VARIABLES msg, done
vars == <<msg, done>>
Blank == [k \in 1..13 |-> [j \in 1..Widths[k] |-> IF k = 13 THEN IF j = 2 THEN 128 ELSE 0 ELSE 10 * k + j]]
Pos(a, b) == <<<<"k", a, 0, TRUE>>, <<"k", -b, 7, FALSE>>, <<"max">>>>
Ops == {<<"p", Pos(5, 1)>>, <<"p", Pos(-70000, 900000001)>>,
        <<"t", <<2000, 1, 1, 0, 0, 0, 0>>>>, <<"t", <<2099, 12, 31, 23, 59, 59, 999999999>>>>}
Choices(op, old) ==
  IF op[1] = "p"
  THEN {[old EXCEPT ![1] = a, ![2] = b, ![3] = c, ![13] = WithBit(WithBit(@, 0), 5)] :
          a \in MayEncode(op[2][1]), b \in MayEncode(op[2][2]), c \in MayEncode(op[2][3])}
  ELSE LET t == op[2] IN
       {[old EXCEPT ![6] = LE((t[1] - 2000) * 100 + t[2], 2),
                    ![7] = LE(t[3] * 1000000 + t[4] * 10000 + t[5] * 100 + t[6], 4),
                    ![8] = LE(t[7], 4), ![13] = WithBit(WithBit(@, 1), 10)]}
Init == msg = Blank /\ done = <<>>
Next == /\ Len(done) < MaxOps
        /\ \E op \in Ops : \E m \in Choices(op, msg) :
             msg' = m /\ done' = Append(done, op)
Spec == Init /\ [][Next]_vars

Last(kind) == LET at == {j \in 1..Len(done) : done[j][1] = kind} IN
              IF at = {} THEN <<>> ELSE done[CHOOSE j \in at : \A i \in at : i <= j][2]
Bit(k) == (msg[13][k \div 8 + 1] \div TwoTo(k % 8)) % 2
Says == /\ Bit(0) = Bit(5) /\ Bit(1) = Bit(10)
        /\ (Bit(0) = 1) = (Last("p") # <<>>) /\ (Bit(1) = 1) = (Last("t") # <<>>)
        /\ Bit(15) = 1 /\ \A k \in 0..31 \ {0, 1, 5, 10, 15} : Bit(k) = 0
LastCounts == /\ Last("p") # <<>> => \A j \in 1..3 : msg[j] \in MayEncode(Last("p")[j])
              /\ Last("t") # <<>> => TimeSet(msg, msg, Last("t"))
              /\ Last("p") = <<>> => \A j \in 1..3 : msg[j] = Blank[j]
              /\ Last("t") = <<>> => \A j \in 6..8 : msg[j] = Blank[j]
Others == \A j \in {4, 5} \cup 9..12 : msg[j] = Blank[j]
Taken == [][\E op \in Ops : Step(msg, msg', op)]_vars
=============================================================================
