------------------------------- MODULE UbxKept -------------------------------
(* Values which can be both serialized and read back (C28): what they         *)
(* serialize as, given the number (or the floats) they stand for.             *)
EXTENDS UbxPacket
FloatFields == [Position |-> <<"lon", "lat", "alt">>, PositionECEF |-> <<"x", "y", "z">>,
                Velocity |-> <<"speed", "heading">>]
FloatsV(u, b) == StructV([k \in 1..Len(FloatFields[u]) |-> <<FloatFields[u][k], <<"f", Slice(b, 8 * (k-1), 8)>>>>])
ResetCodes == {0, 1, 2, 4, 8, 9}
ResetName(x) == CASE x = 0 -> "HardwareResetImmediately" [] x = 1 -> "ControlledSoftwareReset"
                  [] x = 2 -> "ControlledSoftwareResetGpsOnly" [] x = 4 -> "HardwareResetAfterShutdown"
                  [] x = 8 -> "ControlledGpsStop" [] x = 9 -> "ControlledGpsStart"
(* the sub-field of NavSatSvFlags which is a value of its own                *)
SubOf == [NavSatQualityIndicator |-> <<0, 3>>, NavSatSvHealth |-> <<4, 2>>, NavSatOrbitSource |-> <<8, 3>>]
SubNames == [NavSatQualityIndicator |-> <<"NoSignal", "Searching", "SignalAcquired", "SignalDetected", "CodeLock",
                                         "CarrierLock", "CarrierLock", "CarrierLock">>,
             NavSatSvHealth |-> <<"", "Healthy", "Unhealthy", "">>,
             NavSatOrbitSource |-> <<"NoInfoAvailable", "Ephemeris", "Almanac", "AssistNowOffline",
                                    "AssistNowAutonomous", "", "", "">>]
Rest == [NavSatQualityIndicator |-> "-", NavSatSvHealth |-> "Unknown", NavSatOrbitSource |-> "Other"]
SubV(u, b) == LET x == Bits(b, SubOf[u][1], SubOf[u][2]) n == SubNames[u][x + 1] IN
              IF n = "" THEN StructV(<<<<Rest[u], IntV(x)>>>>) ELSE <<"s", n>>
Numbers == {"CfgItfmBbThreshold", "CfgItfmCwThreshold", "CfgItfmAlgoBits", "CfgItfmGeneralBits"}
AntennaName == <<"Unknown", "Active", "Passive">>
KeptTypes == DOMAIN FloatFields \cup DOMAIN SubOf \cup Words \cup Numbers \cup {"ResetMode", "CfgItfmAntennaSettings"}
SerializedAs(u, b) ==
  CASE u \in DOMAIN FloatFields -> FloatsV(u, b)
    [] u \in Words -> WordV(u, b)
    [] u \in DOMAIN SubOf -> SubV(u, b)
    [] u \in Numbers -> <<"i", b \o <<0, 0, 0, 0>>>>
    [] u = "ResetMode" -> <<"s", ResetName(b[1])>>
    [] u = "CfgItfmAntennaSettings" -> IntV(b[1])
(* numbers a type with documented codes only reads from a format without names *)
ReadsNumber(u, x) == u = "CfgItfmAntennaSettings" /\ x \in 0..2
=============================================================================
