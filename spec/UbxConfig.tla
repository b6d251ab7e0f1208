------------------------------ MODULE UbxConfig ------------------------------
(***************************************************************************)
(* Configuration items (UBX-CFG-VALSET): every item the library offers,    *)
(* its key and the type of its value, and how an item is encoded.          *)
(*   C(name, size code, group, item, type)    one item                     *)
(*   message rates: an item per port, numbered I2C, UART1, UART2, USB, SPI *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

C(n, s, g, i, ty) == [n |-> n, s |-> s, g |-> g, i |-> i, ty |-> ty]
Plain == <<
  C("Uart1Baudrate", 4, 82, 1, "u32"),
  C("Uart1StopBits", 2, 82, 2, "StopBits"),
  C("Uart1DataBits", 2, 82, 3, "DataBits"),
  C("Uart1Parity", 2, 82, 4, "Parity"),
  C("Uart1Enabled", 1, 82, 5, "bool"),
  C("Uart1InProtUbx", 1, 115, 1, "bool"),
  C("Uart1InProtNmea", 1, 115, 2, "bool"),
  C("Uart1InProtRtcm3x", 1, 115, 4, "bool"),
  C("Uart1OutProtUbx", 1, 116, 1, "bool"),
  C("Uart1OutProtNmea", 1, 116, 2, "bool"),
  C("Uart1OutProtRtcm3x", 1, 116, 4, "bool"),
  C("Uart2Baudrate", 4, 83, 1, "u32"),
  C("Uart2StopBits", 2, 83, 2, "StopBits"),
  C("Uart2DataBits", 2, 83, 3, "DataBits"),
  C("Uart2Parity", 2, 83, 4, "Parity"),
  C("Uart2Enabled", 1, 83, 5, "bool"),
  C("Uart2Remap", 1, 83, 6, "bool"),
  C("Uart2InProtUbx", 1, 117, 1, "bool"),
  C("Uart2InProtNmea", 1, 117, 2, "bool"),
  C("Uart2InProtRtcm3x", 1, 117, 4, "bool"),
  C("Uart2OutProtUbx", 1, 118, 1, "bool"),
  C("Uart2OutProtNmea", 1, 118, 2, "bool"),
  C("Uart2OutProtRtcm3x", 1, 118, 4, "bool"),
  C("UsbEnabled", 1, 101, 1, "bool"),
  C("UsbSelfpow", 1, 101, 2, "bool"),
  C("UsbVendorId", 3, 101, 10, "u16"),
  C("UsbProductId", 3, 101, 11, "u16"),
  C("UsbPower", 3, 101, 12, "u16"),
  C("UsbVendorStr0", 5, 101, 13, "u64"),
  C("UsbVendorStr1", 5, 101, 14, "u64"),
  C("UsbVendorStr2", 5, 101, 15, "u64"),
  C("UsbVendorStr3", 5, 101, 16, "u64"),
  C("UsbProductStr0", 5, 101, 17, "u64"),
  C("UsbProductStr1", 5, 101, 18, "u64"),
  C("UsbProductStr2", 5, 101, 19, "u64"),
  C("UsbProductStr3", 5, 101, 20, "u64"),
  C("UsbSerialNoStr0", 5, 101, 21, "u64"),
  C("UsbSerialNoStr1", 5, 101, 22, "u64"),
  C("UsbSerialNoStr2", 5, 101, 23, "u64"),
  C("UsbSerialNoStr3", 5, 101, 24, "u64"),
  C("UsbinprotUbx", 1, 119, 1, "bool"),
  C("UsbinprotNmea", 1, 119, 2, "bool"),
  C("UsbinprotRtcm3X", 1, 119, 4, "bool"),
  C("UsbOutProtUbx", 1, 120, 1, "bool"),
  C("UsbOutProtNmea", 1, 120, 2, "bool"),
  C("UsbOutProtRtcm3x", 1, 120, 4, "bool"),
  C("InfmsgUbxI2c", 2, 146, 1, "CfgInfMask"),
  C("InfmsgUbxUart1", 2, 146, 2, "CfgInfMask"),
  C("InfmsgUbxUart2", 2, 146, 3, "CfgInfMask"),
  C("InfmsgUbxUsb", 2, 146, 4, "CfgInfMask"),
  C("InfmsgUbxSpi", 2, 146, 5, "CfgInfMask"),
  C("InfmsgNmeaI2c", 2, 146, 6, "CfgInfMask"),
  C("InfmsgNmeaUart1", 2, 146, 7, "CfgInfMask"),
  C("InfmsgNmeaUart2", 2, 146, 8, "CfgInfMask"),
  C("InfmsgNmeaUsb", 2, 146, 9, "CfgInfMask"),
  C("InfmsgNmeaSpi", 2, 146, 10, "CfgInfMask"),
  C("RateMeas", 3, 33, 1, "u16"),
  C("RateNav", 3, 33, 2, "u16"),
  C("RateTimeref", 2, 33, 3, "AlignmentToReferenceTime"),
  C("SignalGpsEna", 1, 49, 31, "bool"),
  C("SignalGpsL1caEna", 1, 49, 1, "bool"),
  C("SignalGpsL2cEna", 1, 49, 3, "bool"),
  C("SignalGalEna", 1, 49, 33, "bool"),
  C("SignalGalE1Ena", 1, 49, 7, "bool"),
  C("SignalGalE5bEna", 1, 49, 10, "bool"),
  C("SignalBdsEna", 1, 49, 34, "bool"),
  C("SignalBdsB1Ena", 1, 49, 13, "bool"),
  C("SignalBdsB2Ena", 1, 49, 14, "bool"),
  C("SignalQzssEna", 1, 49, 36, "bool"),
  C("SignalQzssL1caEna", 1, 49, 18, "bool"),
  C("SignalQzssL2cEna", 1, 49, 21, "bool"),
  C("SignalGloEna", 1, 49, 37, "bool"),
  C("SignalGloL1Ena", 1, 49, 24, "bool"),
  C("SignalGLoL2Ena", 1, 49, 26, "bool"),
  C("TpPulseDef", 2, 5, 35, "TpPulse"),
  C("TpPulseLengthDef", 2, 5, 48, "TpPulseLength"),
  C("TpAntCableDelay", 3, 5, 1, "i16"),
  C("TpPeriodTp1", 4, 5, 2, "u32"),
  C("TpPeriodLockTp1", 4, 5, 3, "u32"),
  C("TpFreqTp1", 4, 5, 36, "u32"),
  C("TpFreqLockTp1", 4, 5, 37, "u32"),
  C("TpLenTp1", 4, 5, 4, "u32"),
  C("TpLenLockTp1", 4, 5, 5, "u32"),
  C("TpTp1Ena", 1, 5, 7, "bool"),
  C("TpSyncGnssTp1", 1, 5, 8, "bool"),
  C("TpUseLockedTp1", 1, 5, 9, "bool"),
  C("TpAlignToTowTp1", 1, 5, 10, "bool"),
  C("TpPolTp1", 1, 5, 11, "bool"),
  C("TpTimegridTp1", 2, 5, 12, "AlignmentToReferenceTime") >>

(* <<message, item number of its rate on I2C>>                              *)
Rates == <<
  <<"NmeaIdDtm", 166>>,
  <<"NmeaIdGbs", 221>>,
  <<"NmeaIdGga", 186>>,
  <<"NmeaIdGll", 201>>,
  <<"NmeaIdGns", 181>>,
  <<"NmeaIdGrs", 206>>,
  <<"NmeaIdGsa", 191>>,
  <<"NmeaIdGst", 211>>,
  <<"NmeaIdGsv", 196>>,
  <<"NmeaIdRmc", 171>>,
  <<"NmeaIdVlw", 231>>,
  <<"NmeaIdVtg", 176>>,
  <<"NmeaIdZda", 216>>,
  <<"PubxIdPolyp", 236>>,
  <<"PubxIdPolys", 241>>,
  <<"PubxIdPolyt", 246>>,
  <<"Rtcm3xType1005", 701>>,
  <<"Rtcm3xType1074", 862>>,
  <<"Rtcm3xType1077", 716>>,
  <<"Rtcm3xType1084", 867>>,
  <<"Rtcm3xType1087", 721>>,
  <<"Rtcm3xType1094", 872>>,
  <<"Rtcm3xType1097", 792>>,
  <<"Rtcm3xType1124", 877>>,
  <<"Rtcm3xType1127", 726>>,
  <<"Rtcm3xType1230", 771>>,
  <<"UbxLogInfo", 601>>,
  <<"UbxMonComms", 847>>,
  <<"UbxMonHw2", 441>>,
  <<"UbxMonHw3", 852>>,
  <<"UbxMonHw", 436>>,
  <<"UbxMonIo", 421>>,
  <<"UbxMonMsgPp", 406>>,
  <<"UbxMonRf", 857>>,
  <<"UbxMonRxbuf", 416>>,
  <<"UbxMonRxr", 391>>,
  <<"UbxMonTxbuf", 411>>,
  <<"UbxNavClock", 101>>,
  <<"UbxNavDop", 56>>,
  <<"UbxNavEoe", 351>>,
  <<"UbxNavGeofence", 161>>,
  <<"UbxNavHpPosEcef", 46>>,
  <<"UbxNavHpPosllh", 51>>,
  <<"UbxNavOdo", 126>>,
  <<"UbxNavOrb", 16>>,
  <<"UbxNavPosEcef", 36>>,
  <<"UbxNavPosLlh", 41>>,
  <<"UbxNavPvt", 6>>,
  <<"UbxNavRelposned", 141>>,
  <<"UbxNavSat", 21>>,
  <<"UbxNavSig", 837>>,
  <<"UbxNavStatus", 26>>,
  <<"UbxNavSvin", 136>>,
  <<"UbxNavTimeBds", 81>>,
  <<"UbxNavTimeGal", 86>>,
  <<"UbxNavTimeGlo", 76>>,
  <<"UbxNavTimeGps", 71>>,
  <<"UbxNavTimeLs", 96>>,
  <<"UbxNavTimeUtc", 91>>,
  <<"UbxNavVelEcef", 61>>,
  <<"UbxNavVelNed", 66>>,
  <<"UbxRxmMeasx", 516>>,
  <<"UbxRxmRawx", 676>>,
  <<"UbxRxmRlm", 606>>,
  <<"UbxRxmRtcm", 616>>,
  <<"UbxRxmSfrbx", 561>>,
  <<"UbxTimTm2", 376>>,
  <<"UbxTimTp", 381>>,
  <<"UbxTimVrfy", 146>> >>
Ports == <<"I2c", "Uart1", "Uart2", "Usb", "Spi">>
RateItems == FoldLeft(LAMBDA a, r : a \o [p \in 1..5 |-> C("Msgout" \o r[1] \o Ports[p], 2, 145, r[2] + p - 1, "u8")],
                      <<>>, Rates)
Items == Plain \o RateItems
ItemIndex == [n \in {Items[j].n : j \in 1..Len(Items)} |-> CHOOSE j \in 1..Len(Items) : Items[j].n = n]
Item(n) == Items[ItemIndex[n]]

(* bits 28..30 of the key give the size of the value                         *)
SizeOf(s) == CASE s \in {1, 2} -> 1 [] s = 3 -> 2 [] s = 4 -> 4 [] s = 5 -> 8
Key(it) == <<it.i % 256, it.i \div 256, it.g, 16 * it.s>>
Width(ty) == CASE ty = "u64" -> 8 [] ty = "u32" -> 4 [] ty \in {"u16", "i16"} -> 2 [] OTHER -> 1
(* the variants of enumerated values in the order of their codes             *)
Variants == [DataBits |-> <<"Eight", "Seven">>,
             Parity |-> <<"None", "Odd", "Even">>,
             StopBits |-> <<"Half", "One", "OneHalf", "Two">>,
             AlignmentToReferenceTime |-> <<"Utc", "Gps", "Glo", "Bds", "Gal">>,
             TpPulse |-> <<"Period", "Freq">>,
             TpPulseLength |-> <<"Ratio", "Length">>]
Symbolic(ty) == ty \in DOMAIN Variants
(* a value is <<item name, bytes, variant>>: the bytes of a number, or the   *)
(* variant of an enumeration                                                 *)
ValueBytes(v) ==
  LET it == Item(v[1]) IN
  IF Symbolic(it.ty) THEN <<(CHOOSE c \in 1..Len(Variants[it.ty]) : Variants[it.ty][c] = v[3]) - 1>>
  ELSE v[2]
Encode(v) == Key(Item(v[1])) \o ValueBytes(v)
LengthOf(v) == 4 + SizeOf(Item(v[1]).s)

ASSUME ConfigConsistent ==
  /\ \A j, k \in 1..Len(Items) : (Items[j].n = Items[k].n \/ Key(Items[j]) = Key(Items[k])) => j = k
  /\ \A j \in 1..Len(Items) : /\ SizeOf(Items[j].s) = Width(Items[j].ty)
                              /\ Items[j].s = 1 <=> Items[j].ty = "bool"
                              /\ Items[j].g \in 0..255 /\ Items[j].i \in 0..4095
=============================================================================
