// Generated by tools/gen_harness.py from spec/UbxCatalogue.tla
use crate::config::*;
use ublox::cfg_val::*;
use ublox::*;

impl Value for DataBits {
    fn make(_b: &[u8], v: &str) -> Self {
        match v {
            "Eight" => DataBits::Eight,
            "Seven" => DataBits::Seven,
            _ => panic!("variant"),
        }
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (
            vec![],
            match self {
                DataBits::Eight => "Eight",
                DataBits::Seven => "Seven",
            },
        )
    }
}
impl Value for Parity {
    fn make(_b: &[u8], v: &str) -> Self {
        match v {
            "None" => Parity::None,
            "Odd" => Parity::Odd,
            "Even" => Parity::Even,
            _ => panic!("variant"),
        }
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (
            vec![],
            match self {
                Parity::None => "None",
                Parity::Odd => "Odd",
                Parity::Even => "Even",
            },
        )
    }
}
impl Value for StopBits {
    fn make(_b: &[u8], v: &str) -> Self {
        match v {
            "Half" => StopBits::Half,
            "One" => StopBits::One,
            "OneHalf" => StopBits::OneHalf,
            "Two" => StopBits::Two,
            _ => panic!("variant"),
        }
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (
            vec![],
            match self {
                StopBits::Half => "Half",
                StopBits::One => "One",
                StopBits::OneHalf => "OneHalf",
                StopBits::Two => "Two",
            },
        )
    }
}
impl Value for AlignmentToReferenceTime {
    fn make(_b: &[u8], v: &str) -> Self {
        match v {
            "Utc" => AlignmentToReferenceTime::Utc,
            "Gps" => AlignmentToReferenceTime::Gps,
            "Glo" => AlignmentToReferenceTime::Glo,
            "Bds" => AlignmentToReferenceTime::Bds,
            "Gal" => AlignmentToReferenceTime::Gal,
            _ => panic!("variant"),
        }
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (
            vec![],
            match self {
                AlignmentToReferenceTime::Utc => "Utc",
                AlignmentToReferenceTime::Gps => "Gps",
                AlignmentToReferenceTime::Glo => "Glo",
                AlignmentToReferenceTime::Bds => "Bds",
                AlignmentToReferenceTime::Gal => "Gal",
            },
        )
    }
}
impl Value for TpPulse {
    fn make(_b: &[u8], v: &str) -> Self {
        match v {
            "Period" => TpPulse::Period,
            "Freq" => TpPulse::Freq,
            _ => panic!("variant"),
        }
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (
            vec![],
            match self {
                TpPulse::Period => "Period",
                TpPulse::Freq => "Freq",
            },
        )
    }
}
impl Value for TpPulseLength {
    fn make(_b: &[u8], v: &str) -> Self {
        match v {
            "Ratio" => TpPulseLength::Ratio,
            "Length" => TpPulseLength::Length,
            _ => panic!("variant"),
        }
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (
            vec![],
            match self {
                TpPulseLength::Ratio => "Ratio",
                TpPulseLength::Length => "Length",
            },
        )
    }
}
pub fn make(name: &str, b: &[u8], v: &str) -> CfgVal {
    match name {
        "Uart1Baudrate" => CfgVal::Uart1Baudrate(Value::make(b, v)),
        "Uart1StopBits" => CfgVal::Uart1StopBits(Value::make(b, v)),
        "Uart1DataBits" => CfgVal::Uart1DataBits(Value::make(b, v)),
        "Uart1Parity" => CfgVal::Uart1Parity(Value::make(b, v)),
        "Uart1Enabled" => CfgVal::Uart1Enabled(Value::make(b, v)),
        "Uart1InProtUbx" => CfgVal::Uart1InProtUbx(Value::make(b, v)),
        "Uart1InProtNmea" => CfgVal::Uart1InProtNmea(Value::make(b, v)),
        "Uart1InProtRtcm3x" => CfgVal::Uart1InProtRtcm3x(Value::make(b, v)),
        "Uart1OutProtUbx" => CfgVal::Uart1OutProtUbx(Value::make(b, v)),
        "Uart1OutProtNmea" => CfgVal::Uart1OutProtNmea(Value::make(b, v)),
        "Uart1OutProtRtcm3x" => CfgVal::Uart1OutProtRtcm3x(Value::make(b, v)),
        "Uart2Baudrate" => CfgVal::Uart2Baudrate(Value::make(b, v)),
        "Uart2StopBits" => CfgVal::Uart2StopBits(Value::make(b, v)),
        "Uart2DataBits" => CfgVal::Uart2DataBits(Value::make(b, v)),
        "Uart2Parity" => CfgVal::Uart2Parity(Value::make(b, v)),
        "Uart2Enabled" => CfgVal::Uart2Enabled(Value::make(b, v)),
        "Uart2Remap" => CfgVal::Uart2Remap(Value::make(b, v)),
        "Uart2InProtUbx" => CfgVal::Uart2InProtUbx(Value::make(b, v)),
        "Uart2InProtNmea" => CfgVal::Uart2InProtNmea(Value::make(b, v)),
        "Uart2InProtRtcm3x" => CfgVal::Uart2InProtRtcm3x(Value::make(b, v)),
        "Uart2OutProtUbx" => CfgVal::Uart2OutProtUbx(Value::make(b, v)),
        "Uart2OutProtNmea" => CfgVal::Uart2OutProtNmea(Value::make(b, v)),
        "Uart2OutProtRtcm3x" => CfgVal::Uart2OutProtRtcm3x(Value::make(b, v)),
        "UsbEnabled" => CfgVal::UsbEnabled(Value::make(b, v)),
        "UsbSelfpow" => CfgVal::UsbSelfpow(Value::make(b, v)),
        "UsbVendorId" => CfgVal::UsbVendorId(Value::make(b, v)),
        "UsbProductId" => CfgVal::UsbProductId(Value::make(b, v)),
        "UsbPower" => CfgVal::UsbPower(Value::make(b, v)),
        "UsbVendorStr0" => CfgVal::UsbVendorStr0(Value::make(b, v)),
        "UsbVendorStr1" => CfgVal::UsbVendorStr1(Value::make(b, v)),
        "UsbVendorStr2" => CfgVal::UsbVendorStr2(Value::make(b, v)),
        "UsbVendorStr3" => CfgVal::UsbVendorStr3(Value::make(b, v)),
        "UsbProductStr0" => CfgVal::UsbProductStr0(Value::make(b, v)),
        "UsbProductStr1" => CfgVal::UsbProductStr1(Value::make(b, v)),
        "UsbProductStr2" => CfgVal::UsbProductStr2(Value::make(b, v)),
        "UsbProductStr3" => CfgVal::UsbProductStr3(Value::make(b, v)),
        "UsbSerialNoStr0" => CfgVal::UsbSerialNoStr0(Value::make(b, v)),
        "UsbSerialNoStr1" => CfgVal::UsbSerialNoStr1(Value::make(b, v)),
        "UsbSerialNoStr2" => CfgVal::UsbSerialNoStr2(Value::make(b, v)),
        "UsbSerialNoStr3" => CfgVal::UsbSerialNoStr3(Value::make(b, v)),
        "UsbinprotUbx" => CfgVal::UsbinprotUbx(Value::make(b, v)),
        "UsbinprotNmea" => CfgVal::UsbinprotNmea(Value::make(b, v)),
        "UsbinprotRtcm3X" => CfgVal::UsbinprotRtcm3X(Value::make(b, v)),
        "UsbOutProtUbx" => CfgVal::UsbOutProtUbx(Value::make(b, v)),
        "UsbOutProtNmea" => CfgVal::UsbOutProtNmea(Value::make(b, v)),
        "UsbOutProtRtcm3x" => CfgVal::UsbOutProtRtcm3x(Value::make(b, v)),
        "InfmsgUbxI2c" => CfgVal::InfmsgUbxI2c(Value::make(b, v)),
        "InfmsgUbxUart1" => CfgVal::InfmsgUbxUart1(Value::make(b, v)),
        "InfmsgUbxUart2" => CfgVal::InfmsgUbxUart2(Value::make(b, v)),
        "InfmsgUbxUsb" => CfgVal::InfmsgUbxUsb(Value::make(b, v)),
        "InfmsgUbxSpi" => CfgVal::InfmsgUbxSpi(Value::make(b, v)),
        "InfmsgNmeaI2c" => CfgVal::InfmsgNmeaI2c(Value::make(b, v)),
        "InfmsgNmeaUart1" => CfgVal::InfmsgNmeaUart1(Value::make(b, v)),
        "InfmsgNmeaUart2" => CfgVal::InfmsgNmeaUart2(Value::make(b, v)),
        "InfmsgNmeaUsb" => CfgVal::InfmsgNmeaUsb(Value::make(b, v)),
        "InfmsgNmeaSpi" => CfgVal::InfmsgNmeaSpi(Value::make(b, v)),
        "RateMeas" => CfgVal::RateMeas(Value::make(b, v)),
        "RateNav" => CfgVal::RateNav(Value::make(b, v)),
        "RateTimeref" => CfgVal::RateTimeref(Value::make(b, v)),
        "SignalGpsEna" => CfgVal::SignalGpsEna(Value::make(b, v)),
        "SignalGpsL1caEna" => CfgVal::SignalGpsL1caEna(Value::make(b, v)),
        "SignalGpsL2cEna" => CfgVal::SignalGpsL2cEna(Value::make(b, v)),
        "SignalGalEna" => CfgVal::SignalGalEna(Value::make(b, v)),
        "SignalGalE1Ena" => CfgVal::SignalGalE1Ena(Value::make(b, v)),
        "SignalGalE5bEna" => CfgVal::SignalGalE5bEna(Value::make(b, v)),
        "SignalBdsEna" => CfgVal::SignalBdsEna(Value::make(b, v)),
        "SignalBdsB1Ena" => CfgVal::SignalBdsB1Ena(Value::make(b, v)),
        "SignalBdsB2Ena" => CfgVal::SignalBdsB2Ena(Value::make(b, v)),
        "SignalQzssEna" => CfgVal::SignalQzssEna(Value::make(b, v)),
        "SignalQzssL1caEna" => CfgVal::SignalQzssL1caEna(Value::make(b, v)),
        "SignalQzssL2cEna" => CfgVal::SignalQzssL2cEna(Value::make(b, v)),
        "SignalGloEna" => CfgVal::SignalGloEna(Value::make(b, v)),
        "SignalGloL1Ena" => CfgVal::SignalGloL1Ena(Value::make(b, v)),
        "SignalGLoL2Ena" => CfgVal::SignalGLoL2Ena(Value::make(b, v)),
        "TpPulseDef" => CfgVal::TpPulseDef(Value::make(b, v)),
        "TpPulseLengthDef" => CfgVal::TpPulseLengthDef(Value::make(b, v)),
        "TpAntCableDelay" => CfgVal::TpAntCableDelay(Value::make(b, v)),
        "TpPeriodTp1" => CfgVal::TpPeriodTp1(Value::make(b, v)),
        "TpPeriodLockTp1" => CfgVal::TpPeriodLockTp1(Value::make(b, v)),
        "TpFreqTp1" => CfgVal::TpFreqTp1(Value::make(b, v)),
        "TpFreqLockTp1" => CfgVal::TpFreqLockTp1(Value::make(b, v)),
        "TpLenTp1" => CfgVal::TpLenTp1(Value::make(b, v)),
        "TpLenLockTp1" => CfgVal::TpLenLockTp1(Value::make(b, v)),
        "TpTp1Ena" => CfgVal::TpTp1Ena(Value::make(b, v)),
        "TpSyncGnssTp1" => CfgVal::TpSyncGnssTp1(Value::make(b, v)),
        "TpUseLockedTp1" => CfgVal::TpUseLockedTp1(Value::make(b, v)),
        "TpAlignToTowTp1" => CfgVal::TpAlignToTowTp1(Value::make(b, v)),
        "TpPolTp1" => CfgVal::TpPolTp1(Value::make(b, v)),
        "TpTimegridTp1" => CfgVal::TpTimegridTp1(Value::make(b, v)),
        "MsgoutNmeaIdDtmI2c" => CfgVal::MsgoutNmeaIdDtmI2c(Value::make(b, v)),
        "MsgoutNmeaIdDtmUart1" => CfgVal::MsgoutNmeaIdDtmUart1(Value::make(b, v)),
        "MsgoutNmeaIdDtmUart2" => CfgVal::MsgoutNmeaIdDtmUart2(Value::make(b, v)),
        "MsgoutNmeaIdDtmUsb" => CfgVal::MsgoutNmeaIdDtmUsb(Value::make(b, v)),
        "MsgoutNmeaIdDtmSpi" => CfgVal::MsgoutNmeaIdDtmSpi(Value::make(b, v)),
        "MsgoutNmeaIdGbsI2c" => CfgVal::MsgoutNmeaIdGbsI2c(Value::make(b, v)),
        "MsgoutNmeaIdGbsUart1" => CfgVal::MsgoutNmeaIdGbsUart1(Value::make(b, v)),
        "MsgoutNmeaIdGbsUart2" => CfgVal::MsgoutNmeaIdGbsUart2(Value::make(b, v)),
        "MsgoutNmeaIdGbsUsb" => CfgVal::MsgoutNmeaIdGbsUsb(Value::make(b, v)),
        "MsgoutNmeaIdGbsSpi" => CfgVal::MsgoutNmeaIdGbsSpi(Value::make(b, v)),
        "MsgoutNmeaIdGgaI2c" => CfgVal::MsgoutNmeaIdGgaI2c(Value::make(b, v)),
        "MsgoutNmeaIdGgaUart1" => CfgVal::MsgoutNmeaIdGgaUart1(Value::make(b, v)),
        "MsgoutNmeaIdGgaUart2" => CfgVal::MsgoutNmeaIdGgaUart2(Value::make(b, v)),
        "MsgoutNmeaIdGgaUsb" => CfgVal::MsgoutNmeaIdGgaUsb(Value::make(b, v)),
        "MsgoutNmeaIdGgaSpi" => CfgVal::MsgoutNmeaIdGgaSpi(Value::make(b, v)),
        "MsgoutNmeaIdGllI2c" => CfgVal::MsgoutNmeaIdGllI2c(Value::make(b, v)),
        "MsgoutNmeaIdGllUart1" => CfgVal::MsgoutNmeaIdGllUart1(Value::make(b, v)),
        "MsgoutNmeaIdGllUart2" => CfgVal::MsgoutNmeaIdGllUart2(Value::make(b, v)),
        "MsgoutNmeaIdGllUsb" => CfgVal::MsgoutNmeaIdGllUsb(Value::make(b, v)),
        "MsgoutNmeaIdGllSpi" => CfgVal::MsgoutNmeaIdGllSpi(Value::make(b, v)),
        "MsgoutNmeaIdGnsI2c" => CfgVal::MsgoutNmeaIdGnsI2c(Value::make(b, v)),
        "MsgoutNmeaIdGnsUart1" => CfgVal::MsgoutNmeaIdGnsUart1(Value::make(b, v)),
        "MsgoutNmeaIdGnsUart2" => CfgVal::MsgoutNmeaIdGnsUart2(Value::make(b, v)),
        "MsgoutNmeaIdGnsUsb" => CfgVal::MsgoutNmeaIdGnsUsb(Value::make(b, v)),
        "MsgoutNmeaIdGnsSpi" => CfgVal::MsgoutNmeaIdGnsSpi(Value::make(b, v)),
        "MsgoutNmeaIdGrsI2c" => CfgVal::MsgoutNmeaIdGrsI2c(Value::make(b, v)),
        "MsgoutNmeaIdGrsUart1" => CfgVal::MsgoutNmeaIdGrsUart1(Value::make(b, v)),
        "MsgoutNmeaIdGrsUart2" => CfgVal::MsgoutNmeaIdGrsUart2(Value::make(b, v)),
        "MsgoutNmeaIdGrsUsb" => CfgVal::MsgoutNmeaIdGrsUsb(Value::make(b, v)),
        "MsgoutNmeaIdGrsSpi" => CfgVal::MsgoutNmeaIdGrsSpi(Value::make(b, v)),
        "MsgoutNmeaIdGsaI2c" => CfgVal::MsgoutNmeaIdGsaI2c(Value::make(b, v)),
        "MsgoutNmeaIdGsaUart1" => CfgVal::MsgoutNmeaIdGsaUart1(Value::make(b, v)),
        "MsgoutNmeaIdGsaUart2" => CfgVal::MsgoutNmeaIdGsaUart2(Value::make(b, v)),
        "MsgoutNmeaIdGsaUsb" => CfgVal::MsgoutNmeaIdGsaUsb(Value::make(b, v)),
        "MsgoutNmeaIdGsaSpi" => CfgVal::MsgoutNmeaIdGsaSpi(Value::make(b, v)),
        "MsgoutNmeaIdGstI2c" => CfgVal::MsgoutNmeaIdGstI2c(Value::make(b, v)),
        "MsgoutNmeaIdGstUart1" => CfgVal::MsgoutNmeaIdGstUart1(Value::make(b, v)),
        "MsgoutNmeaIdGstUart2" => CfgVal::MsgoutNmeaIdGstUart2(Value::make(b, v)),
        "MsgoutNmeaIdGstUsb" => CfgVal::MsgoutNmeaIdGstUsb(Value::make(b, v)),
        "MsgoutNmeaIdGstSpi" => CfgVal::MsgoutNmeaIdGstSpi(Value::make(b, v)),
        "MsgoutNmeaIdGsvI2c" => CfgVal::MsgoutNmeaIdGsvI2c(Value::make(b, v)),
        "MsgoutNmeaIdGsvUart1" => CfgVal::MsgoutNmeaIdGsvUart1(Value::make(b, v)),
        "MsgoutNmeaIdGsvUart2" => CfgVal::MsgoutNmeaIdGsvUart2(Value::make(b, v)),
        "MsgoutNmeaIdGsvUsb" => CfgVal::MsgoutNmeaIdGsvUsb(Value::make(b, v)),
        "MsgoutNmeaIdGsvSpi" => CfgVal::MsgoutNmeaIdGsvSpi(Value::make(b, v)),
        "MsgoutNmeaIdRmcI2c" => CfgVal::MsgoutNmeaIdRmcI2c(Value::make(b, v)),
        "MsgoutNmeaIdRmcUart1" => CfgVal::MsgoutNmeaIdRmcUart1(Value::make(b, v)),
        "MsgoutNmeaIdRmcUart2" => CfgVal::MsgoutNmeaIdRmcUart2(Value::make(b, v)),
        "MsgoutNmeaIdRmcUsb" => CfgVal::MsgoutNmeaIdRmcUsb(Value::make(b, v)),
        "MsgoutNmeaIdRmcSpi" => CfgVal::MsgoutNmeaIdRmcSpi(Value::make(b, v)),
        "MsgoutNmeaIdVlwI2c" => CfgVal::MsgoutNmeaIdVlwI2c(Value::make(b, v)),
        "MsgoutNmeaIdVlwUart1" => CfgVal::MsgoutNmeaIdVlwUart1(Value::make(b, v)),
        "MsgoutNmeaIdVlwUart2" => CfgVal::MsgoutNmeaIdVlwUart2(Value::make(b, v)),
        "MsgoutNmeaIdVlwUsb" => CfgVal::MsgoutNmeaIdVlwUsb(Value::make(b, v)),
        "MsgoutNmeaIdVlwSpi" => CfgVal::MsgoutNmeaIdVlwSpi(Value::make(b, v)),
        "MsgoutNmeaIdVtgI2c" => CfgVal::MsgoutNmeaIdVtgI2c(Value::make(b, v)),
        "MsgoutNmeaIdVtgUart1" => CfgVal::MsgoutNmeaIdVtgUart1(Value::make(b, v)),
        "MsgoutNmeaIdVtgUart2" => CfgVal::MsgoutNmeaIdVtgUart2(Value::make(b, v)),
        "MsgoutNmeaIdVtgUsb" => CfgVal::MsgoutNmeaIdVtgUsb(Value::make(b, v)),
        "MsgoutNmeaIdVtgSpi" => CfgVal::MsgoutNmeaIdVtgSpi(Value::make(b, v)),
        "MsgoutNmeaIdZdaI2c" => CfgVal::MsgoutNmeaIdZdaI2c(Value::make(b, v)),
        "MsgoutNmeaIdZdaUart1" => CfgVal::MsgoutNmeaIdZdaUart1(Value::make(b, v)),
        "MsgoutNmeaIdZdaUart2" => CfgVal::MsgoutNmeaIdZdaUart2(Value::make(b, v)),
        "MsgoutNmeaIdZdaUsb" => CfgVal::MsgoutNmeaIdZdaUsb(Value::make(b, v)),
        "MsgoutNmeaIdZdaSpi" => CfgVal::MsgoutNmeaIdZdaSpi(Value::make(b, v)),
        "MsgoutPubxIdPolypI2c" => CfgVal::MsgoutPubxIdPolypI2c(Value::make(b, v)),
        "MsgoutPubxIdPolypUart1" => CfgVal::MsgoutPubxIdPolypUart1(Value::make(b, v)),
        "MsgoutPubxIdPolypUart2" => CfgVal::MsgoutPubxIdPolypUart2(Value::make(b, v)),
        "MsgoutPubxIdPolypUsb" => CfgVal::MsgoutPubxIdPolypUsb(Value::make(b, v)),
        "MsgoutPubxIdPolypSpi" => CfgVal::MsgoutPubxIdPolypSpi(Value::make(b, v)),
        "MsgoutPubxIdPolysI2c" => CfgVal::MsgoutPubxIdPolysI2c(Value::make(b, v)),
        "MsgoutPubxIdPolysUart1" => CfgVal::MsgoutPubxIdPolysUart1(Value::make(b, v)),
        "MsgoutPubxIdPolysUart2" => CfgVal::MsgoutPubxIdPolysUart2(Value::make(b, v)),
        "MsgoutPubxIdPolysUsb" => CfgVal::MsgoutPubxIdPolysUsb(Value::make(b, v)),
        "MsgoutPubxIdPolysSpi" => CfgVal::MsgoutPubxIdPolysSpi(Value::make(b, v)),
        "MsgoutPubxIdPolytI2c" => CfgVal::MsgoutPubxIdPolytI2c(Value::make(b, v)),
        "MsgoutPubxIdPolytUart1" => CfgVal::MsgoutPubxIdPolytUart1(Value::make(b, v)),
        "MsgoutPubxIdPolytUart2" => CfgVal::MsgoutPubxIdPolytUart2(Value::make(b, v)),
        "MsgoutPubxIdPolytUsb" => CfgVal::MsgoutPubxIdPolytUsb(Value::make(b, v)),
        "MsgoutPubxIdPolytSpi" => CfgVal::MsgoutPubxIdPolytSpi(Value::make(b, v)),
        "MsgoutRtcm3xType1005I2c" => CfgVal::MsgoutRtcm3xType1005I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1005Uart1" => CfgVal::MsgoutRtcm3xType1005Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1005Uart2" => CfgVal::MsgoutRtcm3xType1005Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1005Usb" => CfgVal::MsgoutRtcm3xType1005Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1005Spi" => CfgVal::MsgoutRtcm3xType1005Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1074I2c" => CfgVal::MsgoutRtcm3xType1074I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1074Uart1" => CfgVal::MsgoutRtcm3xType1074Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1074Uart2" => CfgVal::MsgoutRtcm3xType1074Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1074Usb" => CfgVal::MsgoutRtcm3xType1074Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1074Spi" => CfgVal::MsgoutRtcm3xType1074Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1077I2c" => CfgVal::MsgoutRtcm3xType1077I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1077Uart1" => CfgVal::MsgoutRtcm3xType1077Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1077Uart2" => CfgVal::MsgoutRtcm3xType1077Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1077Usb" => CfgVal::MsgoutRtcm3xType1077Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1077Spi" => CfgVal::MsgoutRtcm3xType1077Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1084I2c" => CfgVal::MsgoutRtcm3xType1084I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1084Uart1" => CfgVal::MsgoutRtcm3xType1084Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1084Uart2" => CfgVal::MsgoutRtcm3xType1084Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1084Usb" => CfgVal::MsgoutRtcm3xType1084Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1084Spi" => CfgVal::MsgoutRtcm3xType1084Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1087I2c" => CfgVal::MsgoutRtcm3xType1087I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1087Uart1" => CfgVal::MsgoutRtcm3xType1087Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1087Uart2" => CfgVal::MsgoutRtcm3xType1087Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1087Usb" => CfgVal::MsgoutRtcm3xType1087Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1087Spi" => CfgVal::MsgoutRtcm3xType1087Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1094I2c" => CfgVal::MsgoutRtcm3xType1094I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1094Uart1" => CfgVal::MsgoutRtcm3xType1094Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1094Uart2" => CfgVal::MsgoutRtcm3xType1094Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1094Usb" => CfgVal::MsgoutRtcm3xType1094Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1094Spi" => CfgVal::MsgoutRtcm3xType1094Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1097I2c" => CfgVal::MsgoutRtcm3xType1097I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1097Uart1" => CfgVal::MsgoutRtcm3xType1097Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1097Uart2" => CfgVal::MsgoutRtcm3xType1097Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1097Usb" => CfgVal::MsgoutRtcm3xType1097Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1097Spi" => CfgVal::MsgoutRtcm3xType1097Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1124I2c" => CfgVal::MsgoutRtcm3xType1124I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1124Uart1" => CfgVal::MsgoutRtcm3xType1124Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1124Uart2" => CfgVal::MsgoutRtcm3xType1124Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1124Usb" => CfgVal::MsgoutRtcm3xType1124Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1124Spi" => CfgVal::MsgoutRtcm3xType1124Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1127I2c" => CfgVal::MsgoutRtcm3xType1127I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1127Uart1" => CfgVal::MsgoutRtcm3xType1127Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1127Uart2" => CfgVal::MsgoutRtcm3xType1127Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1127Usb" => CfgVal::MsgoutRtcm3xType1127Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1127Spi" => CfgVal::MsgoutRtcm3xType1127Spi(Value::make(b, v)),
        "MsgoutRtcm3xType1230I2c" => CfgVal::MsgoutRtcm3xType1230I2c(Value::make(b, v)),
        "MsgoutRtcm3xType1230Uart1" => CfgVal::MsgoutRtcm3xType1230Uart1(Value::make(b, v)),
        "MsgoutRtcm3xType1230Uart2" => CfgVal::MsgoutRtcm3xType1230Uart2(Value::make(b, v)),
        "MsgoutRtcm3xType1230Usb" => CfgVal::MsgoutRtcm3xType1230Usb(Value::make(b, v)),
        "MsgoutRtcm3xType1230Spi" => CfgVal::MsgoutRtcm3xType1230Spi(Value::make(b, v)),
        "MsgoutUbxLogInfoI2c" => CfgVal::MsgoutUbxLogInfoI2c(Value::make(b, v)),
        "MsgoutUbxLogInfoUart1" => CfgVal::MsgoutUbxLogInfoUart1(Value::make(b, v)),
        "MsgoutUbxLogInfoUart2" => CfgVal::MsgoutUbxLogInfoUart2(Value::make(b, v)),
        "MsgoutUbxLogInfoUsb" => CfgVal::MsgoutUbxLogInfoUsb(Value::make(b, v)),
        "MsgoutUbxLogInfoSpi" => CfgVal::MsgoutUbxLogInfoSpi(Value::make(b, v)),
        "MsgoutUbxMonCommsI2c" => CfgVal::MsgoutUbxMonCommsI2c(Value::make(b, v)),
        "MsgoutUbxMonCommsUart1" => CfgVal::MsgoutUbxMonCommsUart1(Value::make(b, v)),
        "MsgoutUbxMonCommsUart2" => CfgVal::MsgoutUbxMonCommsUart2(Value::make(b, v)),
        "MsgoutUbxMonCommsUsb" => CfgVal::MsgoutUbxMonCommsUsb(Value::make(b, v)),
        "MsgoutUbxMonCommsSpi" => CfgVal::MsgoutUbxMonCommsSpi(Value::make(b, v)),
        "MsgoutUbxMonHw2I2c" => CfgVal::MsgoutUbxMonHw2I2c(Value::make(b, v)),
        "MsgoutUbxMonHw2Uart1" => CfgVal::MsgoutUbxMonHw2Uart1(Value::make(b, v)),
        "MsgoutUbxMonHw2Uart2" => CfgVal::MsgoutUbxMonHw2Uart2(Value::make(b, v)),
        "MsgoutUbxMonHw2Usb" => CfgVal::MsgoutUbxMonHw2Usb(Value::make(b, v)),
        "MsgoutUbxMonHw2Spi" => CfgVal::MsgoutUbxMonHw2Spi(Value::make(b, v)),
        "MsgoutUbxMonHw3I2c" => CfgVal::MsgoutUbxMonHw3I2c(Value::make(b, v)),
        "MsgoutUbxMonHw3Uart1" => CfgVal::MsgoutUbxMonHw3Uart1(Value::make(b, v)),
        "MsgoutUbxMonHw3Uart2" => CfgVal::MsgoutUbxMonHw3Uart2(Value::make(b, v)),
        "MsgoutUbxMonHw3Usb" => CfgVal::MsgoutUbxMonHw3Usb(Value::make(b, v)),
        "MsgoutUbxMonHw3Spi" => CfgVal::MsgoutUbxMonHw3Spi(Value::make(b, v)),
        "MsgoutUbxMonHwI2c" => CfgVal::MsgoutUbxMonHwI2c(Value::make(b, v)),
        "MsgoutUbxMonHwUart1" => CfgVal::MsgoutUbxMonHwUart1(Value::make(b, v)),
        "MsgoutUbxMonHwUart2" => CfgVal::MsgoutUbxMonHwUart2(Value::make(b, v)),
        "MsgoutUbxMonHwUsb" => CfgVal::MsgoutUbxMonHwUsb(Value::make(b, v)),
        "MsgoutUbxMonHwSpi" => CfgVal::MsgoutUbxMonHwSpi(Value::make(b, v)),
        "MsgoutUbxMonIoI2c" => CfgVal::MsgoutUbxMonIoI2c(Value::make(b, v)),
        "MsgoutUbxMonIoUart1" => CfgVal::MsgoutUbxMonIoUart1(Value::make(b, v)),
        "MsgoutUbxMonIoUart2" => CfgVal::MsgoutUbxMonIoUart2(Value::make(b, v)),
        "MsgoutUbxMonIoUsb" => CfgVal::MsgoutUbxMonIoUsb(Value::make(b, v)),
        "MsgoutUbxMonIoSpi" => CfgVal::MsgoutUbxMonIoSpi(Value::make(b, v)),
        "MsgoutUbxMonMsgPpI2c" => CfgVal::MsgoutUbxMonMsgPpI2c(Value::make(b, v)),
        "MsgoutUbxMonMsgPpUart1" => CfgVal::MsgoutUbxMonMsgPpUart1(Value::make(b, v)),
        "MsgoutUbxMonMsgPpUart2" => CfgVal::MsgoutUbxMonMsgPpUart2(Value::make(b, v)),
        "MsgoutUbxMonMsgPpUsb" => CfgVal::MsgoutUbxMonMsgPpUsb(Value::make(b, v)),
        "MsgoutUbxMonMsgPpSpi" => CfgVal::MsgoutUbxMonMsgPpSpi(Value::make(b, v)),
        "MsgoutUbxMonRfI2c" => CfgVal::MsgoutUbxMonRfI2c(Value::make(b, v)),
        "MsgoutUbxMonRfUart1" => CfgVal::MsgoutUbxMonRfUart1(Value::make(b, v)),
        "MsgoutUbxMonRfUart2" => CfgVal::MsgoutUbxMonRfUart2(Value::make(b, v)),
        "MsgoutUbxMonRfUsb" => CfgVal::MsgoutUbxMonRfUsb(Value::make(b, v)),
        "MsgoutUbxMonRfSpi" => CfgVal::MsgoutUbxMonRfSpi(Value::make(b, v)),
        "MsgoutUbxMonRxbufI2c" => CfgVal::MsgoutUbxMonRxbufI2c(Value::make(b, v)),
        "MsgoutUbxMonRxbufUart1" => CfgVal::MsgoutUbxMonRxbufUart1(Value::make(b, v)),
        "MsgoutUbxMonRxbufUart2" => CfgVal::MsgoutUbxMonRxbufUart2(Value::make(b, v)),
        "MsgoutUbxMonRxbufUsb" => CfgVal::MsgoutUbxMonRxbufUsb(Value::make(b, v)),
        "MsgoutUbxMonRxbufSpi" => CfgVal::MsgoutUbxMonRxbufSpi(Value::make(b, v)),
        "MsgoutUbxMonRxrI2c" => CfgVal::MsgoutUbxMonRxrI2c(Value::make(b, v)),
        "MsgoutUbxMonRxrUart1" => CfgVal::MsgoutUbxMonRxrUart1(Value::make(b, v)),
        "MsgoutUbxMonRxrUart2" => CfgVal::MsgoutUbxMonRxrUart2(Value::make(b, v)),
        "MsgoutUbxMonRxrUsb" => CfgVal::MsgoutUbxMonRxrUsb(Value::make(b, v)),
        "MsgoutUbxMonRxrSpi" => CfgVal::MsgoutUbxMonRxrSpi(Value::make(b, v)),
        "MsgoutUbxMonTxbufI2c" => CfgVal::MsgoutUbxMonTxbufI2c(Value::make(b, v)),
        "MsgoutUbxMonTxbufUart1" => CfgVal::MsgoutUbxMonTxbufUart1(Value::make(b, v)),
        "MsgoutUbxMonTxbufUart2" => CfgVal::MsgoutUbxMonTxbufUart2(Value::make(b, v)),
        "MsgoutUbxMonTxbufUsb" => CfgVal::MsgoutUbxMonTxbufUsb(Value::make(b, v)),
        "MsgoutUbxMonTxbufSpi" => CfgVal::MsgoutUbxMonTxbufSpi(Value::make(b, v)),
        "MsgoutUbxNavClockI2c" => CfgVal::MsgoutUbxNavClockI2c(Value::make(b, v)),
        "MsgoutUbxNavClockUart1" => CfgVal::MsgoutUbxNavClockUart1(Value::make(b, v)),
        "MsgoutUbxNavClockUart2" => CfgVal::MsgoutUbxNavClockUart2(Value::make(b, v)),
        "MsgoutUbxNavClockUsb" => CfgVal::MsgoutUbxNavClockUsb(Value::make(b, v)),
        "MsgoutUbxNavClockSpi" => CfgVal::MsgoutUbxNavClockSpi(Value::make(b, v)),
        "MsgoutUbxNavDopI2c" => CfgVal::MsgoutUbxNavDopI2c(Value::make(b, v)),
        "MsgoutUbxNavDopUart1" => CfgVal::MsgoutUbxNavDopUart1(Value::make(b, v)),
        "MsgoutUbxNavDopUart2" => CfgVal::MsgoutUbxNavDopUart2(Value::make(b, v)),
        "MsgoutUbxNavDopUsb" => CfgVal::MsgoutUbxNavDopUsb(Value::make(b, v)),
        "MsgoutUbxNavDopSpi" => CfgVal::MsgoutUbxNavDopSpi(Value::make(b, v)),
        "MsgoutUbxNavEoeI2c" => CfgVal::MsgoutUbxNavEoeI2c(Value::make(b, v)),
        "MsgoutUbxNavEoeUart1" => CfgVal::MsgoutUbxNavEoeUart1(Value::make(b, v)),
        "MsgoutUbxNavEoeUart2" => CfgVal::MsgoutUbxNavEoeUart2(Value::make(b, v)),
        "MsgoutUbxNavEoeUsb" => CfgVal::MsgoutUbxNavEoeUsb(Value::make(b, v)),
        "MsgoutUbxNavEoeSpi" => CfgVal::MsgoutUbxNavEoeSpi(Value::make(b, v)),
        "MsgoutUbxNavGeofenceI2c" => CfgVal::MsgoutUbxNavGeofenceI2c(Value::make(b, v)),
        "MsgoutUbxNavGeofenceUart1" => CfgVal::MsgoutUbxNavGeofenceUart1(Value::make(b, v)),
        "MsgoutUbxNavGeofenceUart2" => CfgVal::MsgoutUbxNavGeofenceUart2(Value::make(b, v)),
        "MsgoutUbxNavGeofenceUsb" => CfgVal::MsgoutUbxNavGeofenceUsb(Value::make(b, v)),
        "MsgoutUbxNavGeofenceSpi" => CfgVal::MsgoutUbxNavGeofenceSpi(Value::make(b, v)),
        "MsgoutUbxNavHpPosEcefI2c" => CfgVal::MsgoutUbxNavHpPosEcefI2c(Value::make(b, v)),
        "MsgoutUbxNavHpPosEcefUart1" => CfgVal::MsgoutUbxNavHpPosEcefUart1(Value::make(b, v)),
        "MsgoutUbxNavHpPosEcefUart2" => CfgVal::MsgoutUbxNavHpPosEcefUart2(Value::make(b, v)),
        "MsgoutUbxNavHpPosEcefUsb" => CfgVal::MsgoutUbxNavHpPosEcefUsb(Value::make(b, v)),
        "MsgoutUbxNavHpPosEcefSpi" => CfgVal::MsgoutUbxNavHpPosEcefSpi(Value::make(b, v)),
        "MsgoutUbxNavHpPosllhI2c" => CfgVal::MsgoutUbxNavHpPosllhI2c(Value::make(b, v)),
        "MsgoutUbxNavHpPosllhUart1" => CfgVal::MsgoutUbxNavHpPosllhUart1(Value::make(b, v)),
        "MsgoutUbxNavHpPosllhUart2" => CfgVal::MsgoutUbxNavHpPosllhUart2(Value::make(b, v)),
        "MsgoutUbxNavHpPosllhUsb" => CfgVal::MsgoutUbxNavHpPosllhUsb(Value::make(b, v)),
        "MsgoutUbxNavHpPosllhSpi" => CfgVal::MsgoutUbxNavHpPosllhSpi(Value::make(b, v)),
        "MsgoutUbxNavOdoI2c" => CfgVal::MsgoutUbxNavOdoI2c(Value::make(b, v)),
        "MsgoutUbxNavOdoUart1" => CfgVal::MsgoutUbxNavOdoUart1(Value::make(b, v)),
        "MsgoutUbxNavOdoUart2" => CfgVal::MsgoutUbxNavOdoUart2(Value::make(b, v)),
        "MsgoutUbxNavOdoUsb" => CfgVal::MsgoutUbxNavOdoUsb(Value::make(b, v)),
        "MsgoutUbxNavOdoSpi" => CfgVal::MsgoutUbxNavOdoSpi(Value::make(b, v)),
        "MsgoutUbxNavOrbI2c" => CfgVal::MsgoutUbxNavOrbI2c(Value::make(b, v)),
        "MsgoutUbxNavOrbUart1" => CfgVal::MsgoutUbxNavOrbUart1(Value::make(b, v)),
        "MsgoutUbxNavOrbUart2" => CfgVal::MsgoutUbxNavOrbUart2(Value::make(b, v)),
        "MsgoutUbxNavOrbUsb" => CfgVal::MsgoutUbxNavOrbUsb(Value::make(b, v)),
        "MsgoutUbxNavOrbSpi" => CfgVal::MsgoutUbxNavOrbSpi(Value::make(b, v)),
        "MsgoutUbxNavPosEcefI2c" => CfgVal::MsgoutUbxNavPosEcefI2c(Value::make(b, v)),
        "MsgoutUbxNavPosEcefUart1" => CfgVal::MsgoutUbxNavPosEcefUart1(Value::make(b, v)),
        "MsgoutUbxNavPosEcefUart2" => CfgVal::MsgoutUbxNavPosEcefUart2(Value::make(b, v)),
        "MsgoutUbxNavPosEcefUsb" => CfgVal::MsgoutUbxNavPosEcefUsb(Value::make(b, v)),
        "MsgoutUbxNavPosEcefSpi" => CfgVal::MsgoutUbxNavPosEcefSpi(Value::make(b, v)),
        "MsgoutUbxNavPosLlhI2c" => CfgVal::MsgoutUbxNavPosLlhI2c(Value::make(b, v)),
        "MsgoutUbxNavPosLlhUart1" => CfgVal::MsgoutUbxNavPosLlhUart1(Value::make(b, v)),
        "MsgoutUbxNavPosLlhUart2" => CfgVal::MsgoutUbxNavPosLlhUart2(Value::make(b, v)),
        "MsgoutUbxNavPosLlhUsb" => CfgVal::MsgoutUbxNavPosLlhUsb(Value::make(b, v)),
        "MsgoutUbxNavPosLlhSpi" => CfgVal::MsgoutUbxNavPosLlhSpi(Value::make(b, v)),
        "MsgoutUbxNavPvtI2c" => CfgVal::MsgoutUbxNavPvtI2c(Value::make(b, v)),
        "MsgoutUbxNavPvtUart1" => CfgVal::MsgoutUbxNavPvtUart1(Value::make(b, v)),
        "MsgoutUbxNavPvtUart2" => CfgVal::MsgoutUbxNavPvtUart2(Value::make(b, v)),
        "MsgoutUbxNavPvtUsb" => CfgVal::MsgoutUbxNavPvtUsb(Value::make(b, v)),
        "MsgoutUbxNavPvtSpi" => CfgVal::MsgoutUbxNavPvtSpi(Value::make(b, v)),
        "MsgoutUbxNavRelposnedI2c" => CfgVal::MsgoutUbxNavRelposnedI2c(Value::make(b, v)),
        "MsgoutUbxNavRelposnedUart1" => CfgVal::MsgoutUbxNavRelposnedUart1(Value::make(b, v)),
        "MsgoutUbxNavRelposnedUart2" => CfgVal::MsgoutUbxNavRelposnedUart2(Value::make(b, v)),
        "MsgoutUbxNavRelposnedUsb" => CfgVal::MsgoutUbxNavRelposnedUsb(Value::make(b, v)),
        "MsgoutUbxNavRelposnedSpi" => CfgVal::MsgoutUbxNavRelposnedSpi(Value::make(b, v)),
        "MsgoutUbxNavSatI2c" => CfgVal::MsgoutUbxNavSatI2c(Value::make(b, v)),
        "MsgoutUbxNavSatUart1" => CfgVal::MsgoutUbxNavSatUart1(Value::make(b, v)),
        "MsgoutUbxNavSatUart2" => CfgVal::MsgoutUbxNavSatUart2(Value::make(b, v)),
        "MsgoutUbxNavSatUsb" => CfgVal::MsgoutUbxNavSatUsb(Value::make(b, v)),
        "MsgoutUbxNavSatSpi" => CfgVal::MsgoutUbxNavSatSpi(Value::make(b, v)),
        "MsgoutUbxNavSigI2c" => CfgVal::MsgoutUbxNavSigI2c(Value::make(b, v)),
        "MsgoutUbxNavSigUart1" => CfgVal::MsgoutUbxNavSigUart1(Value::make(b, v)),
        "MsgoutUbxNavSigUart2" => CfgVal::MsgoutUbxNavSigUart2(Value::make(b, v)),
        "MsgoutUbxNavSigUsb" => CfgVal::MsgoutUbxNavSigUsb(Value::make(b, v)),
        "MsgoutUbxNavSigSpi" => CfgVal::MsgoutUbxNavSigSpi(Value::make(b, v)),
        "MsgoutUbxNavStatusI2c" => CfgVal::MsgoutUbxNavStatusI2c(Value::make(b, v)),
        "MsgoutUbxNavStatusUart1" => CfgVal::MsgoutUbxNavStatusUart1(Value::make(b, v)),
        "MsgoutUbxNavStatusUart2" => CfgVal::MsgoutUbxNavStatusUart2(Value::make(b, v)),
        "MsgoutUbxNavStatusUsb" => CfgVal::MsgoutUbxNavStatusUsb(Value::make(b, v)),
        "MsgoutUbxNavStatusSpi" => CfgVal::MsgoutUbxNavStatusSpi(Value::make(b, v)),
        "MsgoutUbxNavSvinI2c" => CfgVal::MsgoutUbxNavSvinI2c(Value::make(b, v)),
        "MsgoutUbxNavSvinUart1" => CfgVal::MsgoutUbxNavSvinUart1(Value::make(b, v)),
        "MsgoutUbxNavSvinUart2" => CfgVal::MsgoutUbxNavSvinUart2(Value::make(b, v)),
        "MsgoutUbxNavSvinUsb" => CfgVal::MsgoutUbxNavSvinUsb(Value::make(b, v)),
        "MsgoutUbxNavSvinSpi" => CfgVal::MsgoutUbxNavSvinSpi(Value::make(b, v)),
        "MsgoutUbxNavTimeBdsI2c" => CfgVal::MsgoutUbxNavTimeBdsI2c(Value::make(b, v)),
        "MsgoutUbxNavTimeBdsUart1" => CfgVal::MsgoutUbxNavTimeBdsUart1(Value::make(b, v)),
        "MsgoutUbxNavTimeBdsUart2" => CfgVal::MsgoutUbxNavTimeBdsUart2(Value::make(b, v)),
        "MsgoutUbxNavTimeBdsUsb" => CfgVal::MsgoutUbxNavTimeBdsUsb(Value::make(b, v)),
        "MsgoutUbxNavTimeBdsSpi" => CfgVal::MsgoutUbxNavTimeBdsSpi(Value::make(b, v)),
        "MsgoutUbxNavTimeGalI2c" => CfgVal::MsgoutUbxNavTimeGalI2c(Value::make(b, v)),
        "MsgoutUbxNavTimeGalUart1" => CfgVal::MsgoutUbxNavTimeGalUart1(Value::make(b, v)),
        "MsgoutUbxNavTimeGalUart2" => CfgVal::MsgoutUbxNavTimeGalUart2(Value::make(b, v)),
        "MsgoutUbxNavTimeGalUsb" => CfgVal::MsgoutUbxNavTimeGalUsb(Value::make(b, v)),
        "MsgoutUbxNavTimeGalSpi" => CfgVal::MsgoutUbxNavTimeGalSpi(Value::make(b, v)),
        "MsgoutUbxNavTimeGloI2c" => CfgVal::MsgoutUbxNavTimeGloI2c(Value::make(b, v)),
        "MsgoutUbxNavTimeGloUart1" => CfgVal::MsgoutUbxNavTimeGloUart1(Value::make(b, v)),
        "MsgoutUbxNavTimeGloUart2" => CfgVal::MsgoutUbxNavTimeGloUart2(Value::make(b, v)),
        "MsgoutUbxNavTimeGloUsb" => CfgVal::MsgoutUbxNavTimeGloUsb(Value::make(b, v)),
        "MsgoutUbxNavTimeGloSpi" => CfgVal::MsgoutUbxNavTimeGloSpi(Value::make(b, v)),
        "MsgoutUbxNavTimeGpsI2c" => CfgVal::MsgoutUbxNavTimeGpsI2c(Value::make(b, v)),
        "MsgoutUbxNavTimeGpsUart1" => CfgVal::MsgoutUbxNavTimeGpsUart1(Value::make(b, v)),
        "MsgoutUbxNavTimeGpsUart2" => CfgVal::MsgoutUbxNavTimeGpsUart2(Value::make(b, v)),
        "MsgoutUbxNavTimeGpsUsb" => CfgVal::MsgoutUbxNavTimeGpsUsb(Value::make(b, v)),
        "MsgoutUbxNavTimeGpsSpi" => CfgVal::MsgoutUbxNavTimeGpsSpi(Value::make(b, v)),
        "MsgoutUbxNavTimeLsI2c" => CfgVal::MsgoutUbxNavTimeLsI2c(Value::make(b, v)),
        "MsgoutUbxNavTimeLsUart1" => CfgVal::MsgoutUbxNavTimeLsUart1(Value::make(b, v)),
        "MsgoutUbxNavTimeLsUart2" => CfgVal::MsgoutUbxNavTimeLsUart2(Value::make(b, v)),
        "MsgoutUbxNavTimeLsUsb" => CfgVal::MsgoutUbxNavTimeLsUsb(Value::make(b, v)),
        "MsgoutUbxNavTimeLsSpi" => CfgVal::MsgoutUbxNavTimeLsSpi(Value::make(b, v)),
        "MsgoutUbxNavTimeUtcI2c" => CfgVal::MsgoutUbxNavTimeUtcI2c(Value::make(b, v)),
        "MsgoutUbxNavTimeUtcUart1" => CfgVal::MsgoutUbxNavTimeUtcUart1(Value::make(b, v)),
        "MsgoutUbxNavTimeUtcUart2" => CfgVal::MsgoutUbxNavTimeUtcUart2(Value::make(b, v)),
        "MsgoutUbxNavTimeUtcUsb" => CfgVal::MsgoutUbxNavTimeUtcUsb(Value::make(b, v)),
        "MsgoutUbxNavTimeUtcSpi" => CfgVal::MsgoutUbxNavTimeUtcSpi(Value::make(b, v)),
        "MsgoutUbxNavVelEcefI2c" => CfgVal::MsgoutUbxNavVelEcefI2c(Value::make(b, v)),
        "MsgoutUbxNavVelEcefUart1" => CfgVal::MsgoutUbxNavVelEcefUart1(Value::make(b, v)),
        "MsgoutUbxNavVelEcefUart2" => CfgVal::MsgoutUbxNavVelEcefUart2(Value::make(b, v)),
        "MsgoutUbxNavVelEcefUsb" => CfgVal::MsgoutUbxNavVelEcefUsb(Value::make(b, v)),
        "MsgoutUbxNavVelEcefSpi" => CfgVal::MsgoutUbxNavVelEcefSpi(Value::make(b, v)),
        "MsgoutUbxNavVelNedI2c" => CfgVal::MsgoutUbxNavVelNedI2c(Value::make(b, v)),
        "MsgoutUbxNavVelNedUart1" => CfgVal::MsgoutUbxNavVelNedUart1(Value::make(b, v)),
        "MsgoutUbxNavVelNedUart2" => CfgVal::MsgoutUbxNavVelNedUart2(Value::make(b, v)),
        "MsgoutUbxNavVelNedUsb" => CfgVal::MsgoutUbxNavVelNedUsb(Value::make(b, v)),
        "MsgoutUbxNavVelNedSpi" => CfgVal::MsgoutUbxNavVelNedSpi(Value::make(b, v)),
        "MsgoutUbxRxmMeasxI2c" => CfgVal::MsgoutUbxRxmMeasxI2c(Value::make(b, v)),
        "MsgoutUbxRxmMeasxUart1" => CfgVal::MsgoutUbxRxmMeasxUart1(Value::make(b, v)),
        "MsgoutUbxRxmMeasxUart2" => CfgVal::MsgoutUbxRxmMeasxUart2(Value::make(b, v)),
        "MsgoutUbxRxmMeasxUsb" => CfgVal::MsgoutUbxRxmMeasxUsb(Value::make(b, v)),
        "MsgoutUbxRxmMeasxSpi" => CfgVal::MsgoutUbxRxmMeasxSpi(Value::make(b, v)),
        "MsgoutUbxRxmRawxI2c" => CfgVal::MsgoutUbxRxmRawxI2c(Value::make(b, v)),
        "MsgoutUbxRxmRawxUart1" => CfgVal::MsgoutUbxRxmRawxUart1(Value::make(b, v)),
        "MsgoutUbxRxmRawxUart2" => CfgVal::MsgoutUbxRxmRawxUart2(Value::make(b, v)),
        "MsgoutUbxRxmRawxUsb" => CfgVal::MsgoutUbxRxmRawxUsb(Value::make(b, v)),
        "MsgoutUbxRxmRawxSpi" => CfgVal::MsgoutUbxRxmRawxSpi(Value::make(b, v)),
        "MsgoutUbxRxmRlmI2c" => CfgVal::MsgoutUbxRxmRlmI2c(Value::make(b, v)),
        "MsgoutUbxRxmRlmUart1" => CfgVal::MsgoutUbxRxmRlmUart1(Value::make(b, v)),
        "MsgoutUbxRxmRlmUart2" => CfgVal::MsgoutUbxRxmRlmUart2(Value::make(b, v)),
        "MsgoutUbxRxmRlmUsb" => CfgVal::MsgoutUbxRxmRlmUsb(Value::make(b, v)),
        "MsgoutUbxRxmRlmSpi" => CfgVal::MsgoutUbxRxmRlmSpi(Value::make(b, v)),
        "MsgoutUbxRxmRtcmI2c" => CfgVal::MsgoutUbxRxmRtcmI2c(Value::make(b, v)),
        "MsgoutUbxRxmRtcmUart1" => CfgVal::MsgoutUbxRxmRtcmUart1(Value::make(b, v)),
        "MsgoutUbxRxmRtcmUart2" => CfgVal::MsgoutUbxRxmRtcmUart2(Value::make(b, v)),
        "MsgoutUbxRxmRtcmUsb" => CfgVal::MsgoutUbxRxmRtcmUsb(Value::make(b, v)),
        "MsgoutUbxRxmRtcmSpi" => CfgVal::MsgoutUbxRxmRtcmSpi(Value::make(b, v)),
        "MsgoutUbxRxmSfrbxI2c" => CfgVal::MsgoutUbxRxmSfrbxI2c(Value::make(b, v)),
        "MsgoutUbxRxmSfrbxUart1" => CfgVal::MsgoutUbxRxmSfrbxUart1(Value::make(b, v)),
        "MsgoutUbxRxmSfrbxUart2" => CfgVal::MsgoutUbxRxmSfrbxUart2(Value::make(b, v)),
        "MsgoutUbxRxmSfrbxUsb" => CfgVal::MsgoutUbxRxmSfrbxUsb(Value::make(b, v)),
        "MsgoutUbxRxmSfrbxSpi" => CfgVal::MsgoutUbxRxmSfrbxSpi(Value::make(b, v)),
        "MsgoutUbxTimTm2I2c" => CfgVal::MsgoutUbxTimTm2I2c(Value::make(b, v)),
        "MsgoutUbxTimTm2Uart1" => CfgVal::MsgoutUbxTimTm2Uart1(Value::make(b, v)),
        "MsgoutUbxTimTm2Uart2" => CfgVal::MsgoutUbxTimTm2Uart2(Value::make(b, v)),
        "MsgoutUbxTimTm2Usb" => CfgVal::MsgoutUbxTimTm2Usb(Value::make(b, v)),
        "MsgoutUbxTimTm2Spi" => CfgVal::MsgoutUbxTimTm2Spi(Value::make(b, v)),
        "MsgoutUbxTimTpI2c" => CfgVal::MsgoutUbxTimTpI2c(Value::make(b, v)),
        "MsgoutUbxTimTpUart1" => CfgVal::MsgoutUbxTimTpUart1(Value::make(b, v)),
        "MsgoutUbxTimTpUart2" => CfgVal::MsgoutUbxTimTpUart2(Value::make(b, v)),
        "MsgoutUbxTimTpUsb" => CfgVal::MsgoutUbxTimTpUsb(Value::make(b, v)),
        "MsgoutUbxTimTpSpi" => CfgVal::MsgoutUbxTimTpSpi(Value::make(b, v)),
        "MsgoutUbxTimVrfyI2c" => CfgVal::MsgoutUbxTimVrfyI2c(Value::make(b, v)),
        "MsgoutUbxTimVrfyUart1" => CfgVal::MsgoutUbxTimVrfyUart1(Value::make(b, v)),
        "MsgoutUbxTimVrfyUart2" => CfgVal::MsgoutUbxTimVrfyUart2(Value::make(b, v)),
        "MsgoutUbxTimVrfyUsb" => CfgVal::MsgoutUbxTimVrfyUsb(Value::make(b, v)),
        "MsgoutUbxTimVrfySpi" => CfgVal::MsgoutUbxTimVrfySpi(Value::make(b, v)),
        _ => panic!("no item {}", name),
    }
}
pub fn show(x: &CfgVal) -> (&'static str, Vec<u8>, &'static str) {
    let (n, (b, v)) = match x {
        CfgVal::Uart1Baudrate(x) => ("Uart1Baudrate", x.show()),
        CfgVal::Uart1StopBits(x) => ("Uart1StopBits", x.show()),
        CfgVal::Uart1DataBits(x) => ("Uart1DataBits", x.show()),
        CfgVal::Uart1Parity(x) => ("Uart1Parity", x.show()),
        CfgVal::Uart1Enabled(x) => ("Uart1Enabled", x.show()),
        CfgVal::Uart1InProtUbx(x) => ("Uart1InProtUbx", x.show()),
        CfgVal::Uart1InProtNmea(x) => ("Uart1InProtNmea", x.show()),
        CfgVal::Uart1InProtRtcm3x(x) => ("Uart1InProtRtcm3x", x.show()),
        CfgVal::Uart1OutProtUbx(x) => ("Uart1OutProtUbx", x.show()),
        CfgVal::Uart1OutProtNmea(x) => ("Uart1OutProtNmea", x.show()),
        CfgVal::Uart1OutProtRtcm3x(x) => ("Uart1OutProtRtcm3x", x.show()),
        CfgVal::Uart2Baudrate(x) => ("Uart2Baudrate", x.show()),
        CfgVal::Uart2StopBits(x) => ("Uart2StopBits", x.show()),
        CfgVal::Uart2DataBits(x) => ("Uart2DataBits", x.show()),
        CfgVal::Uart2Parity(x) => ("Uart2Parity", x.show()),
        CfgVal::Uart2Enabled(x) => ("Uart2Enabled", x.show()),
        CfgVal::Uart2Remap(x) => ("Uart2Remap", x.show()),
        CfgVal::Uart2InProtUbx(x) => ("Uart2InProtUbx", x.show()),
        CfgVal::Uart2InProtNmea(x) => ("Uart2InProtNmea", x.show()),
        CfgVal::Uart2InProtRtcm3x(x) => ("Uart2InProtRtcm3x", x.show()),
        CfgVal::Uart2OutProtUbx(x) => ("Uart2OutProtUbx", x.show()),
        CfgVal::Uart2OutProtNmea(x) => ("Uart2OutProtNmea", x.show()),
        CfgVal::Uart2OutProtRtcm3x(x) => ("Uart2OutProtRtcm3x", x.show()),
        CfgVal::UsbEnabled(x) => ("UsbEnabled", x.show()),
        CfgVal::UsbSelfpow(x) => ("UsbSelfpow", x.show()),
        CfgVal::UsbVendorId(x) => ("UsbVendorId", x.show()),
        CfgVal::UsbProductId(x) => ("UsbProductId", x.show()),
        CfgVal::UsbPower(x) => ("UsbPower", x.show()),
        CfgVal::UsbVendorStr0(x) => ("UsbVendorStr0", x.show()),
        CfgVal::UsbVendorStr1(x) => ("UsbVendorStr1", x.show()),
        CfgVal::UsbVendorStr2(x) => ("UsbVendorStr2", x.show()),
        CfgVal::UsbVendorStr3(x) => ("UsbVendorStr3", x.show()),
        CfgVal::UsbProductStr0(x) => ("UsbProductStr0", x.show()),
        CfgVal::UsbProductStr1(x) => ("UsbProductStr1", x.show()),
        CfgVal::UsbProductStr2(x) => ("UsbProductStr2", x.show()),
        CfgVal::UsbProductStr3(x) => ("UsbProductStr3", x.show()),
        CfgVal::UsbSerialNoStr0(x) => ("UsbSerialNoStr0", x.show()),
        CfgVal::UsbSerialNoStr1(x) => ("UsbSerialNoStr1", x.show()),
        CfgVal::UsbSerialNoStr2(x) => ("UsbSerialNoStr2", x.show()),
        CfgVal::UsbSerialNoStr3(x) => ("UsbSerialNoStr3", x.show()),
        CfgVal::UsbinprotUbx(x) => ("UsbinprotUbx", x.show()),
        CfgVal::UsbinprotNmea(x) => ("UsbinprotNmea", x.show()),
        CfgVal::UsbinprotRtcm3X(x) => ("UsbinprotRtcm3X", x.show()),
        CfgVal::UsbOutProtUbx(x) => ("UsbOutProtUbx", x.show()),
        CfgVal::UsbOutProtNmea(x) => ("UsbOutProtNmea", x.show()),
        CfgVal::UsbOutProtRtcm3x(x) => ("UsbOutProtRtcm3x", x.show()),
        CfgVal::InfmsgUbxI2c(x) => ("InfmsgUbxI2c", x.show()),
        CfgVal::InfmsgUbxUart1(x) => ("InfmsgUbxUart1", x.show()),
        CfgVal::InfmsgUbxUart2(x) => ("InfmsgUbxUart2", x.show()),
        CfgVal::InfmsgUbxUsb(x) => ("InfmsgUbxUsb", x.show()),
        CfgVal::InfmsgUbxSpi(x) => ("InfmsgUbxSpi", x.show()),
        CfgVal::InfmsgNmeaI2c(x) => ("InfmsgNmeaI2c", x.show()),
        CfgVal::InfmsgNmeaUart1(x) => ("InfmsgNmeaUart1", x.show()),
        CfgVal::InfmsgNmeaUart2(x) => ("InfmsgNmeaUart2", x.show()),
        CfgVal::InfmsgNmeaUsb(x) => ("InfmsgNmeaUsb", x.show()),
        CfgVal::InfmsgNmeaSpi(x) => ("InfmsgNmeaSpi", x.show()),
        CfgVal::RateMeas(x) => ("RateMeas", x.show()),
        CfgVal::RateNav(x) => ("RateNav", x.show()),
        CfgVal::RateTimeref(x) => ("RateTimeref", x.show()),
        CfgVal::SignalGpsEna(x) => ("SignalGpsEna", x.show()),
        CfgVal::SignalGpsL1caEna(x) => ("SignalGpsL1caEna", x.show()),
        CfgVal::SignalGpsL2cEna(x) => ("SignalGpsL2cEna", x.show()),
        CfgVal::SignalGalEna(x) => ("SignalGalEna", x.show()),
        CfgVal::SignalGalE1Ena(x) => ("SignalGalE1Ena", x.show()),
        CfgVal::SignalGalE5bEna(x) => ("SignalGalE5bEna", x.show()),
        CfgVal::SignalBdsEna(x) => ("SignalBdsEna", x.show()),
        CfgVal::SignalBdsB1Ena(x) => ("SignalBdsB1Ena", x.show()),
        CfgVal::SignalBdsB2Ena(x) => ("SignalBdsB2Ena", x.show()),
        CfgVal::SignalQzssEna(x) => ("SignalQzssEna", x.show()),
        CfgVal::SignalQzssL1caEna(x) => ("SignalQzssL1caEna", x.show()),
        CfgVal::SignalQzssL2cEna(x) => ("SignalQzssL2cEna", x.show()),
        CfgVal::SignalGloEna(x) => ("SignalGloEna", x.show()),
        CfgVal::SignalGloL1Ena(x) => ("SignalGloL1Ena", x.show()),
        CfgVal::SignalGLoL2Ena(x) => ("SignalGLoL2Ena", x.show()),
        CfgVal::TpPulseDef(x) => ("TpPulseDef", x.show()),
        CfgVal::TpPulseLengthDef(x) => ("TpPulseLengthDef", x.show()),
        CfgVal::TpAntCableDelay(x) => ("TpAntCableDelay", x.show()),
        CfgVal::TpPeriodTp1(x) => ("TpPeriodTp1", x.show()),
        CfgVal::TpPeriodLockTp1(x) => ("TpPeriodLockTp1", x.show()),
        CfgVal::TpFreqTp1(x) => ("TpFreqTp1", x.show()),
        CfgVal::TpFreqLockTp1(x) => ("TpFreqLockTp1", x.show()),
        CfgVal::TpLenTp1(x) => ("TpLenTp1", x.show()),
        CfgVal::TpLenLockTp1(x) => ("TpLenLockTp1", x.show()),
        CfgVal::TpTp1Ena(x) => ("TpTp1Ena", x.show()),
        CfgVal::TpSyncGnssTp1(x) => ("TpSyncGnssTp1", x.show()),
        CfgVal::TpUseLockedTp1(x) => ("TpUseLockedTp1", x.show()),
        CfgVal::TpAlignToTowTp1(x) => ("TpAlignToTowTp1", x.show()),
        CfgVal::TpPolTp1(x) => ("TpPolTp1", x.show()),
        CfgVal::TpTimegridTp1(x) => ("TpTimegridTp1", x.show()),
        CfgVal::MsgoutNmeaIdDtmI2c(x) => ("MsgoutNmeaIdDtmI2c", x.show()),
        CfgVal::MsgoutNmeaIdDtmUart1(x) => ("MsgoutNmeaIdDtmUart1", x.show()),
        CfgVal::MsgoutNmeaIdDtmUart2(x) => ("MsgoutNmeaIdDtmUart2", x.show()),
        CfgVal::MsgoutNmeaIdDtmUsb(x) => ("MsgoutNmeaIdDtmUsb", x.show()),
        CfgVal::MsgoutNmeaIdDtmSpi(x) => ("MsgoutNmeaIdDtmSpi", x.show()),
        CfgVal::MsgoutNmeaIdGbsI2c(x) => ("MsgoutNmeaIdGbsI2c", x.show()),
        CfgVal::MsgoutNmeaIdGbsUart1(x) => ("MsgoutNmeaIdGbsUart1", x.show()),
        CfgVal::MsgoutNmeaIdGbsUart2(x) => ("MsgoutNmeaIdGbsUart2", x.show()),
        CfgVal::MsgoutNmeaIdGbsUsb(x) => ("MsgoutNmeaIdGbsUsb", x.show()),
        CfgVal::MsgoutNmeaIdGbsSpi(x) => ("MsgoutNmeaIdGbsSpi", x.show()),
        CfgVal::MsgoutNmeaIdGgaI2c(x) => ("MsgoutNmeaIdGgaI2c", x.show()),
        CfgVal::MsgoutNmeaIdGgaUart1(x) => ("MsgoutNmeaIdGgaUart1", x.show()),
        CfgVal::MsgoutNmeaIdGgaUart2(x) => ("MsgoutNmeaIdGgaUart2", x.show()),
        CfgVal::MsgoutNmeaIdGgaUsb(x) => ("MsgoutNmeaIdGgaUsb", x.show()),
        CfgVal::MsgoutNmeaIdGgaSpi(x) => ("MsgoutNmeaIdGgaSpi", x.show()),
        CfgVal::MsgoutNmeaIdGllI2c(x) => ("MsgoutNmeaIdGllI2c", x.show()),
        CfgVal::MsgoutNmeaIdGllUart1(x) => ("MsgoutNmeaIdGllUart1", x.show()),
        CfgVal::MsgoutNmeaIdGllUart2(x) => ("MsgoutNmeaIdGllUart2", x.show()),
        CfgVal::MsgoutNmeaIdGllUsb(x) => ("MsgoutNmeaIdGllUsb", x.show()),
        CfgVal::MsgoutNmeaIdGllSpi(x) => ("MsgoutNmeaIdGllSpi", x.show()),
        CfgVal::MsgoutNmeaIdGnsI2c(x) => ("MsgoutNmeaIdGnsI2c", x.show()),
        CfgVal::MsgoutNmeaIdGnsUart1(x) => ("MsgoutNmeaIdGnsUart1", x.show()),
        CfgVal::MsgoutNmeaIdGnsUart2(x) => ("MsgoutNmeaIdGnsUart2", x.show()),
        CfgVal::MsgoutNmeaIdGnsUsb(x) => ("MsgoutNmeaIdGnsUsb", x.show()),
        CfgVal::MsgoutNmeaIdGnsSpi(x) => ("MsgoutNmeaIdGnsSpi", x.show()),
        CfgVal::MsgoutNmeaIdGrsI2c(x) => ("MsgoutNmeaIdGrsI2c", x.show()),
        CfgVal::MsgoutNmeaIdGrsUart1(x) => ("MsgoutNmeaIdGrsUart1", x.show()),
        CfgVal::MsgoutNmeaIdGrsUart2(x) => ("MsgoutNmeaIdGrsUart2", x.show()),
        CfgVal::MsgoutNmeaIdGrsUsb(x) => ("MsgoutNmeaIdGrsUsb", x.show()),
        CfgVal::MsgoutNmeaIdGrsSpi(x) => ("MsgoutNmeaIdGrsSpi", x.show()),
        CfgVal::MsgoutNmeaIdGsaI2c(x) => ("MsgoutNmeaIdGsaI2c", x.show()),
        CfgVal::MsgoutNmeaIdGsaUart1(x) => ("MsgoutNmeaIdGsaUart1", x.show()),
        CfgVal::MsgoutNmeaIdGsaUart2(x) => ("MsgoutNmeaIdGsaUart2", x.show()),
        CfgVal::MsgoutNmeaIdGsaUsb(x) => ("MsgoutNmeaIdGsaUsb", x.show()),
        CfgVal::MsgoutNmeaIdGsaSpi(x) => ("MsgoutNmeaIdGsaSpi", x.show()),
        CfgVal::MsgoutNmeaIdGstI2c(x) => ("MsgoutNmeaIdGstI2c", x.show()),
        CfgVal::MsgoutNmeaIdGstUart1(x) => ("MsgoutNmeaIdGstUart1", x.show()),
        CfgVal::MsgoutNmeaIdGstUart2(x) => ("MsgoutNmeaIdGstUart2", x.show()),
        CfgVal::MsgoutNmeaIdGstUsb(x) => ("MsgoutNmeaIdGstUsb", x.show()),
        CfgVal::MsgoutNmeaIdGstSpi(x) => ("MsgoutNmeaIdGstSpi", x.show()),
        CfgVal::MsgoutNmeaIdGsvI2c(x) => ("MsgoutNmeaIdGsvI2c", x.show()),
        CfgVal::MsgoutNmeaIdGsvUart1(x) => ("MsgoutNmeaIdGsvUart1", x.show()),
        CfgVal::MsgoutNmeaIdGsvUart2(x) => ("MsgoutNmeaIdGsvUart2", x.show()),
        CfgVal::MsgoutNmeaIdGsvUsb(x) => ("MsgoutNmeaIdGsvUsb", x.show()),
        CfgVal::MsgoutNmeaIdGsvSpi(x) => ("MsgoutNmeaIdGsvSpi", x.show()),
        CfgVal::MsgoutNmeaIdRmcI2c(x) => ("MsgoutNmeaIdRmcI2c", x.show()),
        CfgVal::MsgoutNmeaIdRmcUart1(x) => ("MsgoutNmeaIdRmcUart1", x.show()),
        CfgVal::MsgoutNmeaIdRmcUart2(x) => ("MsgoutNmeaIdRmcUart2", x.show()),
        CfgVal::MsgoutNmeaIdRmcUsb(x) => ("MsgoutNmeaIdRmcUsb", x.show()),
        CfgVal::MsgoutNmeaIdRmcSpi(x) => ("MsgoutNmeaIdRmcSpi", x.show()),
        CfgVal::MsgoutNmeaIdVlwI2c(x) => ("MsgoutNmeaIdVlwI2c", x.show()),
        CfgVal::MsgoutNmeaIdVlwUart1(x) => ("MsgoutNmeaIdVlwUart1", x.show()),
        CfgVal::MsgoutNmeaIdVlwUart2(x) => ("MsgoutNmeaIdVlwUart2", x.show()),
        CfgVal::MsgoutNmeaIdVlwUsb(x) => ("MsgoutNmeaIdVlwUsb", x.show()),
        CfgVal::MsgoutNmeaIdVlwSpi(x) => ("MsgoutNmeaIdVlwSpi", x.show()),
        CfgVal::MsgoutNmeaIdVtgI2c(x) => ("MsgoutNmeaIdVtgI2c", x.show()),
        CfgVal::MsgoutNmeaIdVtgUart1(x) => ("MsgoutNmeaIdVtgUart1", x.show()),
        CfgVal::MsgoutNmeaIdVtgUart2(x) => ("MsgoutNmeaIdVtgUart2", x.show()),
        CfgVal::MsgoutNmeaIdVtgUsb(x) => ("MsgoutNmeaIdVtgUsb", x.show()),
        CfgVal::MsgoutNmeaIdVtgSpi(x) => ("MsgoutNmeaIdVtgSpi", x.show()),
        CfgVal::MsgoutNmeaIdZdaI2c(x) => ("MsgoutNmeaIdZdaI2c", x.show()),
        CfgVal::MsgoutNmeaIdZdaUart1(x) => ("MsgoutNmeaIdZdaUart1", x.show()),
        CfgVal::MsgoutNmeaIdZdaUart2(x) => ("MsgoutNmeaIdZdaUart2", x.show()),
        CfgVal::MsgoutNmeaIdZdaUsb(x) => ("MsgoutNmeaIdZdaUsb", x.show()),
        CfgVal::MsgoutNmeaIdZdaSpi(x) => ("MsgoutNmeaIdZdaSpi", x.show()),
        CfgVal::MsgoutPubxIdPolypI2c(x) => ("MsgoutPubxIdPolypI2c", x.show()),
        CfgVal::MsgoutPubxIdPolypUart1(x) => ("MsgoutPubxIdPolypUart1", x.show()),
        CfgVal::MsgoutPubxIdPolypUart2(x) => ("MsgoutPubxIdPolypUart2", x.show()),
        CfgVal::MsgoutPubxIdPolypUsb(x) => ("MsgoutPubxIdPolypUsb", x.show()),
        CfgVal::MsgoutPubxIdPolypSpi(x) => ("MsgoutPubxIdPolypSpi", x.show()),
        CfgVal::MsgoutPubxIdPolysI2c(x) => ("MsgoutPubxIdPolysI2c", x.show()),
        CfgVal::MsgoutPubxIdPolysUart1(x) => ("MsgoutPubxIdPolysUart1", x.show()),
        CfgVal::MsgoutPubxIdPolysUart2(x) => ("MsgoutPubxIdPolysUart2", x.show()),
        CfgVal::MsgoutPubxIdPolysUsb(x) => ("MsgoutPubxIdPolysUsb", x.show()),
        CfgVal::MsgoutPubxIdPolysSpi(x) => ("MsgoutPubxIdPolysSpi", x.show()),
        CfgVal::MsgoutPubxIdPolytI2c(x) => ("MsgoutPubxIdPolytI2c", x.show()),
        CfgVal::MsgoutPubxIdPolytUart1(x) => ("MsgoutPubxIdPolytUart1", x.show()),
        CfgVal::MsgoutPubxIdPolytUart2(x) => ("MsgoutPubxIdPolytUart2", x.show()),
        CfgVal::MsgoutPubxIdPolytUsb(x) => ("MsgoutPubxIdPolytUsb", x.show()),
        CfgVal::MsgoutPubxIdPolytSpi(x) => ("MsgoutPubxIdPolytSpi", x.show()),
        CfgVal::MsgoutRtcm3xType1005I2c(x) => ("MsgoutRtcm3xType1005I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1005Uart1(x) => ("MsgoutRtcm3xType1005Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1005Uart2(x) => ("MsgoutRtcm3xType1005Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1005Usb(x) => ("MsgoutRtcm3xType1005Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1005Spi(x) => ("MsgoutRtcm3xType1005Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1074I2c(x) => ("MsgoutRtcm3xType1074I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1074Uart1(x) => ("MsgoutRtcm3xType1074Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1074Uart2(x) => ("MsgoutRtcm3xType1074Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1074Usb(x) => ("MsgoutRtcm3xType1074Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1074Spi(x) => ("MsgoutRtcm3xType1074Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1077I2c(x) => ("MsgoutRtcm3xType1077I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1077Uart1(x) => ("MsgoutRtcm3xType1077Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1077Uart2(x) => ("MsgoutRtcm3xType1077Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1077Usb(x) => ("MsgoutRtcm3xType1077Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1077Spi(x) => ("MsgoutRtcm3xType1077Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1084I2c(x) => ("MsgoutRtcm3xType1084I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1084Uart1(x) => ("MsgoutRtcm3xType1084Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1084Uart2(x) => ("MsgoutRtcm3xType1084Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1084Usb(x) => ("MsgoutRtcm3xType1084Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1084Spi(x) => ("MsgoutRtcm3xType1084Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1087I2c(x) => ("MsgoutRtcm3xType1087I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1087Uart1(x) => ("MsgoutRtcm3xType1087Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1087Uart2(x) => ("MsgoutRtcm3xType1087Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1087Usb(x) => ("MsgoutRtcm3xType1087Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1087Spi(x) => ("MsgoutRtcm3xType1087Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1094I2c(x) => ("MsgoutRtcm3xType1094I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1094Uart1(x) => ("MsgoutRtcm3xType1094Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1094Uart2(x) => ("MsgoutRtcm3xType1094Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1094Usb(x) => ("MsgoutRtcm3xType1094Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1094Spi(x) => ("MsgoutRtcm3xType1094Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1097I2c(x) => ("MsgoutRtcm3xType1097I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1097Uart1(x) => ("MsgoutRtcm3xType1097Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1097Uart2(x) => ("MsgoutRtcm3xType1097Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1097Usb(x) => ("MsgoutRtcm3xType1097Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1097Spi(x) => ("MsgoutRtcm3xType1097Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1124I2c(x) => ("MsgoutRtcm3xType1124I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1124Uart1(x) => ("MsgoutRtcm3xType1124Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1124Uart2(x) => ("MsgoutRtcm3xType1124Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1124Usb(x) => ("MsgoutRtcm3xType1124Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1124Spi(x) => ("MsgoutRtcm3xType1124Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1127I2c(x) => ("MsgoutRtcm3xType1127I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1127Uart1(x) => ("MsgoutRtcm3xType1127Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1127Uart2(x) => ("MsgoutRtcm3xType1127Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1127Usb(x) => ("MsgoutRtcm3xType1127Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1127Spi(x) => ("MsgoutRtcm3xType1127Spi", x.show()),
        CfgVal::MsgoutRtcm3xType1230I2c(x) => ("MsgoutRtcm3xType1230I2c", x.show()),
        CfgVal::MsgoutRtcm3xType1230Uart1(x) => ("MsgoutRtcm3xType1230Uart1", x.show()),
        CfgVal::MsgoutRtcm3xType1230Uart2(x) => ("MsgoutRtcm3xType1230Uart2", x.show()),
        CfgVal::MsgoutRtcm3xType1230Usb(x) => ("MsgoutRtcm3xType1230Usb", x.show()),
        CfgVal::MsgoutRtcm3xType1230Spi(x) => ("MsgoutRtcm3xType1230Spi", x.show()),
        CfgVal::MsgoutUbxLogInfoI2c(x) => ("MsgoutUbxLogInfoI2c", x.show()),
        CfgVal::MsgoutUbxLogInfoUart1(x) => ("MsgoutUbxLogInfoUart1", x.show()),
        CfgVal::MsgoutUbxLogInfoUart2(x) => ("MsgoutUbxLogInfoUart2", x.show()),
        CfgVal::MsgoutUbxLogInfoUsb(x) => ("MsgoutUbxLogInfoUsb", x.show()),
        CfgVal::MsgoutUbxLogInfoSpi(x) => ("MsgoutUbxLogInfoSpi", x.show()),
        CfgVal::MsgoutUbxMonCommsI2c(x) => ("MsgoutUbxMonCommsI2c", x.show()),
        CfgVal::MsgoutUbxMonCommsUart1(x) => ("MsgoutUbxMonCommsUart1", x.show()),
        CfgVal::MsgoutUbxMonCommsUart2(x) => ("MsgoutUbxMonCommsUart2", x.show()),
        CfgVal::MsgoutUbxMonCommsUsb(x) => ("MsgoutUbxMonCommsUsb", x.show()),
        CfgVal::MsgoutUbxMonCommsSpi(x) => ("MsgoutUbxMonCommsSpi", x.show()),
        CfgVal::MsgoutUbxMonHw2I2c(x) => ("MsgoutUbxMonHw2I2c", x.show()),
        CfgVal::MsgoutUbxMonHw2Uart1(x) => ("MsgoutUbxMonHw2Uart1", x.show()),
        CfgVal::MsgoutUbxMonHw2Uart2(x) => ("MsgoutUbxMonHw2Uart2", x.show()),
        CfgVal::MsgoutUbxMonHw2Usb(x) => ("MsgoutUbxMonHw2Usb", x.show()),
        CfgVal::MsgoutUbxMonHw2Spi(x) => ("MsgoutUbxMonHw2Spi", x.show()),
        CfgVal::MsgoutUbxMonHw3I2c(x) => ("MsgoutUbxMonHw3I2c", x.show()),
        CfgVal::MsgoutUbxMonHw3Uart1(x) => ("MsgoutUbxMonHw3Uart1", x.show()),
        CfgVal::MsgoutUbxMonHw3Uart2(x) => ("MsgoutUbxMonHw3Uart2", x.show()),
        CfgVal::MsgoutUbxMonHw3Usb(x) => ("MsgoutUbxMonHw3Usb", x.show()),
        CfgVal::MsgoutUbxMonHw3Spi(x) => ("MsgoutUbxMonHw3Spi", x.show()),
        CfgVal::MsgoutUbxMonHwI2c(x) => ("MsgoutUbxMonHwI2c", x.show()),
        CfgVal::MsgoutUbxMonHwUart1(x) => ("MsgoutUbxMonHwUart1", x.show()),
        CfgVal::MsgoutUbxMonHwUart2(x) => ("MsgoutUbxMonHwUart2", x.show()),
        CfgVal::MsgoutUbxMonHwUsb(x) => ("MsgoutUbxMonHwUsb", x.show()),
        CfgVal::MsgoutUbxMonHwSpi(x) => ("MsgoutUbxMonHwSpi", x.show()),
        CfgVal::MsgoutUbxMonIoI2c(x) => ("MsgoutUbxMonIoI2c", x.show()),
        CfgVal::MsgoutUbxMonIoUart1(x) => ("MsgoutUbxMonIoUart1", x.show()),
        CfgVal::MsgoutUbxMonIoUart2(x) => ("MsgoutUbxMonIoUart2", x.show()),
        CfgVal::MsgoutUbxMonIoUsb(x) => ("MsgoutUbxMonIoUsb", x.show()),
        CfgVal::MsgoutUbxMonIoSpi(x) => ("MsgoutUbxMonIoSpi", x.show()),
        CfgVal::MsgoutUbxMonMsgPpI2c(x) => ("MsgoutUbxMonMsgPpI2c", x.show()),
        CfgVal::MsgoutUbxMonMsgPpUart1(x) => ("MsgoutUbxMonMsgPpUart1", x.show()),
        CfgVal::MsgoutUbxMonMsgPpUart2(x) => ("MsgoutUbxMonMsgPpUart2", x.show()),
        CfgVal::MsgoutUbxMonMsgPpUsb(x) => ("MsgoutUbxMonMsgPpUsb", x.show()),
        CfgVal::MsgoutUbxMonMsgPpSpi(x) => ("MsgoutUbxMonMsgPpSpi", x.show()),
        CfgVal::MsgoutUbxMonRfI2c(x) => ("MsgoutUbxMonRfI2c", x.show()),
        CfgVal::MsgoutUbxMonRfUart1(x) => ("MsgoutUbxMonRfUart1", x.show()),
        CfgVal::MsgoutUbxMonRfUart2(x) => ("MsgoutUbxMonRfUart2", x.show()),
        CfgVal::MsgoutUbxMonRfUsb(x) => ("MsgoutUbxMonRfUsb", x.show()),
        CfgVal::MsgoutUbxMonRfSpi(x) => ("MsgoutUbxMonRfSpi", x.show()),
        CfgVal::MsgoutUbxMonRxbufI2c(x) => ("MsgoutUbxMonRxbufI2c", x.show()),
        CfgVal::MsgoutUbxMonRxbufUart1(x) => ("MsgoutUbxMonRxbufUart1", x.show()),
        CfgVal::MsgoutUbxMonRxbufUart2(x) => ("MsgoutUbxMonRxbufUart2", x.show()),
        CfgVal::MsgoutUbxMonRxbufUsb(x) => ("MsgoutUbxMonRxbufUsb", x.show()),
        CfgVal::MsgoutUbxMonRxbufSpi(x) => ("MsgoutUbxMonRxbufSpi", x.show()),
        CfgVal::MsgoutUbxMonRxrI2c(x) => ("MsgoutUbxMonRxrI2c", x.show()),
        CfgVal::MsgoutUbxMonRxrUart1(x) => ("MsgoutUbxMonRxrUart1", x.show()),
        CfgVal::MsgoutUbxMonRxrUart2(x) => ("MsgoutUbxMonRxrUart2", x.show()),
        CfgVal::MsgoutUbxMonRxrUsb(x) => ("MsgoutUbxMonRxrUsb", x.show()),
        CfgVal::MsgoutUbxMonRxrSpi(x) => ("MsgoutUbxMonRxrSpi", x.show()),
        CfgVal::MsgoutUbxMonTxbufI2c(x) => ("MsgoutUbxMonTxbufI2c", x.show()),
        CfgVal::MsgoutUbxMonTxbufUart1(x) => ("MsgoutUbxMonTxbufUart1", x.show()),
        CfgVal::MsgoutUbxMonTxbufUart2(x) => ("MsgoutUbxMonTxbufUart2", x.show()),
        CfgVal::MsgoutUbxMonTxbufUsb(x) => ("MsgoutUbxMonTxbufUsb", x.show()),
        CfgVal::MsgoutUbxMonTxbufSpi(x) => ("MsgoutUbxMonTxbufSpi", x.show()),
        CfgVal::MsgoutUbxNavClockI2c(x) => ("MsgoutUbxNavClockI2c", x.show()),
        CfgVal::MsgoutUbxNavClockUart1(x) => ("MsgoutUbxNavClockUart1", x.show()),
        CfgVal::MsgoutUbxNavClockUart2(x) => ("MsgoutUbxNavClockUart2", x.show()),
        CfgVal::MsgoutUbxNavClockUsb(x) => ("MsgoutUbxNavClockUsb", x.show()),
        CfgVal::MsgoutUbxNavClockSpi(x) => ("MsgoutUbxNavClockSpi", x.show()),
        CfgVal::MsgoutUbxNavDopI2c(x) => ("MsgoutUbxNavDopI2c", x.show()),
        CfgVal::MsgoutUbxNavDopUart1(x) => ("MsgoutUbxNavDopUart1", x.show()),
        CfgVal::MsgoutUbxNavDopUart2(x) => ("MsgoutUbxNavDopUart2", x.show()),
        CfgVal::MsgoutUbxNavDopUsb(x) => ("MsgoutUbxNavDopUsb", x.show()),
        CfgVal::MsgoutUbxNavDopSpi(x) => ("MsgoutUbxNavDopSpi", x.show()),
        CfgVal::MsgoutUbxNavEoeI2c(x) => ("MsgoutUbxNavEoeI2c", x.show()),
        CfgVal::MsgoutUbxNavEoeUart1(x) => ("MsgoutUbxNavEoeUart1", x.show()),
        CfgVal::MsgoutUbxNavEoeUart2(x) => ("MsgoutUbxNavEoeUart2", x.show()),
        CfgVal::MsgoutUbxNavEoeUsb(x) => ("MsgoutUbxNavEoeUsb", x.show()),
        CfgVal::MsgoutUbxNavEoeSpi(x) => ("MsgoutUbxNavEoeSpi", x.show()),
        CfgVal::MsgoutUbxNavGeofenceI2c(x) => ("MsgoutUbxNavGeofenceI2c", x.show()),
        CfgVal::MsgoutUbxNavGeofenceUart1(x) => ("MsgoutUbxNavGeofenceUart1", x.show()),
        CfgVal::MsgoutUbxNavGeofenceUart2(x) => ("MsgoutUbxNavGeofenceUart2", x.show()),
        CfgVal::MsgoutUbxNavGeofenceUsb(x) => ("MsgoutUbxNavGeofenceUsb", x.show()),
        CfgVal::MsgoutUbxNavGeofenceSpi(x) => ("MsgoutUbxNavGeofenceSpi", x.show()),
        CfgVal::MsgoutUbxNavHpPosEcefI2c(x) => ("MsgoutUbxNavHpPosEcefI2c", x.show()),
        CfgVal::MsgoutUbxNavHpPosEcefUart1(x) => ("MsgoutUbxNavHpPosEcefUart1", x.show()),
        CfgVal::MsgoutUbxNavHpPosEcefUart2(x) => ("MsgoutUbxNavHpPosEcefUart2", x.show()),
        CfgVal::MsgoutUbxNavHpPosEcefUsb(x) => ("MsgoutUbxNavHpPosEcefUsb", x.show()),
        CfgVal::MsgoutUbxNavHpPosEcefSpi(x) => ("MsgoutUbxNavHpPosEcefSpi", x.show()),
        CfgVal::MsgoutUbxNavHpPosllhI2c(x) => ("MsgoutUbxNavHpPosllhI2c", x.show()),
        CfgVal::MsgoutUbxNavHpPosllhUart1(x) => ("MsgoutUbxNavHpPosllhUart1", x.show()),
        CfgVal::MsgoutUbxNavHpPosllhUart2(x) => ("MsgoutUbxNavHpPosllhUart2", x.show()),
        CfgVal::MsgoutUbxNavHpPosllhUsb(x) => ("MsgoutUbxNavHpPosllhUsb", x.show()),
        CfgVal::MsgoutUbxNavHpPosllhSpi(x) => ("MsgoutUbxNavHpPosllhSpi", x.show()),
        CfgVal::MsgoutUbxNavOdoI2c(x) => ("MsgoutUbxNavOdoI2c", x.show()),
        CfgVal::MsgoutUbxNavOdoUart1(x) => ("MsgoutUbxNavOdoUart1", x.show()),
        CfgVal::MsgoutUbxNavOdoUart2(x) => ("MsgoutUbxNavOdoUart2", x.show()),
        CfgVal::MsgoutUbxNavOdoUsb(x) => ("MsgoutUbxNavOdoUsb", x.show()),
        CfgVal::MsgoutUbxNavOdoSpi(x) => ("MsgoutUbxNavOdoSpi", x.show()),
        CfgVal::MsgoutUbxNavOrbI2c(x) => ("MsgoutUbxNavOrbI2c", x.show()),
        CfgVal::MsgoutUbxNavOrbUart1(x) => ("MsgoutUbxNavOrbUart1", x.show()),
        CfgVal::MsgoutUbxNavOrbUart2(x) => ("MsgoutUbxNavOrbUart2", x.show()),
        CfgVal::MsgoutUbxNavOrbUsb(x) => ("MsgoutUbxNavOrbUsb", x.show()),
        CfgVal::MsgoutUbxNavOrbSpi(x) => ("MsgoutUbxNavOrbSpi", x.show()),
        CfgVal::MsgoutUbxNavPosEcefI2c(x) => ("MsgoutUbxNavPosEcefI2c", x.show()),
        CfgVal::MsgoutUbxNavPosEcefUart1(x) => ("MsgoutUbxNavPosEcefUart1", x.show()),
        CfgVal::MsgoutUbxNavPosEcefUart2(x) => ("MsgoutUbxNavPosEcefUart2", x.show()),
        CfgVal::MsgoutUbxNavPosEcefUsb(x) => ("MsgoutUbxNavPosEcefUsb", x.show()),
        CfgVal::MsgoutUbxNavPosEcefSpi(x) => ("MsgoutUbxNavPosEcefSpi", x.show()),
        CfgVal::MsgoutUbxNavPosLlhI2c(x) => ("MsgoutUbxNavPosLlhI2c", x.show()),
        CfgVal::MsgoutUbxNavPosLlhUart1(x) => ("MsgoutUbxNavPosLlhUart1", x.show()),
        CfgVal::MsgoutUbxNavPosLlhUart2(x) => ("MsgoutUbxNavPosLlhUart2", x.show()),
        CfgVal::MsgoutUbxNavPosLlhUsb(x) => ("MsgoutUbxNavPosLlhUsb", x.show()),
        CfgVal::MsgoutUbxNavPosLlhSpi(x) => ("MsgoutUbxNavPosLlhSpi", x.show()),
        CfgVal::MsgoutUbxNavPvtI2c(x) => ("MsgoutUbxNavPvtI2c", x.show()),
        CfgVal::MsgoutUbxNavPvtUart1(x) => ("MsgoutUbxNavPvtUart1", x.show()),
        CfgVal::MsgoutUbxNavPvtUart2(x) => ("MsgoutUbxNavPvtUart2", x.show()),
        CfgVal::MsgoutUbxNavPvtUsb(x) => ("MsgoutUbxNavPvtUsb", x.show()),
        CfgVal::MsgoutUbxNavPvtSpi(x) => ("MsgoutUbxNavPvtSpi", x.show()),
        CfgVal::MsgoutUbxNavRelposnedI2c(x) => ("MsgoutUbxNavRelposnedI2c", x.show()),
        CfgVal::MsgoutUbxNavRelposnedUart1(x) => ("MsgoutUbxNavRelposnedUart1", x.show()),
        CfgVal::MsgoutUbxNavRelposnedUart2(x) => ("MsgoutUbxNavRelposnedUart2", x.show()),
        CfgVal::MsgoutUbxNavRelposnedUsb(x) => ("MsgoutUbxNavRelposnedUsb", x.show()),
        CfgVal::MsgoutUbxNavRelposnedSpi(x) => ("MsgoutUbxNavRelposnedSpi", x.show()),
        CfgVal::MsgoutUbxNavSatI2c(x) => ("MsgoutUbxNavSatI2c", x.show()),
        CfgVal::MsgoutUbxNavSatUart1(x) => ("MsgoutUbxNavSatUart1", x.show()),
        CfgVal::MsgoutUbxNavSatUart2(x) => ("MsgoutUbxNavSatUart2", x.show()),
        CfgVal::MsgoutUbxNavSatUsb(x) => ("MsgoutUbxNavSatUsb", x.show()),
        CfgVal::MsgoutUbxNavSatSpi(x) => ("MsgoutUbxNavSatSpi", x.show()),
        CfgVal::MsgoutUbxNavSigI2c(x) => ("MsgoutUbxNavSigI2c", x.show()),
        CfgVal::MsgoutUbxNavSigUart1(x) => ("MsgoutUbxNavSigUart1", x.show()),
        CfgVal::MsgoutUbxNavSigUart2(x) => ("MsgoutUbxNavSigUart2", x.show()),
        CfgVal::MsgoutUbxNavSigUsb(x) => ("MsgoutUbxNavSigUsb", x.show()),
        CfgVal::MsgoutUbxNavSigSpi(x) => ("MsgoutUbxNavSigSpi", x.show()),
        CfgVal::MsgoutUbxNavStatusI2c(x) => ("MsgoutUbxNavStatusI2c", x.show()),
        CfgVal::MsgoutUbxNavStatusUart1(x) => ("MsgoutUbxNavStatusUart1", x.show()),
        CfgVal::MsgoutUbxNavStatusUart2(x) => ("MsgoutUbxNavStatusUart2", x.show()),
        CfgVal::MsgoutUbxNavStatusUsb(x) => ("MsgoutUbxNavStatusUsb", x.show()),
        CfgVal::MsgoutUbxNavStatusSpi(x) => ("MsgoutUbxNavStatusSpi", x.show()),
        CfgVal::MsgoutUbxNavSvinI2c(x) => ("MsgoutUbxNavSvinI2c", x.show()),
        CfgVal::MsgoutUbxNavSvinUart1(x) => ("MsgoutUbxNavSvinUart1", x.show()),
        CfgVal::MsgoutUbxNavSvinUart2(x) => ("MsgoutUbxNavSvinUart2", x.show()),
        CfgVal::MsgoutUbxNavSvinUsb(x) => ("MsgoutUbxNavSvinUsb", x.show()),
        CfgVal::MsgoutUbxNavSvinSpi(x) => ("MsgoutUbxNavSvinSpi", x.show()),
        CfgVal::MsgoutUbxNavTimeBdsI2c(x) => ("MsgoutUbxNavTimeBdsI2c", x.show()),
        CfgVal::MsgoutUbxNavTimeBdsUart1(x) => ("MsgoutUbxNavTimeBdsUart1", x.show()),
        CfgVal::MsgoutUbxNavTimeBdsUart2(x) => ("MsgoutUbxNavTimeBdsUart2", x.show()),
        CfgVal::MsgoutUbxNavTimeBdsUsb(x) => ("MsgoutUbxNavTimeBdsUsb", x.show()),
        CfgVal::MsgoutUbxNavTimeBdsSpi(x) => ("MsgoutUbxNavTimeBdsSpi", x.show()),
        CfgVal::MsgoutUbxNavTimeGalI2c(x) => ("MsgoutUbxNavTimeGalI2c", x.show()),
        CfgVal::MsgoutUbxNavTimeGalUart1(x) => ("MsgoutUbxNavTimeGalUart1", x.show()),
        CfgVal::MsgoutUbxNavTimeGalUart2(x) => ("MsgoutUbxNavTimeGalUart2", x.show()),
        CfgVal::MsgoutUbxNavTimeGalUsb(x) => ("MsgoutUbxNavTimeGalUsb", x.show()),
        CfgVal::MsgoutUbxNavTimeGalSpi(x) => ("MsgoutUbxNavTimeGalSpi", x.show()),
        CfgVal::MsgoutUbxNavTimeGloI2c(x) => ("MsgoutUbxNavTimeGloI2c", x.show()),
        CfgVal::MsgoutUbxNavTimeGloUart1(x) => ("MsgoutUbxNavTimeGloUart1", x.show()),
        CfgVal::MsgoutUbxNavTimeGloUart2(x) => ("MsgoutUbxNavTimeGloUart2", x.show()),
        CfgVal::MsgoutUbxNavTimeGloUsb(x) => ("MsgoutUbxNavTimeGloUsb", x.show()),
        CfgVal::MsgoutUbxNavTimeGloSpi(x) => ("MsgoutUbxNavTimeGloSpi", x.show()),
        CfgVal::MsgoutUbxNavTimeGpsI2c(x) => ("MsgoutUbxNavTimeGpsI2c", x.show()),
        CfgVal::MsgoutUbxNavTimeGpsUart1(x) => ("MsgoutUbxNavTimeGpsUart1", x.show()),
        CfgVal::MsgoutUbxNavTimeGpsUart2(x) => ("MsgoutUbxNavTimeGpsUart2", x.show()),
        CfgVal::MsgoutUbxNavTimeGpsUsb(x) => ("MsgoutUbxNavTimeGpsUsb", x.show()),
        CfgVal::MsgoutUbxNavTimeGpsSpi(x) => ("MsgoutUbxNavTimeGpsSpi", x.show()),
        CfgVal::MsgoutUbxNavTimeLsI2c(x) => ("MsgoutUbxNavTimeLsI2c", x.show()),
        CfgVal::MsgoutUbxNavTimeLsUart1(x) => ("MsgoutUbxNavTimeLsUart1", x.show()),
        CfgVal::MsgoutUbxNavTimeLsUart2(x) => ("MsgoutUbxNavTimeLsUart2", x.show()),
        CfgVal::MsgoutUbxNavTimeLsUsb(x) => ("MsgoutUbxNavTimeLsUsb", x.show()),
        CfgVal::MsgoutUbxNavTimeLsSpi(x) => ("MsgoutUbxNavTimeLsSpi", x.show()),
        CfgVal::MsgoutUbxNavTimeUtcI2c(x) => ("MsgoutUbxNavTimeUtcI2c", x.show()),
        CfgVal::MsgoutUbxNavTimeUtcUart1(x) => ("MsgoutUbxNavTimeUtcUart1", x.show()),
        CfgVal::MsgoutUbxNavTimeUtcUart2(x) => ("MsgoutUbxNavTimeUtcUart2", x.show()),
        CfgVal::MsgoutUbxNavTimeUtcUsb(x) => ("MsgoutUbxNavTimeUtcUsb", x.show()),
        CfgVal::MsgoutUbxNavTimeUtcSpi(x) => ("MsgoutUbxNavTimeUtcSpi", x.show()),
        CfgVal::MsgoutUbxNavVelEcefI2c(x) => ("MsgoutUbxNavVelEcefI2c", x.show()),
        CfgVal::MsgoutUbxNavVelEcefUart1(x) => ("MsgoutUbxNavVelEcefUart1", x.show()),
        CfgVal::MsgoutUbxNavVelEcefUart2(x) => ("MsgoutUbxNavVelEcefUart2", x.show()),
        CfgVal::MsgoutUbxNavVelEcefUsb(x) => ("MsgoutUbxNavVelEcefUsb", x.show()),
        CfgVal::MsgoutUbxNavVelEcefSpi(x) => ("MsgoutUbxNavVelEcefSpi", x.show()),
        CfgVal::MsgoutUbxNavVelNedI2c(x) => ("MsgoutUbxNavVelNedI2c", x.show()),
        CfgVal::MsgoutUbxNavVelNedUart1(x) => ("MsgoutUbxNavVelNedUart1", x.show()),
        CfgVal::MsgoutUbxNavVelNedUart2(x) => ("MsgoutUbxNavVelNedUart2", x.show()),
        CfgVal::MsgoutUbxNavVelNedUsb(x) => ("MsgoutUbxNavVelNedUsb", x.show()),
        CfgVal::MsgoutUbxNavVelNedSpi(x) => ("MsgoutUbxNavVelNedSpi", x.show()),
        CfgVal::MsgoutUbxRxmMeasxI2c(x) => ("MsgoutUbxRxmMeasxI2c", x.show()),
        CfgVal::MsgoutUbxRxmMeasxUart1(x) => ("MsgoutUbxRxmMeasxUart1", x.show()),
        CfgVal::MsgoutUbxRxmMeasxUart2(x) => ("MsgoutUbxRxmMeasxUart2", x.show()),
        CfgVal::MsgoutUbxRxmMeasxUsb(x) => ("MsgoutUbxRxmMeasxUsb", x.show()),
        CfgVal::MsgoutUbxRxmMeasxSpi(x) => ("MsgoutUbxRxmMeasxSpi", x.show()),
        CfgVal::MsgoutUbxRxmRawxI2c(x) => ("MsgoutUbxRxmRawxI2c", x.show()),
        CfgVal::MsgoutUbxRxmRawxUart1(x) => ("MsgoutUbxRxmRawxUart1", x.show()),
        CfgVal::MsgoutUbxRxmRawxUart2(x) => ("MsgoutUbxRxmRawxUart2", x.show()),
        CfgVal::MsgoutUbxRxmRawxUsb(x) => ("MsgoutUbxRxmRawxUsb", x.show()),
        CfgVal::MsgoutUbxRxmRawxSpi(x) => ("MsgoutUbxRxmRawxSpi", x.show()),
        CfgVal::MsgoutUbxRxmRlmI2c(x) => ("MsgoutUbxRxmRlmI2c", x.show()),
        CfgVal::MsgoutUbxRxmRlmUart1(x) => ("MsgoutUbxRxmRlmUart1", x.show()),
        CfgVal::MsgoutUbxRxmRlmUart2(x) => ("MsgoutUbxRxmRlmUart2", x.show()),
        CfgVal::MsgoutUbxRxmRlmUsb(x) => ("MsgoutUbxRxmRlmUsb", x.show()),
        CfgVal::MsgoutUbxRxmRlmSpi(x) => ("MsgoutUbxRxmRlmSpi", x.show()),
        CfgVal::MsgoutUbxRxmRtcmI2c(x) => ("MsgoutUbxRxmRtcmI2c", x.show()),
        CfgVal::MsgoutUbxRxmRtcmUart1(x) => ("MsgoutUbxRxmRtcmUart1", x.show()),
        CfgVal::MsgoutUbxRxmRtcmUart2(x) => ("MsgoutUbxRxmRtcmUart2", x.show()),
        CfgVal::MsgoutUbxRxmRtcmUsb(x) => ("MsgoutUbxRxmRtcmUsb", x.show()),
        CfgVal::MsgoutUbxRxmRtcmSpi(x) => ("MsgoutUbxRxmRtcmSpi", x.show()),
        CfgVal::MsgoutUbxRxmSfrbxI2c(x) => ("MsgoutUbxRxmSfrbxI2c", x.show()),
        CfgVal::MsgoutUbxRxmSfrbxUart1(x) => ("MsgoutUbxRxmSfrbxUart1", x.show()),
        CfgVal::MsgoutUbxRxmSfrbxUart2(x) => ("MsgoutUbxRxmSfrbxUart2", x.show()),
        CfgVal::MsgoutUbxRxmSfrbxUsb(x) => ("MsgoutUbxRxmSfrbxUsb", x.show()),
        CfgVal::MsgoutUbxRxmSfrbxSpi(x) => ("MsgoutUbxRxmSfrbxSpi", x.show()),
        CfgVal::MsgoutUbxTimTm2I2c(x) => ("MsgoutUbxTimTm2I2c", x.show()),
        CfgVal::MsgoutUbxTimTm2Uart1(x) => ("MsgoutUbxTimTm2Uart1", x.show()),
        CfgVal::MsgoutUbxTimTm2Uart2(x) => ("MsgoutUbxTimTm2Uart2", x.show()),
        CfgVal::MsgoutUbxTimTm2Usb(x) => ("MsgoutUbxTimTm2Usb", x.show()),
        CfgVal::MsgoutUbxTimTm2Spi(x) => ("MsgoutUbxTimTm2Spi", x.show()),
        CfgVal::MsgoutUbxTimTpI2c(x) => ("MsgoutUbxTimTpI2c", x.show()),
        CfgVal::MsgoutUbxTimTpUart1(x) => ("MsgoutUbxTimTpUart1", x.show()),
        CfgVal::MsgoutUbxTimTpUart2(x) => ("MsgoutUbxTimTpUart2", x.show()),
        CfgVal::MsgoutUbxTimTpUsb(x) => ("MsgoutUbxTimTpUsb", x.show()),
        CfgVal::MsgoutUbxTimTpSpi(x) => ("MsgoutUbxTimTpSpi", x.show()),
        CfgVal::MsgoutUbxTimVrfyI2c(x) => ("MsgoutUbxTimVrfyI2c", x.show()),
        CfgVal::MsgoutUbxTimVrfyUart1(x) => ("MsgoutUbxTimVrfyUart1", x.show()),
        CfgVal::MsgoutUbxTimVrfyUart2(x) => ("MsgoutUbxTimVrfyUart2", x.show()),
        CfgVal::MsgoutUbxTimVrfyUsb(x) => ("MsgoutUbxTimVrfyUsb", x.show()),
        CfgVal::MsgoutUbxTimVrfySpi(x) => ("MsgoutUbxTimVrfySpi", x.show()),
        _ => ("?", (vec![], "")),
    };
    (n, b, v)
}
