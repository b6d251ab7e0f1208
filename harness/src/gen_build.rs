// Generated by tools/gen_harness.py from spec/UbxCatalogue.tla
use crate::build::*;
use ublox::*;

#[allow(non_snake_case, unused_variables)]
fn mk_NavResetOdo(i: &[In]) -> NavResetOdoBuilder {
    NavResetOdoBuilder {}
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgOdo(i: &[In]) -> CfgOdoBuilder {
    CfgOdoBuilder {
        version: {
            let v = &i[0];
            u8::read_le(v)
        },
        reserved: {
            let v = &i[1];
            arr(v)
        },
        flags: {
            let v = &i[2];
            OdoCogFilterFlags::from_bits_retain(u8::read_le(v))
        },
        odo_cfg: {
            let v = &i[3];
            match code(v, 0) {
                0 => OdoProfile::Running,
                1 => OdoProfile::Cycling,
                2 => OdoProfile::Swimming,
                3 => OdoProfile::Car,
                4 => OdoProfile::Custom,
                _ => unreachable!(),
            }
        },
        reserved2: {
            let v = &i[4];
            arr(v)
        },
        cog_max_speed: {
            let v = &i[5];
            u8::read_le(v)
        },
        cog_max_pos_acc: {
            let v = &i[6];
            u8::read_le(v)
        },
        reserved3: {
            let v = &i[7];
            arr(v)
        },
        vel_lp_gain: {
            let v = &i[8];
            u8::read_le(v)
        },
        cog_lp_gain: {
            let v = &i[9];
            u8::read_le(v)
        },
        reserved4: {
            let v = &i[10];
            arr(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgItfm(i: &[In]) -> CfgItfmBuilder {
    CfgItfmBuilder {
        config: {
            let v = &i[0];
            CfgItfmConfig::new(code(v, 0) == 1, code(v, 1) as u32, code(v, 2) as u32)
        },
        config2: {
            let v = &i[1];
            CfgItfmConfig2::new(
                [
                    CfgItfmAntennaSettings::Unknown,
                    CfgItfmAntennaSettings::Active,
                    CfgItfmAntennaSettings::Passive,
                ][code(v, 0)],
                code(v, 1) == 1,
            )
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgInf(i: &[In]) -> CfgInfBuilder {
    CfgInfBuilder {
        protocol_id: {
            let v = &i[0];
            u8::read_le(v)
        },
        reserved: {
            let v = &i[1];
            arr(v)
        },
        inf_msg_mask_0: {
            let v = &i[2];
            CfgInfMask::from_bits_retain(u8::read_le(v))
        },
        inf_msg_mask_1: {
            let v = &i[3];
            CfgInfMask::from_bits_retain(u8::read_le(v))
        },
        inf_msg_mask_2: {
            let v = &i[4];
            CfgInfMask::from_bits_retain(u8::read_le(v))
        },
        inf_msg_mask_3: {
            let v = &i[5];
            CfgInfMask::from_bits_retain(u8::read_le(v))
        },
        inf_msg_mask_4: {
            let v = &i[6];
            CfgInfMask::from_bits_retain(u8::read_le(v))
        },
        inf_msg_mask_5: {
            let v = &i[7];
            CfgInfMask::from_bits_retain(u8::read_le(v))
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_AidIni(i: &[In]) -> AidIniBuilder {
    AidIniBuilder {
        ecef_x_or_lat: {
            let v = &i[0];
            i32::read_le(v)
        },
        ecef_y_or_lon: {
            let v = &i[1];
            i32::read_le(v)
        },
        ecef_z_or_alt: {
            let v = &i[2];
            i32::read_le(v)
        },
        pos_accuracy: {
            let v = &i[3];
            u32::read_le(v)
        },
        time_cfg: {
            let v = &i[4];
            u16::read_le(v)
        },
        week_or_ym: {
            let v = &i[5];
            u16::read_le(v)
        },
        tow_or_hms: {
            let v = &i[6];
            u32::read_le(v)
        },
        tow_ns: {
            let v = &i[7];
            i32::read_le(v)
        },
        tm_accuracy_ms: {
            let v = &i[8];
            u32::read_le(v)
        },
        tm_accuracy_ns: {
            let v = &i[9];
            u32::read_le(v)
        },
        clk_drift_or_freq: {
            let v = &i[10];
            i32::read_le(v)
        },
        clk_drift_or_freq_accuracy: {
            let v = &i[11];
            u32::read_le(v)
        },
        flags: {
            let v = &i[12];
            u32::read_le(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgRst(i: &[In]) -> CfgRstBuilder {
    CfgRstBuilder {
        nav_bbr_mask: {
            let v = &i[0];
            NavBbrMask::from_bits_retain(u16::read_le(v))
        },
        reset_mode: {
            let v = &i[1];
            match code(v, 0) {
                0 => ResetMode::HardwareResetImmediately,
                1 => ResetMode::ControlledSoftwareReset,
                2 => ResetMode::ControlledSoftwareResetGpsOnly,
                4 => ResetMode::HardwareResetAfterShutdown,
                8 => ResetMode::ControlledGpsStop,
                _ => ResetMode::ControlledGpsStart,
            }
        },
        reserved1: {
            let v = &i[2];
            u8::read_le(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgAnt(i: &[In]) -> CfgAntBuilder {
    CfgAntBuilder {
        flags: {
            let v = &i[0];
            AntFlags::from_bits_retain(u16::read_le(v))
        },
        pins: {
            let v = &i[1];
            u16::read_le(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgTp5(i: &[In]) -> CfgTp5Builder {
    CfgTp5Builder {
        tp_idx: {
            let v = &i[0];
            match code(v, 0) {
                0 => CfgTp5TimePulseMode::TimePulse,
                1 => CfgTp5TimePulseMode::TimePulse2,
                _ => unreachable!(),
            }
        },
        version: {
            let v = &i[1];
            u8::read_le(v)
        },
        reserved1: {
            let v = &i[2];
            arr(v)
        },
        ant_cable_delay: {
            let v = &i[3];
            real32(v, 1.0)
        },
        rf_group_delay: {
            let v = &i[4];
            real32(v, 1.0)
        },
        freq_period: {
            let v = &i[5];
            real64(v, 1.0)
        },
        freq_period_lock: {
            let v = &i[6];
            real64(v, 1.0)
        },
        pulse_len_ratio: {
            let v = &i[7];
            real64(v, 1.0)
        },
        pulse_len_ratio_lock: {
            let v = &i[8];
            real64(v, 1.0)
        },
        user_delay: {
            let v = &i[9];
            real64(v, 1.0)
        },
        flags: {
            let v = &i[10];
            CfgTp5Flags::from_bits_retain(u32::read_le(v))
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgTmode2(i: &[In]) -> CfgTmode2Builder {
    CfgTmode2Builder {
        time_transfer_mode: {
            let v = &i[0];
            match code(v, 0) {
                0 => CfgTmode2TimeXferModes::Disabled,
                1 => CfgTmode2TimeXferModes::SurveyIn,
                2 => CfgTmode2TimeXferModes::FixedMode,
                _ => unreachable!(),
            }
        },
        reserved1: {
            let v = &i[1];
            u8::read_le(v)
        },
        flags: {
            let v = &i[2];
            CfgTmode2Flags::from_bits_retain(u16::read_le(v))
        },
        ecef_x_or_lat: {
            let v = &i[3];
            real64(v, 1e-2)
        },
        ecef_y_or_lon: {
            let v = &i[4];
            real64(v, 1e-2)
        },
        ecef_z_or_alt: {
            let v = &i[5];
            real64(v, 1e-2)
        },
        fixed_pos_acc: {
            let v = &i[6];
            real64(v, 1e-3)
        },
        survey_in_min_duration: {
            let v = &i[7];
            u32::read_le(v)
        },
        survery_in_accur_limit: {
            let v = &i[8];
            real64(v, 1e-3)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgTmode3(i: &[In]) -> CfgTmode3Builder {
    CfgTmode3Builder {
        version: {
            let v = &i[0];
            u8::read_le(v)
        },
        reserved1: {
            let v = &i[1];
            u8::read_le(v)
        },
        rcvr_mode: {
            let v = &i[2];
            CfgTmode3RcvrMode::from_bits_retain(u8::read_le(v))
        },
        flags: {
            let v = &i[3];
            CfgTmode3Flags::from_bits_retain(u8::read_le(v))
        },
        ecef_x_or_lat: {
            let v = &i[4];
            real64(v, 1e-2)
        },
        ecef_y_or_lon: {
            let v = &i[5];
            real64(v, 1e-2)
        },
        ecef_z_or_alt: {
            let v = &i[6];
            real64(v, 1e-2)
        },
        ecef_x_or_lat_hp: {
            let v = &i[7];
            real32(v, 1.0)
        },
        ecef_y_or_lon_hp: {
            let v = &i[8];
            real32(v, 1.0)
        },
        ecef_z_or_alt_hp: {
            let v = &i[9];
            real32(v, 1.0)
        },
        reserved2: {
            let v = &i[10];
            u8::read_le(v)
        },
        fixed_pos_acc: {
            let v = &i[11];
            real64(v, 1e-4)
        },
        sv_in_min_duration: {
            let v = &i[12];
            u32::read_le(v)
        },
        sv_in_accur_limit: {
            let v = &i[13];
            real64(v, 1e-4)
        },
        reserved3: {
            let v = &i[14];
            arr(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgPrtI2c(i: &[In]) -> CfgPrtI2cBuilder {
    CfgPrtI2cBuilder {
        portid: {
            let v = &i[0];
            match code(v, 0) {
                0 => I2cPortId::I2c,
                _ => unreachable!(),
            }
        },
        reserved1: {
            let v = &i[1];
            u8::read_le(v)
        },
        tx_ready: {
            let v = &i[2];
            u16::read_le(v)
        },
        mode: {
            let v = &i[3];
            u32::read_le(v)
        },
        reserved2: {
            let v = &i[4];
            u32::read_le(v)
        },
        in_proto_mask: {
            let v = &i[5];
            InProtoMask::from_bits_retain(u16::read_le(v))
        },
        out_proto_mask: {
            let v = &i[6];
            OutProtoMask::from_bits_retain(u16::read_le(v))
        },
        flags: {
            let v = &i[7];
            u16::read_le(v)
        },
        reserved3: {
            let v = &i[8];
            u16::read_le(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgPrtUart(i: &[In]) -> CfgPrtUartBuilder {
    CfgPrtUartBuilder {
        portid: {
            let v = &i[0];
            match code(v, 0) {
                1 => UartPortId::Uart1,
                2 => UartPortId::Uart2,
                3 => UartPortId::Usb,
                _ => unreachable!(),
            }
        },
        reserved0: {
            let v = &i[1];
            u8::read_le(v)
        },
        tx_ready: {
            let v = &i[2];
            u16::read_le(v)
        },
        mode: {
            let v = &i[3];
            UartMode::new(
                [DataBits::Seven, DataBits::Eight][code(v, 0)],
                [Parity::Even, Parity::Odd, Parity::None][code(v, 1)],
                [
                    StopBits::One,
                    StopBits::OneHalf,
                    StopBits::Two,
                    StopBits::Half,
                ][code(v, 2)],
            )
        },
        baud_rate: {
            let v = &i[4];
            u32::read_le(v)
        },
        in_proto_mask: {
            let v = &i[5];
            InProtoMask::from_bits_retain(u16::read_le(v))
        },
        out_proto_mask: {
            let v = &i[6];
            OutProtoMask::from_bits_retain(u16::read_le(v))
        },
        flags: {
            let v = &i[7];
            u16::read_le(v)
        },
        reserved5: {
            let v = &i[8];
            u16::read_le(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgPrtSpi(i: &[In]) -> CfgPrtSpiBuilder {
    CfgPrtSpiBuilder {
        portid: {
            let v = &i[0];
            match code(v, 0) {
                4 => SpiPortId::Spi,
                _ => unreachable!(),
            }
        },
        reserved0: {
            let v = &i[1];
            u8::read_le(v)
        },
        tx_ready: {
            let v = &i[2];
            u16::read_le(v)
        },
        mode: {
            let v = &i[3];
            u32::read_le(v)
        },
        reserved3: {
            let v = &i[4];
            u32::read_le(v)
        },
        in_proto_mask: {
            let v = &i[5];
            InProtoMask::from_bits_retain(u16::read_le(v))
        },
        out_proto_mask: {
            let v = &i[6];
            OutProtoMask::from_bits_retain(u16::read_le(v))
        },
        flags: {
            let v = &i[7];
            u16::read_le(v)
        },
        reserved5: {
            let v = &i[8];
            u16::read_le(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgRate(i: &[In]) -> CfgRateBuilder {
    CfgRateBuilder {
        measure_rate_ms: {
            let v = &i[0];
            u16::read_le(v)
        },
        nav_rate: {
            let v = &i[1];
            u16::read_le(v)
        },
        time_ref: {
            let v = &i[2];
            match code(v, 0) {
                0 => AlignmentToReferenceTime::Utc,
                1 => AlignmentToReferenceTime::Gps,
                2 => AlignmentToReferenceTime::Glo,
                3 => AlignmentToReferenceTime::Bds,
                _ => AlignmentToReferenceTime::Gal,
            }
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgMsgSinglePort(i: &[In]) -> CfgMsgSinglePortBuilder {
    CfgMsgSinglePortBuilder {
        msg_class: {
            let v = &i[0];
            u8::read_le(v)
        },
        msg_id: {
            let v = &i[1];
            u8::read_le(v)
        },
        rate: {
            let v = &i[2];
            u8::read_le(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgMsgAllPorts(i: &[In]) -> CfgMsgAllPortsBuilder {
    CfgMsgAllPortsBuilder {
        msg_class: {
            let v = &i[0];
            u8::read_le(v)
        },
        msg_id: {
            let v = &i[1];
            u8::read_le(v)
        },
        rates: {
            let v = &i[2];
            arr(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgNav5(i: &[In]) -> CfgNav5Builder {
    CfgNav5Builder {
        mask: {
            let v = &i[0];
            CfgNav5Params::from_bits_retain(u16::read_le(v))
        },
        dyn_model: {
            let v = &i[1];
            match code(v, 0) {
                0 => CfgNav5DynModel::Portable,
                2 => CfgNav5DynModel::Stationary,
                3 => CfgNav5DynModel::Pedestrian,
                4 => CfgNav5DynModel::Automotive,
                5 => CfgNav5DynModel::Sea,
                6 => CfgNav5DynModel::AirborneWithLess1gAcceleration,
                7 => CfgNav5DynModel::AirborneWithLess2gAcceleration,
                8 => CfgNav5DynModel::AirborneWith4gAcceleration,
                9 => CfgNav5DynModel::WristWornWatch,
                10 => CfgNav5DynModel::Bike,
                _ => unreachable!(),
            }
        },
        fix_mode: {
            let v = &i[2];
            match code(v, 0) {
                1 => CfgNav5FixMode::Only2D,
                2 => CfgNav5FixMode::Only3D,
                3 => CfgNav5FixMode::Auto2D3D,
                _ => unreachable!(),
            }
        },
        fixed_alt: {
            let v = &i[3];
            real64(v, 0.01)
        },
        fixed_alt_var: {
            let v = &i[4];
            real64(v, 0.0001)
        },
        min_elev_degrees: {
            let v = &i[5];
            i8::read_le(v)
        },
        dr_limit: {
            let v = &i[6];
            u8::read_le(v)
        },
        pdop: {
            let v = &i[7];
            real32(v, 0.1)
        },
        tdop: {
            let v = &i[8];
            real32(v, 0.1)
        },
        pacc: {
            let v = &i[9];
            u16::read_le(v)
        },
        tacc: {
            let v = &i[10];
            u16::read_le(v)
        },
        static_hold_thresh: {
            let v = &i[11];
            real32(v, 0.01)
        },
        dgps_time_out: {
            let v = &i[12];
            u8::read_le(v)
        },
        cno_thresh_num_svs: {
            let v = &i[13];
            u8::read_le(v)
        },
        cno_thresh: {
            let v = &i[14];
            u8::read_le(v)
        },
        reserved1: {
            let v = &i[15];
            arr(v)
        },
        static_hold_max_dist: {
            let v = &i[16];
            u16::read_le(v)
        },
        utc_standard: {
            let v = &i[17];
            match code(v, 0) {
                0 => CfgNav5UtcStandard::Automatic,
                3 => CfgNav5UtcStandard::Usno,
                6 => CfgNav5UtcStandard::UtcSu,
                7 => CfgNav5UtcStandard::UtcChina,
                _ => unreachable!(),
            }
        },
        reserved2: {
            let v = &i[18];
            arr(v)
        },
    }
}
#[allow(non_snake_case, unused_variables)]
fn mk_CfgNavX5(i: &[In]) -> CfgNavX5Builder {
    CfgNavX5Builder {
        version: {
            let v = &i[0];
            u16::read_le(v)
        },
        mask1: {
            let v = &i[1];
            CfgNavX5Params1::from_bits_retain(u16::read_le(v))
        },
        mask2: {
            let v = &i[2];
            CfgNavX5Params2::from_bits_retain(u32::read_le(v))
        },
        reserved1: {
            let v = &i[3];
            arr(v)
        },
        min_svs: {
            let v = &i[4];
            u8::read_le(v)
        },
        max_svs: {
            let v = &i[5];
            u8::read_le(v)
        },
        min_cno_dbhz: {
            let v = &i[6];
            u8::read_le(v)
        },
        reserved2: {
            let v = &i[7];
            u8::read_le(v)
        },
        ini_fix_3d: {
            let v = &i[8];
            u8::read_le(v)
        },
        reserved3: {
            let v = &i[9];
            arr(v)
        },
        ack_aiding: {
            let v = &i[10];
            u8::read_le(v)
        },
        wkn_rollover: {
            let v = &i[11];
            u16::read_le(v)
        },
        sig_atten_comp_mode: {
            let v = &i[12];
            u8::read_le(v)
        },
        reserved4: {
            let v = &i[13];
            u8::read_le(v)
        },
        reserved5: {
            let v = &i[14];
            arr(v)
        },
        reserved6: {
            let v = &i[15];
            arr(v)
        },
        use_ppp: {
            let v = &i[16];
            u8::read_le(v)
        },
        aop_cfg: {
            let v = &i[17];
            u8::read_le(v)
        },
        reserved7: {
            let v = &i[18];
            arr(v)
        },
        aop_orb_max_err: {
            let v = &i[19];
            u16::read_le(v)
        },
        reserved8: {
            let v = &i[20];
            arr(v)
        },
        reserved9: {
            let v = &i[21];
            arr(v)
        },
        use_adr: {
            let v = &i[22];
            u8::read_le(v)
        },
    }
}
pub fn build(name: &str, i: &[In], o: &mut Built) -> bool {
    match name {
        "NavResetOdo" => o.run(
            NavResetOdoBuilder::PACKET_LEN,
            || mk_NavResetOdo(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; NavResetOdoBuilder::PACKET_LEN] = mk_NavResetOdo(i).into();
                a.to_vec()
            },
            || mk_NavResetOdo(i),
        ),
        "CfgOdo" => o.run(
            CfgOdoBuilder::PACKET_LEN,
            || mk_CfgOdo(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgOdoBuilder::PACKET_LEN] = mk_CfgOdo(i).into();
                a.to_vec()
            },
            || mk_CfgOdo(i),
        ),
        "CfgItfm" => o.run(
            CfgItfmBuilder::PACKET_LEN,
            || mk_CfgItfm(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgItfmBuilder::PACKET_LEN] = mk_CfgItfm(i).into();
                a.to_vec()
            },
            || mk_CfgItfm(i),
        ),
        "CfgInf" => o.run(
            CfgInfBuilder::PACKET_LEN,
            || mk_CfgInf(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgInfBuilder::PACKET_LEN] = mk_CfgInf(i).into();
                a.to_vec()
            },
            || mk_CfgInf(i),
        ),
        "AidIni" => o.run(
            AidIniBuilder::PACKET_LEN,
            || mk_AidIni(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; AidIniBuilder::PACKET_LEN] = mk_AidIni(i).into();
                a.to_vec()
            },
            || mk_AidIni(i),
        ),
        "CfgRst" => o.run(
            CfgRstBuilder::PACKET_LEN,
            || mk_CfgRst(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgRstBuilder::PACKET_LEN] = mk_CfgRst(i).into();
                a.to_vec()
            },
            || mk_CfgRst(i),
        ),
        "CfgAnt" => o.run(
            CfgAntBuilder::PACKET_LEN,
            || mk_CfgAnt(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgAntBuilder::PACKET_LEN] = mk_CfgAnt(i).into();
                a.to_vec()
            },
            || mk_CfgAnt(i),
        ),
        "CfgTp5" => o.run(
            CfgTp5Builder::PACKET_LEN,
            || mk_CfgTp5(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgTp5Builder::PACKET_LEN] = mk_CfgTp5(i).into();
                a.to_vec()
            },
            || mk_CfgTp5(i),
        ),
        "CfgTmode2" => o.run(
            CfgTmode2Builder::PACKET_LEN,
            || mk_CfgTmode2(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgTmode2Builder::PACKET_LEN] = mk_CfgTmode2(i).into();
                a.to_vec()
            },
            || mk_CfgTmode2(i),
        ),
        "CfgTmode3" => o.run(
            CfgTmode3Builder::PACKET_LEN,
            || mk_CfgTmode3(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgTmode3Builder::PACKET_LEN] = mk_CfgTmode3(i).into();
                a.to_vec()
            },
            || mk_CfgTmode3(i),
        ),
        "CfgPrtI2c" => o.run(
            CfgPrtI2cBuilder::PACKET_LEN,
            || mk_CfgPrtI2c(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgPrtI2cBuilder::PACKET_LEN] = mk_CfgPrtI2c(i).into();
                a.to_vec()
            },
            || mk_CfgPrtI2c(i),
        ),
        "CfgPrtUart" => o.run(
            CfgPrtUartBuilder::PACKET_LEN,
            || mk_CfgPrtUart(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgPrtUartBuilder::PACKET_LEN] = mk_CfgPrtUart(i).into();
                a.to_vec()
            },
            || mk_CfgPrtUart(i),
        ),
        "CfgPrtSpi" => o.run(
            CfgPrtSpiBuilder::PACKET_LEN,
            || mk_CfgPrtSpi(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgPrtSpiBuilder::PACKET_LEN] = mk_CfgPrtSpi(i).into();
                a.to_vec()
            },
            || mk_CfgPrtSpi(i),
        ),
        "CfgRate" => o.run(
            CfgRateBuilder::PACKET_LEN,
            || mk_CfgRate(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgRateBuilder::PACKET_LEN] = mk_CfgRate(i).into();
                a.to_vec()
            },
            || mk_CfgRate(i),
        ),
        "CfgMsgSinglePort" => o.run(
            CfgMsgSinglePortBuilder::PACKET_LEN,
            || mk_CfgMsgSinglePort(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgMsgSinglePortBuilder::PACKET_LEN] = mk_CfgMsgSinglePort(i).into();
                a.to_vec()
            },
            || mk_CfgMsgSinglePort(i),
        ),
        "CfgMsgAllPorts" => o.run(
            CfgMsgAllPortsBuilder::PACKET_LEN,
            || mk_CfgMsgAllPorts(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgMsgAllPortsBuilder::PACKET_LEN] = mk_CfgMsgAllPorts(i).into();
                a.to_vec()
            },
            || mk_CfgMsgAllPorts(i),
        ),
        "CfgNav5" => o.run(
            CfgNav5Builder::PACKET_LEN,
            || mk_CfgNav5(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgNav5Builder::PACKET_LEN] = mk_CfgNav5(i).into();
                a.to_vec()
            },
            || mk_CfgNav5(i),
        ),
        "CfgNavX5" => o.run(
            CfgNavX5Builder::PACKET_LEN,
            || mk_CfgNavX5(i).into_packet_bytes().to_vec(),
            || {
                let a: [u8; CfgNavX5Builder::PACKET_LEN] = mk_CfgNavX5(i).into();
                a.to_vec()
            },
            || mk_CfgNavX5(i),
        ),
        _ => return false,
    }
    true
}
pub fn rebuild(p: &PacketRef<'_>) -> Vec<u8> {
    match p {
        PacketRef::CfgOdo(x) => CfgOdoBuilder {
            version: x.version(),
            reserved: arr_of(&x.reserved()),
            flags: x.flags(),
            odo_cfg: x.odo_cfg(),
            reserved2: arr_of(&x.reserved2()),
            cog_max_speed: x.cog_max_speed(),
            cog_max_pos_acc: x.cog_max_pos_acc(),
            reserved3: arr_of(&x.reserved3()),
            vel_lp_gain: x.vel_lp_gain(),
            cog_lp_gain: x.cog_lp_gain(),
            reserved4: arr_of(&x.reserved4()),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgItfm(x) => CfgItfmBuilder {
            config: x.config(),
            config2: x.config2(),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgAnt(x) => CfgAntBuilder {
            flags: x.flags(),
            pins: x.pins(),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgTp5(x) => CfgTp5Builder {
            tp_idx: x.tp_idx(),
            version: x.version(),
            reserved1: arr_of(&x.reserved1()),
            ant_cable_delay: x.ant_cable_delay(),
            rf_group_delay: x.rf_group_delay(),
            freq_period: x.freq_period(),
            freq_period_lock: x.freq_period_lock(),
            pulse_len_ratio: x.pulse_len_ratio(),
            pulse_len_ratio_lock: x.pulse_len_ratio_lock(),
            user_delay: x.user_delay(),
            flags: x.flags(),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgTmode2(x) => CfgTmode2Builder {
            time_transfer_mode: x.time_transfer_mode(),
            reserved1: x.reserved1(),
            flags: x.flags(),
            ecef_x_or_lat: x.ecef_x_or_lat(),
            ecef_y_or_lon: x.ecef_y_or_lon(),
            ecef_z_or_alt: x.ecef_z_or_alt(),
            fixed_pos_acc: x.fixed_pos_acc(),
            survey_in_min_duration: x.survey_in_min_duration(),
            survery_in_accur_limit: x.survery_in_accur_limit(),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgTmode3(x) => CfgTmode3Builder {
            version: x.version(),
            reserved1: x.reserved1(),
            rcvr_mode: x.rcvr_mode(),
            flags: x.flags(),
            ecef_x_or_lat: x.ecef_x_or_lat(),
            ecef_y_or_lon: x.ecef_y_or_lon(),
            ecef_z_or_alt: x.ecef_z_or_alt(),
            ecef_x_or_lat_hp: x.ecef_x_or_lat_hp(),
            ecef_y_or_lon_hp: x.ecef_y_or_lon_hp(),
            ecef_z_or_alt_hp: x.ecef_z_or_alt_hp(),
            reserved2: x.reserved2(),
            fixed_pos_acc: x.fixed_pos_acc(),
            sv_in_min_duration: x.sv_in_min_duration(),
            sv_in_accur_limit: x.sv_in_accur_limit(),
            reserved3: arr_of(&x.reserved3()),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgPrtI2c(x) => CfgPrtI2cBuilder {
            portid: x.portid(),
            reserved1: x.reserved1(),
            tx_ready: x.tx_ready(),
            mode: x.mode(),
            reserved2: x.reserved2(),
            in_proto_mask: x.in_proto_mask(),
            out_proto_mask: x.out_proto_mask(),
            flags: x.flags(),
            reserved3: x.reserved3(),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgPrtUart(x) => CfgPrtUartBuilder {
            portid: x.portid(),
            reserved0: x.reserved0(),
            tx_ready: x.tx_ready(),
            mode: x.mode(),
            baud_rate: x.baud_rate(),
            in_proto_mask: x.in_proto_mask(),
            out_proto_mask: x.out_proto_mask(),
            flags: x.flags(),
            reserved5: x.reserved5(),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgPrtSpi(x) => CfgPrtSpiBuilder {
            portid: x.portid(),
            reserved0: x.reserved0(),
            tx_ready: x.tx_ready(),
            mode: x.mode(),
            reserved3: x.reserved3(),
            in_proto_mask: x.in_proto_mask(),
            out_proto_mask: x.out_proto_mask(),
            flags: x.flags(),
            reserved5: x.reserved5(),
        }
        .into_packet_bytes()
        .to_vec(),
        PacketRef::CfgNav5(x) => CfgNav5Builder {
            mask: x.mask(),
            dyn_model: x.dyn_model(),
            fix_mode: x.fix_mode(),
            fixed_alt: x.fixed_alt(),
            fixed_alt_var: x.fixed_alt_var(),
            min_elev_degrees: x.min_elev_degrees(),
            dr_limit: x.dr_limit(),
            pdop: x.pdop(),
            tdop: x.tdop(),
            pacc: x.pacc(),
            tacc: x.tacc(),
            static_hold_thresh: x.static_hold_thresh(),
            dgps_time_out: x.dgps_time_out(),
            cno_thresh_num_svs: x.cno_thresh_num_svs(),
            cno_thresh: x.cno_thresh(),
            reserved1: arr_of(&x.reserved1()),
            static_hold_max_dist: x.static_hold_max_dist(),
            utc_standard: x.utc_standard(),
            reserved2: arr_of(&x.reserved2()),
        }
        .into_packet_bytes()
        .to_vec(),
        _ => vec![],
    }
}
pub fn defaults() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        (
            "CfgOdo",
            CfgOdoBuilder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgInf",
            CfgInfBuilder::default().into_packet_bytes().to_vec(),
        ),
        (
            "AidIni",
            AidIniBuilder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgTp5",
            CfgTp5Builder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgTmode2",
            CfgTmode2Builder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgTmode3",
            CfgTmode3Builder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgPrtI2c",
            CfgPrtI2cBuilder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgPrtSpi",
            CfgPrtSpiBuilder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgNav5",
            CfgNav5Builder::default().into_packet_bytes().to_vec(),
        ),
        (
            "CfgNavX5",
            CfgNavX5Builder::default().into_packet_bytes().to_vec(),
        ),
    ]
}
pub fn requests() -> Vec<(&'static str, u8, u8, Vec<u8>, Vec<u8>, Vec<u8>)> {
    vec![
        (
            "NavPosLlh",
            NavPosLlh::CLASS,
            NavPosLlh::ID,
            UbxPacketRequest::request_for::<NavPosLlh>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavPosLlh>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavPosLlh>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavVelNed",
            NavVelNed::CLASS,
            NavVelNed::ID,
            UbxPacketRequest::request_for::<NavVelNed>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavVelNed>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavVelNed>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavHpPosLlh",
            NavHpPosLlh::CLASS,
            NavHpPosLlh::ID,
            UbxPacketRequest::request_for::<NavHpPosLlh>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosLlh>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosLlh>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavHpPosEcef",
            NavHpPosEcef::CLASS,
            NavHpPosEcef::ID,
            UbxPacketRequest::request_for::<NavHpPosEcef>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosEcef>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosEcef>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavPvt",
            NavPvt::CLASS,
            NavPvt::ID,
            UbxPacketRequest::request_for::<NavPvt>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavPvt>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavStatus",
            NavStatus::CLASS,
            NavStatus::ID,
            UbxPacketRequest::request_for::<NavStatus>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavStatus>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavStatus>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavDop",
            NavDop::CLASS,
            NavDop::ID,
            UbxPacketRequest::request_for::<NavDop>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavDop>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavDop>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavEoe",
            NavEoe::CLASS,
            NavEoe::ID,
            UbxPacketRequest::request_for::<NavEoe>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavEoe>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavEoe>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavSolution",
            NavSolution::CLASS,
            NavSolution::ID,
            UbxPacketRequest::request_for::<NavSolution>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavSolution>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavSolution>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavSat",
            NavSat::CLASS,
            NavSat::ID,
            UbxPacketRequest::request_for::<NavSat>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavSat>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavSat>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavOdo",
            NavOdo::CLASS,
            NavOdo::ID,
            UbxPacketRequest::request_for::<NavOdo>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavOdo>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavOdo>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavResetOdo",
            NavResetOdo::CLASS,
            NavResetOdo::ID,
            UbxPacketRequest::request_for::<NavResetOdo>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavResetOdo>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavResetOdo>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgOdo",
            CfgOdo::CLASS,
            CfgOdo::ID,
            UbxPacketRequest::request_for::<CfgOdo>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgOdo>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgOdo>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgItfm",
            CfgItfm::CLASS,
            CfgItfm::ID,
            UbxPacketRequest::request_for::<CfgItfm>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgItfm>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgItfm>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgInf",
            CfgInf::CLASS,
            CfgInf::ID,
            UbxPacketRequest::request_for::<CfgInf>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgInf>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgInf>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "InfError",
            InfError::CLASS,
            InfError::ID,
            UbxPacketRequest::request_for::<InfError>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<InfError>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<InfError>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "InfNotice",
            InfNotice::CLASS,
            InfNotice::ID,
            UbxPacketRequest::request_for::<InfNotice>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<InfNotice>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<InfNotice>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "InfTest",
            InfTest::CLASS,
            InfTest::ID,
            UbxPacketRequest::request_for::<InfTest>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<InfTest>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<InfTest>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "InfWarning",
            InfWarning::CLASS,
            InfWarning::ID,
            UbxPacketRequest::request_for::<InfWarning>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<InfWarning>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<InfWarning>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "InfDebug",
            InfDebug::CLASS,
            InfDebug::ID,
            UbxPacketRequest::request_for::<InfDebug>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<InfDebug>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<InfDebug>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "AidIni",
            AidIni::CLASS,
            AidIni::ID,
            UbxPacketRequest::request_for::<AidIni>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<AidIni>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<AidIni>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "AlpSrv",
            AlpSrv::CLASS,
            AlpSrv::ID,
            UbxPacketRequest::request_for::<AlpSrv>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<AlpSrv>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<AlpSrv>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "AckAck",
            AckAck::CLASS,
            AckAck::ID,
            UbxPacketRequest::request_for::<AckAck>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<AckAck>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<AckAck>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "AckNak",
            AckNak::CLASS,
            AckNak::ID,
            UbxPacketRequest::request_for::<AckNak>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<AckNak>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<AckNak>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgRst",
            CfgRst::CLASS,
            CfgRst::ID,
            UbxPacketRequest::request_for::<CfgRst>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgRst>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgRst>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgAnt",
            CfgAnt::CLASS,
            CfgAnt::ID,
            UbxPacketRequest::request_for::<CfgAnt>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgAnt>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgAnt>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgTp5",
            CfgTp5::CLASS,
            CfgTp5::ID,
            UbxPacketRequest::request_for::<CfgTp5>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgTp5>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgTp5>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgTmode2",
            CfgTmode2::CLASS,
            CfgTmode2::ID,
            UbxPacketRequest::request_for::<CfgTmode2>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode2>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode2>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "TimSvin",
            TimSvin::CLASS,
            TimSvin::ID,
            UbxPacketRequest::request_for::<TimSvin>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<TimSvin>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<TimSvin>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavTimeLs",
            NavTimeLs::CLASS,
            NavTimeLs::ID,
            UbxPacketRequest::request_for::<NavTimeLs>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavTimeLs>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavTimeLs>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgTmode3",
            CfgTmode3::CLASS,
            CfgTmode3::ID,
            UbxPacketRequest::request_for::<CfgTmode3>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode3>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode3>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgValSet",
            CfgValSet::CLASS,
            CfgValSet::ID,
            UbxPacketRequest::request_for::<CfgValSet>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgValSet>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgValSet>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgPrtI2c",
            CfgPrtI2c::CLASS,
            CfgPrtI2c::ID,
            UbxPacketRequest::request_for::<CfgPrtI2c>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtI2c>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtI2c>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgPrtUart",
            CfgPrtUart::CLASS,
            CfgPrtUart::ID,
            UbxPacketRequest::request_for::<CfgPrtUart>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtUart>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtUart>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgPrtSpi",
            CfgPrtSpi::CLASS,
            CfgPrtSpi::ID,
            UbxPacketRequest::request_for::<CfgPrtSpi>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtSpi>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtSpi>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavTimeUTC",
            NavTimeUTC::CLASS,
            NavTimeUTC::ID,
            UbxPacketRequest::request_for::<NavTimeUTC>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavTimeUTC>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavTimeUTC>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgRate",
            CfgRate::CLASS,
            CfgRate::ID,
            UbxPacketRequest::request_for::<CfgRate>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgRate>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgRate>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgMsgSinglePort",
            CfgMsgSinglePort::CLASS,
            CfgMsgSinglePort::ID,
            UbxPacketRequest::request_for::<CfgMsgSinglePort>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgSinglePort>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgSinglePort>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgMsgAllPorts",
            CfgMsgAllPorts::CLASS,
            CfgMsgAllPorts::ID,
            UbxPacketRequest::request_for::<CfgMsgAllPorts>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgAllPorts>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgAllPorts>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgNav5",
            CfgNav5::CLASS,
            CfgNav5::ID,
            UbxPacketRequest::request_for::<CfgNav5>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgNav5>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgNav5>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "CfgNavX5",
            CfgNavX5::CLASS,
            CfgNavX5::ID,
            UbxPacketRequest::request_for::<CfgNavX5>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<CfgNavX5>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<CfgNavX5>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MgaAck",
            MgaAck::CLASS,
            MgaAck::ID,
            UbxPacketRequest::request_for::<MgaAck>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MgaAck>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MgaAck>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MgaGloEph",
            MgaGloEph::CLASS,
            MgaGloEph::ID,
            UbxPacketRequest::request_for::<MgaGloEph>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MgaGloEph>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MgaGloEph>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MgaGpsIono",
            MgaGpsIono::CLASS,
            MgaGpsIono::ID,
            UbxPacketRequest::request_for::<MgaGpsIono>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsIono>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsIono>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MgaGpsEph",
            MgaGpsEph::CLASS,
            MgaGpsEph::ID,
            UbxPacketRequest::request_for::<MgaGpsEph>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEph>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEph>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "TimTp",
            TimTp::CLASS,
            TimTp::ID,
            UbxPacketRequest::request_for::<TimTp>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<TimTp>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<TimTp>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "TimTm2",
            TimTm2::CLASS,
            TimTm2::ID,
            UbxPacketRequest::request_for::<TimTm2>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<TimTm2>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<TimTm2>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "RxmRawx",
            RxmRawx::CLASS,
            RxmRawx::ID,
            UbxPacketRequest::request_for::<RxmRawx>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<RxmRawx>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<RxmRawx>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MonHw",
            MonHw::CLASS,
            MonHw::ID,
            UbxPacketRequest::request_for::<MonHw>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MonHw>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MonHw>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MonGnss",
            MonGnss::CLASS,
            MonGnss::ID,
            UbxPacketRequest::request_for::<MonGnss>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MonGnss>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MonGnss>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MonVer",
            MonVer::CLASS,
            MonVer::ID,
            UbxPacketRequest::request_for::<MonVer>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MonVer>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MonVer>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "RxmRtcm",
            RxmRtcm::CLASS,
            RxmRtcm::ID,
            UbxPacketRequest::request_for::<RxmRtcm>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<RxmRtcm>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<RxmRtcm>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "EsfMeas",
            EsfMeas::CLASS,
            EsfMeas::ID,
            UbxPacketRequest::request_for::<EsfMeas>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<EsfMeas>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<EsfMeas>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "EsfRaw",
            EsfRaw::CLASS,
            EsfRaw::ID,
            UbxPacketRequest::request_for::<EsfRaw>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<EsfRaw>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<EsfRaw>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "EsfIns",
            EsfIns::CLASS,
            EsfIns::ID,
            UbxPacketRequest::request_for::<EsfIns>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<EsfIns>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<EsfIns>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "HnrAtt",
            HnrAtt::CLASS,
            HnrAtt::ID,
            UbxPacketRequest::request_for::<HnrAtt>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<HnrAtt>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<HnrAtt>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "HnrIns",
            HnrIns::CLASS,
            HnrIns::ID,
            UbxPacketRequest::request_for::<HnrIns>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<HnrIns>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<HnrIns>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "HnrPvt",
            HnrPvt::CLASS,
            HnrPvt::ID,
            UbxPacketRequest::request_for::<HnrPvt>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<HnrPvt>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<HnrPvt>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavAtt",
            NavAtt::CLASS,
            NavAtt::ID,
            UbxPacketRequest::request_for::<NavAtt>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavAtt>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavAtt>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavClock",
            NavClock::CLASS,
            NavClock::ID,
            UbxPacketRequest::request_for::<NavClock>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavClock>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavClock>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "RxmSfrbx",
            RxmSfrbx::CLASS,
            RxmSfrbx::ID,
            UbxPacketRequest::request_for::<RxmSfrbx>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<RxmSfrbx>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<RxmSfrbx>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "NavVelECEF",
            NavVelECEF::CLASS,
            NavVelECEF::ID,
            UbxPacketRequest::request_for::<NavVelECEF>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<NavVelECEF>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<NavVelECEF>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "MgaGpsEPH",
            MgaGpsEPH::CLASS,
            MgaGpsEPH::ID,
            UbxPacketRequest::request_for::<MgaGpsEPH>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEPH>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEPH>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
        (
            "SecUniqId",
            SecUniqId::CLASS,
            SecUniqId::ID,
            UbxPacketRequest::request_for::<SecUniqId>()
                .into_packet_bytes()
                .to_vec(),
            CfgMsgSinglePortBuilder::set_rate_for::<SecUniqId>(RATE)
                .into_packet_bytes()
                .to_vec(),
            CfgMsgAllPortsBuilder::set_rate_for::<SecUniqId>(RATES)
                .into_packet_bytes()
                .to_vec(),
        ),
    ]
}
pub fn acks(p: &PacketRef<'_>) -> Vec<(&'static str, bool)> {
    match p {
        PacketRef::AckAck(a) => vec![
            ("NavPosLlh", a.is_ack_for::<NavPosLlh>()),
            ("NavVelNed", a.is_ack_for::<NavVelNed>()),
            ("NavHpPosLlh", a.is_ack_for::<NavHpPosLlh>()),
            ("NavHpPosEcef", a.is_ack_for::<NavHpPosEcef>()),
            ("NavPvt", a.is_ack_for::<NavPvt>()),
            ("NavStatus", a.is_ack_for::<NavStatus>()),
            ("NavDop", a.is_ack_for::<NavDop>()),
            ("NavEoe", a.is_ack_for::<NavEoe>()),
            ("NavSolution", a.is_ack_for::<NavSolution>()),
            ("NavSat", a.is_ack_for::<NavSat>()),
            ("NavOdo", a.is_ack_for::<NavOdo>()),
            ("NavResetOdo", a.is_ack_for::<NavResetOdo>()),
            ("CfgOdo", a.is_ack_for::<CfgOdo>()),
            ("CfgItfm", a.is_ack_for::<CfgItfm>()),
            ("CfgInf", a.is_ack_for::<CfgInf>()),
            ("InfError", a.is_ack_for::<InfError>()),
            ("InfNotice", a.is_ack_for::<InfNotice>()),
            ("InfTest", a.is_ack_for::<InfTest>()),
            ("InfWarning", a.is_ack_for::<InfWarning>()),
            ("InfDebug", a.is_ack_for::<InfDebug>()),
            ("AidIni", a.is_ack_for::<AidIni>()),
            ("AlpSrv", a.is_ack_for::<AlpSrv>()),
            ("AckAck", a.is_ack_for::<AckAck>()),
            ("AckNak", a.is_ack_for::<AckNak>()),
            ("CfgRst", a.is_ack_for::<CfgRst>()),
            ("CfgAnt", a.is_ack_for::<CfgAnt>()),
            ("CfgTp5", a.is_ack_for::<CfgTp5>()),
            ("CfgTmode2", a.is_ack_for::<CfgTmode2>()),
            ("TimSvin", a.is_ack_for::<TimSvin>()),
            ("NavTimeLs", a.is_ack_for::<NavTimeLs>()),
            ("CfgTmode3", a.is_ack_for::<CfgTmode3>()),
            ("CfgValSet", a.is_ack_for::<CfgValSet>()),
            ("CfgPrtI2c", a.is_ack_for::<CfgPrtI2c>()),
            ("CfgPrtUart", a.is_ack_for::<CfgPrtUart>()),
            ("CfgPrtSpi", a.is_ack_for::<CfgPrtSpi>()),
            ("NavTimeUTC", a.is_ack_for::<NavTimeUTC>()),
            ("CfgRate", a.is_ack_for::<CfgRate>()),
            ("CfgMsgSinglePort", a.is_ack_for::<CfgMsgSinglePort>()),
            ("CfgMsgAllPorts", a.is_ack_for::<CfgMsgAllPorts>()),
            ("CfgNav5", a.is_ack_for::<CfgNav5>()),
            ("CfgNavX5", a.is_ack_for::<CfgNavX5>()),
            ("MgaAck", a.is_ack_for::<MgaAck>()),
            ("MgaGloEph", a.is_ack_for::<MgaGloEph>()),
            ("MgaGpsIono", a.is_ack_for::<MgaGpsIono>()),
            ("MgaGpsEph", a.is_ack_for::<MgaGpsEph>()),
            ("TimTp", a.is_ack_for::<TimTp>()),
            ("TimTm2", a.is_ack_for::<TimTm2>()),
            ("RxmRawx", a.is_ack_for::<RxmRawx>()),
            ("MonHw", a.is_ack_for::<MonHw>()),
            ("MonGnss", a.is_ack_for::<MonGnss>()),
            ("MonVer", a.is_ack_for::<MonVer>()),
            ("RxmRtcm", a.is_ack_for::<RxmRtcm>()),
            ("EsfMeas", a.is_ack_for::<EsfMeas>()),
            ("EsfRaw", a.is_ack_for::<EsfRaw>()),
            ("EsfIns", a.is_ack_for::<EsfIns>()),
            ("HnrAtt", a.is_ack_for::<HnrAtt>()),
            ("HnrIns", a.is_ack_for::<HnrIns>()),
            ("HnrPvt", a.is_ack_for::<HnrPvt>()),
            ("NavAtt", a.is_ack_for::<NavAtt>()),
            ("NavClock", a.is_ack_for::<NavClock>()),
            ("RxmSfrbx", a.is_ack_for::<RxmSfrbx>()),
            ("NavVelECEF", a.is_ack_for::<NavVelECEF>()),
            ("MgaGpsEPH", a.is_ack_for::<MgaGpsEPH>()),
            ("SecUniqId", a.is_ack_for::<SecUniqId>()),
        ],
        PacketRef::AckNak(a) => vec![
            ("NavPosLlh", a.is_nak_for::<NavPosLlh>()),
            ("NavVelNed", a.is_nak_for::<NavVelNed>()),
            ("NavHpPosLlh", a.is_nak_for::<NavHpPosLlh>()),
            ("NavHpPosEcef", a.is_nak_for::<NavHpPosEcef>()),
            ("NavPvt", a.is_nak_for::<NavPvt>()),
            ("NavStatus", a.is_nak_for::<NavStatus>()),
            ("NavDop", a.is_nak_for::<NavDop>()),
            ("NavEoe", a.is_nak_for::<NavEoe>()),
            ("NavSolution", a.is_nak_for::<NavSolution>()),
            ("NavSat", a.is_nak_for::<NavSat>()),
            ("NavOdo", a.is_nak_for::<NavOdo>()),
            ("NavResetOdo", a.is_nak_for::<NavResetOdo>()),
            ("CfgOdo", a.is_nak_for::<CfgOdo>()),
            ("CfgItfm", a.is_nak_for::<CfgItfm>()),
            ("CfgInf", a.is_nak_for::<CfgInf>()),
            ("InfError", a.is_nak_for::<InfError>()),
            ("InfNotice", a.is_nak_for::<InfNotice>()),
            ("InfTest", a.is_nak_for::<InfTest>()),
            ("InfWarning", a.is_nak_for::<InfWarning>()),
            ("InfDebug", a.is_nak_for::<InfDebug>()),
            ("AidIni", a.is_nak_for::<AidIni>()),
            ("AlpSrv", a.is_nak_for::<AlpSrv>()),
            ("AckAck", a.is_nak_for::<AckAck>()),
            ("AckNak", a.is_nak_for::<AckNak>()),
            ("CfgRst", a.is_nak_for::<CfgRst>()),
            ("CfgAnt", a.is_nak_for::<CfgAnt>()),
            ("CfgTp5", a.is_nak_for::<CfgTp5>()),
            ("CfgTmode2", a.is_nak_for::<CfgTmode2>()),
            ("TimSvin", a.is_nak_for::<TimSvin>()),
            ("NavTimeLs", a.is_nak_for::<NavTimeLs>()),
            ("CfgTmode3", a.is_nak_for::<CfgTmode3>()),
            ("CfgValSet", a.is_nak_for::<CfgValSet>()),
            ("CfgPrtI2c", a.is_nak_for::<CfgPrtI2c>()),
            ("CfgPrtUart", a.is_nak_for::<CfgPrtUart>()),
            ("CfgPrtSpi", a.is_nak_for::<CfgPrtSpi>()),
            ("NavTimeUTC", a.is_nak_for::<NavTimeUTC>()),
            ("CfgRate", a.is_nak_for::<CfgRate>()),
            ("CfgMsgSinglePort", a.is_nak_for::<CfgMsgSinglePort>()),
            ("CfgMsgAllPorts", a.is_nak_for::<CfgMsgAllPorts>()),
            ("CfgNav5", a.is_nak_for::<CfgNav5>()),
            ("CfgNavX5", a.is_nak_for::<CfgNavX5>()),
            ("MgaAck", a.is_nak_for::<MgaAck>()),
            ("MgaGloEph", a.is_nak_for::<MgaGloEph>()),
            ("MgaGpsIono", a.is_nak_for::<MgaGpsIono>()),
            ("MgaGpsEph", a.is_nak_for::<MgaGpsEph>()),
            ("TimTp", a.is_nak_for::<TimTp>()),
            ("TimTm2", a.is_nak_for::<TimTm2>()),
            ("RxmRawx", a.is_nak_for::<RxmRawx>()),
            ("MonHw", a.is_nak_for::<MonHw>()),
            ("MonGnss", a.is_nak_for::<MonGnss>()),
            ("MonVer", a.is_nak_for::<MonVer>()),
            ("RxmRtcm", a.is_nak_for::<RxmRtcm>()),
            ("EsfMeas", a.is_nak_for::<EsfMeas>()),
            ("EsfRaw", a.is_nak_for::<EsfRaw>()),
            ("EsfIns", a.is_nak_for::<EsfIns>()),
            ("HnrAtt", a.is_nak_for::<HnrAtt>()),
            ("HnrIns", a.is_nak_for::<HnrIns>()),
            ("HnrPvt", a.is_nak_for::<HnrPvt>()),
            ("NavAtt", a.is_nak_for::<NavAtt>()),
            ("NavClock", a.is_nak_for::<NavClock>()),
            ("RxmSfrbx", a.is_nak_for::<RxmSfrbx>()),
            ("NavVelECEF", a.is_nak_for::<NavVelECEF>()),
            ("MgaGpsEPH", a.is_nak_for::<MgaGpsEPH>()),
            ("SecUniqId", a.is_nak_for::<SecUniqId>()),
        ],
        _ => vec![],
    }
}
