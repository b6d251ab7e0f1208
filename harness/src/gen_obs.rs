// Generated by tools/gen_harness.py from spec/UbxCatalogue.tla
use crate::obs::*;
use ublox::*;

#[allow(non_snake_case, unused_variables)]
pub fn obs_NavPosLlh(x: &NavPosLlhRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.scaled("lon_degrees", || x.lon_degrees(), 1e-7f64, 4);
    o.plain("lon_degrees_raw", || x.lon_degrees_raw());
    o.scaled("lat_degrees", || x.lat_degrees(), 1e-7f64, 4);
    o.plain("lat_degrees_raw", || x.lat_degrees_raw());
    o.scaled("height_meters", || x.height_meters(), 1e-3f64, 4);
    o.plain("height_meters_raw", || x.height_meters_raw());
    o.scaled("height_msl", || x.height_msl(), 1e-3f64, 4);
    o.plain("height_msl_raw", || x.height_msl_raw());
    o.scaled("h_ack", || x.h_ack(), 1e-3f64, 4);
    o.plain("h_ack_raw", || x.h_ack_raw());
    o.scaled("v_acc", || x.v_acc(), 1e-3f64, 4);
    o.plain("v_acc_raw", || x.v_acc_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavVelNed(x: &NavVelNedRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.scaled("vel_north", || x.vel_north(), 1e-2f64, 4);
    o.plain("vel_north_raw", || x.vel_north_raw());
    o.scaled("vel_east", || x.vel_east(), 1e-2f64, 4);
    o.plain("vel_east_raw", || x.vel_east_raw());
    o.scaled("vel_down", || x.vel_down(), 1e-2f64, 4);
    o.plain("vel_down_raw", || x.vel_down_raw());
    o.scaled("speed_3d", || x.speed_3d(), 1e-2f64, 4);
    o.plain("speed_3d_raw", || x.speed_3d_raw());
    o.scaled("ground_speed", || x.ground_speed(), 1e-2f64, 4);
    o.plain("ground_speed_raw", || x.ground_speed_raw());
    o.scaled("heading_degrees", || x.heading_degrees(), 1e-5f64, 4);
    o.plain("heading_degrees_raw", || x.heading_degrees_raw());
    o.scaled(
        "speed_accuracy_estimate",
        || x.speed_accuracy_estimate(),
        1e-2f64,
        4,
    );
    o.plain("speed_accuracy_estimate_raw", || {
        x.speed_accuracy_estimate_raw()
    });
    o.scaled(
        "course_heading_accuracy_estimate",
        || x.course_heading_accuracy_estimate(),
        1e-5f64,
        4,
    );
    o.plain("course_heading_accuracy_estimate_raw", || {
        x.course_heading_accuracy_estimate_raw()
    });
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavHpPosLlh(x: &NavHpPosLlhRef<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.plain("itow", || x.itow());
    o.scaled("lon_degrees", || x.lon_degrees(), 1e-7f64, 4);
    o.plain("lon_degrees_raw", || x.lon_degrees_raw());
    o.scaled("lat_degrees", || x.lat_degrees(), 1e-7f64, 4);
    o.plain("lat_degrees_raw", || x.lat_degrees_raw());
    o.scaled("height_meters", || x.height_meters(), 1e-3f64, 4);
    o.plain("height_meters_raw", || x.height_meters_raw());
    o.scaled("height_msl", || x.height_msl(), 1e-3f64, 4);
    o.plain("height_msl_raw", || x.height_msl_raw());
    o.scaled("lon_hp_degrees", || x.lon_hp_degrees(), 1e-9f64, 1);
    o.plain("lon_hp_degrees_raw", || x.lon_hp_degrees_raw());
    o.scaled("lat_hp_degrees", || x.lat_hp_degrees(), 1e-9f64, 1);
    o.plain("lat_hp_degrees_raw", || x.lat_hp_degrees_raw());
    o.scaled("height_hp_meters", || x.height_hp_meters(), 1e-1f64, 1);
    o.plain("height_hp_meters_raw", || x.height_hp_meters_raw());
    o.scaled("height_hp_msl", || x.height_hp_msl(), 1e-1f64, 1);
    o.plain("height_hp_msl_raw", || x.height_hp_msl_raw());
    o.scaled(
        "horizontal_accuracy",
        || x.horizontal_accuracy(),
        1e-1f64,
        4,
    );
    o.plain("horizontal_accuracy_raw", || x.horizontal_accuracy_raw());
    o.scaled("vertical_accuracy", || x.vertical_accuracy(), 1e-1f64, 4);
    o.plain("vertical_accuracy_raw", || x.vertical_accuracy_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavHpPosEcef(x: &NavHpPosEcefRef<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.plain("itow", || x.itow());
    o.scaled("ecef_x_cm", || x.ecef_x_cm(), 1.0f64, 4);
    o.plain("ecef_x_cm_raw", || x.ecef_x_cm_raw());
    o.scaled("ecef_y_cm", || x.ecef_y_cm(), 1.0f64, 4);
    o.plain("ecef_y_cm_raw", || x.ecef_y_cm_raw());
    o.scaled("ecef_z_cm", || x.ecef_z_cm(), 1.0f64, 4);
    o.plain("ecef_z_cm_raw", || x.ecef_z_cm_raw());
    o.scaled("ecef_x_hp_mm", || x.ecef_x_hp_mm(), 1e-1f64, 1);
    o.plain("ecef_x_hp_mm_raw", || x.ecef_x_hp_mm_raw());
    o.scaled("ecef_y_hp_mm", || x.ecef_y_hp_mm(), 1e-1f64, 1);
    o.plain("ecef_y_hp_mm_raw", || x.ecef_y_hp_mm_raw());
    o.scaled("ecef_z_hp_mm", || x.ecef_z_hp_mm(), 1e-1f64, 1);
    o.plain("ecef_z_hp_mm_raw", || x.ecef_z_hp_mm_raw());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.scaled("p_acc", || x.p_acc(), 1e-1f64, 4);
    o.plain("p_acc_raw", || x.p_acc_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavPvt(x: &NavPvtRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("year", || x.year());
    o.plain("month", || x.month());
    o.plain("day", || x.day());
    o.plain("hour", || x.hour());
    o.plain("min", || x.min());
    o.plain("sec", || x.sec());
    o.plain("valid", || x.valid());
    o.plain("time_accuracy", || x.time_accuracy());
    o.plain("nanosecond", || x.nanosecond());
    o.coded("fix_type", || {
        let v = x.fix_type();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("fix_type_raw", || x.fix_type_raw());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.flags("flags2", || {
        let v = x.flags2();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags2_raw", || x.flags2_raw());
    o.plain("num_satellites", || x.num_satellites());
    o.scaled("lon_degrees", || x.lon_degrees(), 1e-7f64, 4);
    o.plain("lon_degrees_raw", || x.lon_degrees_raw());
    o.scaled("lat_degrees", || x.lat_degrees(), 1e-7f64, 4);
    o.plain("lat_degrees_raw", || x.lat_degrees_raw());
    o.scaled("height_meters", || x.height_meters(), 1e-3f64, 4);
    o.plain("height_meters_raw", || x.height_meters_raw());
    o.scaled("height_msl", || x.height_msl(), 1e-3f64, 4);
    o.plain("height_msl_raw", || x.height_msl_raw());
    o.plain("horiz_accuracy", || x.horiz_accuracy());
    o.plain("vert_accuracy", || x.vert_accuracy());
    o.scaled("vel_north", || x.vel_north(), 1e-3f64, 4);
    o.plain("vel_north_raw", || x.vel_north_raw());
    o.scaled("vel_east", || x.vel_east(), 1e-3f64, 4);
    o.plain("vel_east_raw", || x.vel_east_raw());
    o.scaled("vel_down", || x.vel_down(), 1e-3f64, 4);
    o.plain("vel_down_raw", || x.vel_down_raw());
    o.scaled("ground_speed", || x.ground_speed(), 1e-3f64, 4);
    o.plain("ground_speed_raw", || x.ground_speed_raw());
    o.scaled("heading_degrees", || x.heading_degrees(), 1e-5f64, 4);
    o.plain("heading_degrees_raw", || x.heading_degrees_raw());
    o.scaled(
        "speed_accuracy_estimate",
        || x.speed_accuracy_estimate(),
        1e-3f64,
        4,
    );
    o.plain("speed_accuracy_estimate_raw", || {
        x.speed_accuracy_estimate_raw()
    });
    o.scaled(
        "heading_accuracy_estimate",
        || x.heading_accuracy_estimate(),
        1e-5f64,
        4,
    );
    o.plain("heading_accuracy_estimate_raw", || {
        x.heading_accuracy_estimate_raw()
    });
    o.plain("pdop", || x.pdop());
    o.plain("reserved1", || x.reserved1());
    o.scaled(
        "heading_of_vehicle_degrees",
        || x.heading_of_vehicle_degrees(),
        1e-5f64,
        4,
    );
    o.plain("heading_of_vehicle_degrees_raw", || {
        x.heading_of_vehicle_degrees_raw()
    });
    o.scaled(
        "magnetic_declination_degrees",
        || x.magnetic_declination_degrees(),
        1e-2f64,
        2,
    );
    o.plain("magnetic_declination_degrees_raw", || {
        x.magnetic_declination_degrees_raw()
    });
    o.scaled(
        "magnetic_declination_accuracy_degrees",
        || x.magnetic_declination_accuracy_degrees(),
        1e-2f64,
        2,
    );
    o.plain("magnetic_declination_accuracy_degrees_raw", || {
        x.magnetic_declination_accuracy_degrees_raw()
    });
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavStatus(x: &NavStatusRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.coded("fix_type", || {
        let v = x.fix_type();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("fix_type_raw", || x.fix_type_raw());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.subs("fix_stat", || {
        let v = x.fix_stat();
        (
            short_type(&v),
            vec![
                (
                    "has_pr_prr_correction",
                    format!("{:?}", v.has_pr_prr_correction()),
                ),
                ("map_matching", format!("{:?}", v.map_matching())),
            ],
        )
    });
    o.plain("fix_stat_raw", || x.fix_stat_raw());
    o.coded("flags2", || {
        let v = x.flags2();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("flags2_raw", || x.flags2_raw());
    o.plain("time_to_first_fix", || x.time_to_first_fix());
    o.plain("uptime_ms", || x.uptime_ms());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavDop(x: &NavDopRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.scaled("geometric_dop", || x.geometric_dop(), 1e-2f64, 2);
    o.plain("geometric_dop_raw", || x.geometric_dop_raw());
    o.scaled("position_dop", || x.position_dop(), 1e-2f64, 2);
    o.plain("position_dop_raw", || x.position_dop_raw());
    o.scaled("time_dop", || x.time_dop(), 1e-2f64, 2);
    o.plain("time_dop_raw", || x.time_dop_raw());
    o.scaled("vertical_dop", || x.vertical_dop(), 1e-2f64, 2);
    o.plain("vertical_dop_raw", || x.vertical_dop_raw());
    o.scaled("horizontal_dop", || x.horizontal_dop(), 1e-2f64, 2);
    o.plain("horizontal_dop_raw", || x.horizontal_dop_raw());
    o.scaled("northing_dop", || x.northing_dop(), 1e-2f64, 2);
    o.plain("northing_dop_raw", || x.northing_dop_raw());
    o.scaled("easting_dop", || x.easting_dop(), 1e-2f64, 2);
    o.plain("easting_dop_raw", || x.easting_dop_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavEoe(x: &NavEoeRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavSolution(x: &NavSolutionRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("ftow_ns", || x.ftow_ns());
    o.plain("week", || x.week());
    o.coded("fix_type", || {
        let v = x.fix_type();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("fix_type_raw", || x.fix_type_raw());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.scaled("ecef_x", || x.ecef_x(), 1e-2f64, 4);
    o.plain("ecef_x_raw", || x.ecef_x_raw());
    o.scaled("ecef_y", || x.ecef_y(), 1e-2f64, 4);
    o.plain("ecef_y_raw", || x.ecef_y_raw());
    o.scaled("ecef_z", || x.ecef_z(), 1e-2f64, 4);
    o.plain("ecef_z_raw", || x.ecef_z_raw());
    o.scaled(
        "position_accuracy_estimate",
        || x.position_accuracy_estimate(),
        1e-2f64,
        4,
    );
    o.plain("position_accuracy_estimate_raw", || {
        x.position_accuracy_estimate_raw()
    });
    o.scaled("ecef_vx", || x.ecef_vx(), 1e-2f64, 4);
    o.plain("ecef_vx_raw", || x.ecef_vx_raw());
    o.scaled("ecef_vy", || x.ecef_vy(), 1e-2f64, 4);
    o.plain("ecef_vy_raw", || x.ecef_vy_raw());
    o.scaled("ecef_vz", || x.ecef_vz(), 1e-2f64, 4);
    o.plain("ecef_vz_raw", || x.ecef_vz_raw());
    o.scaled(
        "speed_accuracy_estimate",
        || x.speed_accuracy_estimate(),
        1e-2f64,
        4,
    );
    o.plain("speed_accuracy_estimate_raw", || {
        x.speed_accuracy_estimate_raw()
    });
    o.scaled("pdop", || x.pdop(), 1e-2f64, 2);
    o.plain("pdop_raw", || x.pdop_raw());
    o.plain("reserved1", || x.reserved1());
    o.plain("num_sv", || x.num_sv());
    o.plain("reserved2", || x.reserved2());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavSat(x: &NavSatRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("version", || x.version());
    o.plain("num_svs", || x.num_svs());
    o.plain("reserved", || x.reserved());
    o.iter("svs", || x.svs(), |v, o| obs_NavSatSvInfo(&v, o));
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavOdo(x: &NavOdoRef<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.plain("reserved", || x.reserved());
    o.plain("itow", || x.itow());
    o.plain("distance", || x.distance());
    o.plain("total_distance", || x.total_distance());
    o.plain("distance_std", || x.distance_std());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgOdo(x: &CfgOdoRef<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.plain("reserved", || x.reserved());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.coded("odo_cfg", || {
        let v = x.odo_cfg();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("odo_cfg_raw", || x.odo_cfg_raw());
    o.plain("reserved2", || x.reserved2());
    o.plain("cog_max_speed", || x.cog_max_speed());
    o.plain("cog_max_pos_acc", || x.cog_max_pos_acc());
    o.plain("reserved3", || x.reserved3());
    o.plain("vel_lp_gain", || x.vel_lp_gain());
    o.plain("cog_lp_gain", || x.cog_lp_gain());
    o.plain("reserved4", || x.reserved4());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgItfm(x: &CfgItfmRef<'_>, o: &mut Obs) {
    o.word("config", || x.config());
    o.plain("config_raw", || x.config_raw());
    o.word("config2", || x.config2());
    o.plain("config2_raw", || x.config2_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_InfError(x: &InfErrorRef<'_>, o: &mut Obs) {
    o.opt("message", || x.message().map(|s| s.as_bytes().to_vec()));
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_InfNotice(x: &InfNoticeRef<'_>, o: &mut Obs) {
    o.opt("message", || x.message().map(|s| s.as_bytes().to_vec()));
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_InfTest(x: &InfTestRef<'_>, o: &mut Obs) {
    o.opt("message", || x.message().map(|s| s.as_bytes().to_vec()));
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_InfWarning(x: &InfWarningRef<'_>, o: &mut Obs) {
    o.opt("message", || x.message().map(|s| s.as_bytes().to_vec()));
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_InfDebug(x: &InfDebugRef<'_>, o: &mut Obs) {
    o.opt("message", || x.message().map(|s| s.as_bytes().to_vec()));
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_AlpSrv(x: &AlpSrvRef<'_>, o: &mut Obs) {
    o.plain("id_size", || x.id_size());
    o.plain("data_type", || x.data_type());
    o.plain("offset", || x.offset());
    o.plain("size", || x.size());
    o.plain("file_id", || x.file_id());
    o.plain("data_size", || x.data_size());
    o.plain("id1", || x.id1());
    o.plain("id2", || x.id2());
    o.plain("id3", || x.id3());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_AckAck(x: &AckAckRef<'_>, o: &mut Obs) {
    o.plain("class", || x.class());
    o.plain("msg_id", || x.msg_id());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_AckNak(x: &AckNakRef<'_>, o: &mut Obs) {
    o.plain("class", || x.class());
    o.plain("msg_id", || x.msg_id());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgAnt(x: &CfgAntRef<'_>, o: &mut Obs) {
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.plain("pins", || x.pins());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgTp5(x: &CfgTp5Ref<'_>, o: &mut Obs) {
    o.coded("tp_idx", || {
        let v = x.tp_idx();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("tp_idx_raw", || x.tp_idx_raw());
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.scaled("ant_cable_delay", || x.ant_cable_delay(), 1.0f64, 2);
    o.plain("ant_cable_delay_raw", || x.ant_cable_delay_raw());
    o.scaled("rf_group_delay", || x.rf_group_delay(), 1.0f64, 2);
    o.plain("rf_group_delay_raw", || x.rf_group_delay_raw());
    o.scaled("freq_period", || x.freq_period(), 1.0f64, 4);
    o.plain("freq_period_raw", || x.freq_period_raw());
    o.scaled("freq_period_lock", || x.freq_period_lock(), 1.0f64, 4);
    o.plain("freq_period_lock_raw", || x.freq_period_lock_raw());
    o.scaled("pulse_len_ratio", || x.pulse_len_ratio(), 1.0f64, 4);
    o.plain("pulse_len_ratio_raw", || x.pulse_len_ratio_raw());
    o.scaled(
        "pulse_len_ratio_lock",
        || x.pulse_len_ratio_lock(),
        1.0f64,
        4,
    );
    o.plain("pulse_len_ratio_lock_raw", || x.pulse_len_ratio_lock_raw());
    o.scaled("user_delay", || x.user_delay(), 1.0f64, 4);
    o.plain("user_delay_raw", || x.user_delay_raw());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgTmode2(x: &CfgTmode2Ref<'_>, o: &mut Obs) {
    o.coded("time_transfer_mode", || {
        let v = x.time_transfer_mode();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("time_transfer_mode_raw", || x.time_transfer_mode_raw());
    o.plain("reserved1", || x.reserved1());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.scaled("ecef_x_or_lat", || x.ecef_x_or_lat(), 1e-2f64, 4);
    o.plain("ecef_x_or_lat_raw", || x.ecef_x_or_lat_raw());
    o.scaled("ecef_y_or_lon", || x.ecef_y_or_lon(), 1e-2f64, 4);
    o.plain("ecef_y_or_lon_raw", || x.ecef_y_or_lon_raw());
    o.scaled("ecef_z_or_alt", || x.ecef_z_or_alt(), 1e-2f64, 4);
    o.plain("ecef_z_or_alt_raw", || x.ecef_z_or_alt_raw());
    o.scaled("fixed_pos_acc", || x.fixed_pos_acc(), 1e-3f64, 4);
    o.plain("fixed_pos_acc_raw", || x.fixed_pos_acc_raw());
    o.plain("survey_in_min_duration", || x.survey_in_min_duration());
    o.scaled(
        "survery_in_accur_limit",
        || x.survery_in_accur_limit(),
        1e-3f64,
        4,
    );
    o.plain("survery_in_accur_limit_raw", || {
        x.survery_in_accur_limit_raw()
    });
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_TimSvin(x: &TimSvinRef<'_>, o: &mut Obs) {
    o.plain("dur", || x.dur());
    o.plain("mean_x", || x.mean_x());
    o.plain("mean_y", || x.mean_y());
    o.plain("mean_z", || x.mean_z());
    o.plain("mean_v", || x.mean_v());
    o.plain("obs", || x.obs());
    o.plain("valid", || x.valid());
    o.plain("active", || x.active());
    o.plain("reserved", || x.reserved());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavTimeLs(x: &NavTimeLsRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("version", || x.version());
    o.plain("reserved_1", || x.reserved_1());
    o.plain("src_of_curr_ls", || x.src_of_curr_ls());
    o.plain("current_ls", || x.current_ls());
    o.plain("src_of_ls_change", || x.src_of_ls_change());
    o.plain("ls_change", || x.ls_change());
    o.plain("time_to_ls_event", || x.time_to_ls_event());
    o.plain("date_of_ls_gps_wn", || x.date_of_ls_gps_wn());
    o.plain("date_of_ls_gps_dn", || x.date_of_ls_gps_dn());
    o.plain("reserved_2", || x.reserved_2());
    o.flags("valid", || {
        let v = x.valid();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("valid_raw", || x.valid_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgTmode3(x: &CfgTmode3Ref<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.flags("rcvr_mode", || {
        let v = x.rcvr_mode();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("rcvr_mode_raw", || x.rcvr_mode_raw());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.scaled("ecef_x_or_lat", || x.ecef_x_or_lat(), 1e-2f64, 4);
    o.plain("ecef_x_or_lat_raw", || x.ecef_x_or_lat_raw());
    o.scaled("ecef_y_or_lon", || x.ecef_y_or_lon(), 1e-2f64, 4);
    o.plain("ecef_y_or_lon_raw", || x.ecef_y_or_lon_raw());
    o.scaled("ecef_z_or_alt", || x.ecef_z_or_alt(), 1e-2f64, 4);
    o.plain("ecef_z_or_alt_raw", || x.ecef_z_or_alt_raw());
    o.scaled("ecef_x_or_lat_hp", || x.ecef_x_or_lat_hp(), 1.0f64, 1);
    o.plain("ecef_x_or_lat_hp_raw", || x.ecef_x_or_lat_hp_raw());
    o.scaled("ecef_y_or_lon_hp", || x.ecef_y_or_lon_hp(), 1.0f64, 1);
    o.plain("ecef_y_or_lon_hp_raw", || x.ecef_y_or_lon_hp_raw());
    o.scaled("ecef_z_or_alt_hp", || x.ecef_z_or_alt_hp(), 1.0f64, 1);
    o.plain("ecef_z_or_alt_hp_raw", || x.ecef_z_or_alt_hp_raw());
    o.plain("reserved2", || x.reserved2());
    o.scaled("fixed_pos_acc", || x.fixed_pos_acc(), 1e-4f64, 4);
    o.plain("fixed_pos_acc_raw", || x.fixed_pos_acc_raw());
    o.plain("sv_in_min_duration", || x.sv_in_min_duration());
    o.scaled("sv_in_accur_limit", || x.sv_in_accur_limit(), 1e-4f64, 4);
    o.plain("sv_in_accur_limit_raw", || x.sv_in_accur_limit_raw());
    o.plain("reserved3", || x.reserved3());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgPrtI2c(x: &CfgPrtI2cRef<'_>, o: &mut Obs) {
    o.coded("portid", || {
        let v = x.portid();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("portid_raw", || x.portid_raw());
    o.plain("reserved1", || x.reserved1());
    o.plain("tx_ready", || x.tx_ready());
    o.plain("mode", || x.mode());
    o.plain("reserved2", || x.reserved2());
    o.flags("in_proto_mask", || {
        let v = x.in_proto_mask();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("in_proto_mask_raw", || x.in_proto_mask_raw());
    o.flags("out_proto_mask", || {
        let v = x.out_proto_mask();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("out_proto_mask_raw", || x.out_proto_mask_raw());
    o.plain("flags", || x.flags());
    o.plain("reserved3", || x.reserved3());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgPrtUart(x: &CfgPrtUartRef<'_>, o: &mut Obs) {
    o.coded("portid", || {
        let v = x.portid();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("portid_raw", || x.portid_raw());
    o.plain("reserved0", || x.reserved0());
    o.plain("tx_ready", || x.tx_ready());
    o.word("mode", || x.mode());
    o.plain("mode_raw", || x.mode_raw());
    o.plain("baud_rate", || x.baud_rate());
    o.flags("in_proto_mask", || {
        let v = x.in_proto_mask();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("in_proto_mask_raw", || x.in_proto_mask_raw());
    o.flags("out_proto_mask", || {
        let v = x.out_proto_mask();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("out_proto_mask_raw", || x.out_proto_mask_raw());
    o.plain("flags", || x.flags());
    o.plain("reserved5", || x.reserved5());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgPrtSpi(x: &CfgPrtSpiRef<'_>, o: &mut Obs) {
    o.coded("portid", || {
        let v = x.portid();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("portid_raw", || x.portid_raw());
    o.plain("reserved0", || x.reserved0());
    o.plain("tx_ready", || x.tx_ready());
    o.plain("mode", || x.mode());
    o.plain("reserved3", || x.reserved3());
    o.flags("in_proto_mask", || {
        let v = x.in_proto_mask();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("in_proto_mask_raw", || x.in_proto_mask_raw());
    o.flags("out_proto_mask", || {
        let v = x.out_proto_mask();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("out_proto_mask_raw", || x.out_proto_mask_raw());
    o.plain("flags", || x.flags());
    o.plain("reserved5", || x.reserved5());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavTimeUTC(x: &NavTimeUTCRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("time_accuracy_estimate_ns", || {
        x.time_accuracy_estimate_ns()
    });
    o.plain("nanos", || x.nanos());
    o.plain("year", || x.year());
    o.plain("month", || x.month());
    o.plain("day", || x.day());
    o.plain("hour", || x.hour());
    o.plain("min", || x.min());
    o.plain("sec", || x.sec());
    o.flags("valid", || {
        let v = x.valid();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("valid_raw", || x.valid_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_CfgNav5(x: &CfgNav5Ref<'_>, o: &mut Obs) {
    o.flags("mask", || {
        let v = x.mask();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("mask_raw", || x.mask_raw());
    o.coded("dyn_model", || {
        let v = x.dyn_model();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("dyn_model_raw", || x.dyn_model_raw());
    o.coded("fix_mode", || {
        let v = x.fix_mode();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("fix_mode_raw", || x.fix_mode_raw());
    o.scaled("fixed_alt", || x.fixed_alt(), 0.01f64, 4);
    o.plain("fixed_alt_raw", || x.fixed_alt_raw());
    o.scaled("fixed_alt_var", || x.fixed_alt_var(), 0.0001f64, 4);
    o.plain("fixed_alt_var_raw", || x.fixed_alt_var_raw());
    o.plain("min_elev_degrees", || x.min_elev_degrees());
    o.plain("dr_limit", || x.dr_limit());
    o.scaled("pdop", || x.pdop(), 0.1f64, 2);
    o.plain("pdop_raw", || x.pdop_raw());
    o.scaled("tdop", || x.tdop(), 0.1f64, 2);
    o.plain("tdop_raw", || x.tdop_raw());
    o.plain("pacc", || x.pacc());
    o.plain("tacc", || x.tacc());
    o.scaled("static_hold_thresh", || x.static_hold_thresh(), 0.01f64, 1);
    o.plain("static_hold_thresh_raw", || x.static_hold_thresh_raw());
    o.plain("dgps_time_out", || x.dgps_time_out());
    o.plain("cno_thresh_num_svs", || x.cno_thresh_num_svs());
    o.plain("cno_thresh", || x.cno_thresh());
    o.plain("reserved1", || x.reserved1());
    o.plain("static_hold_max_dist", || x.static_hold_max_dist());
    o.coded("utc_standard", || {
        let v = x.utc_standard();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("utc_standard_raw", || x.utc_standard_raw());
    o.plain("reserved2", || x.reserved2());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MgaAck(x: &MgaAckRef<'_>, o: &mut Obs) {
    o.plain("ack_type", || x.ack_type());
    o.plain("version", || x.version());
    o.coded("info_code", || {
        let v = x.info_code();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("info_code_raw", || x.info_code_raw());
    o.plain("msg_id", || x.msg_id());
    o.plain("msg_payload_start", || x.msg_payload_start());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MgaGloEph(x: &MgaGloEphRef<'_>, o: &mut Obs) {
    o.plain("msg_type", || x.msg_type());
    o.plain("version", || x.version());
    o.plain("sv_id", || x.sv_id());
    o.plain("reserved1", || x.reserved1());
    o.plain("ft", || x.ft());
    o.plain("b", || x.b());
    o.plain("m", || x.m());
    o.plain("h", || x.h());
    o.plain("x", || x.x());
    o.plain("y", || x.y());
    o.plain("z", || x.z());
    o.plain("dx", || x.dx());
    o.plain("dy", || x.dy());
    o.plain("dz", || x.dz());
    o.plain("ddx", || x.ddx());
    o.plain("ddy", || x.ddy());
    o.plain("ddz", || x.ddz());
    o.plain("tb", || x.tb());
    o.plain("gamma", || x.gamma());
    o.plain("e", || x.e());
    o.plain("delta_tau", || x.delta_tau());
    o.plain("tau", || x.tau());
    o.plain("reserved2", || x.reserved2());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MgaGpsIono(x: &MgaGpsIonoRef<'_>, o: &mut Obs) {
    o.plain("msg_type", || x.msg_type());
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.scaled("alpha0", || x.alpha0(), 1.0f64, 1);
    o.plain("alpha0_raw", || x.alpha0_raw());
    o.scaled("alpha1", || x.alpha1(), 1.0f64, 1);
    o.plain("alpha1_raw", || x.alpha1_raw());
    o.scaled("alpha2", || x.alpha2(), 1.0f64, 1);
    o.plain("alpha2_raw", || x.alpha2_raw());
    o.scaled("alpha3", || x.alpha3(), 1.0f64, 1);
    o.plain("alpha3_raw", || x.alpha3_raw());
    o.scaled("beta0", || x.beta0(), 1.0f64, 1);
    o.plain("beta0_raw", || x.beta0_raw());
    o.scaled("beta1", || x.beta1(), 1.0f64, 1);
    o.plain("beta1_raw", || x.beta1_raw());
    o.scaled("beta2", || x.beta2(), 1.0f64, 1);
    o.plain("beta2_raw", || x.beta2_raw());
    o.scaled("beta3", || x.beta3(), 1.0f64, 1);
    o.plain("beta3_raw", || x.beta3_raw());
    o.plain("reserved2", || x.reserved2());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MgaGpsEph(x: &MgaGpsEphRef<'_>, o: &mut Obs) {
    o.plain("msg_type", || x.msg_type());
    o.plain("version", || x.version());
    o.plain("sv_id", || x.sv_id());
    o.plain("reserved1", || x.reserved1());
    o.plain("fit_interval", || x.fit_interval());
    o.plain("ura_index", || x.ura_index());
    o.plain("sv_health", || x.sv_health());
    o.plain("tgd", || x.tgd());
    o.plain("iodc", || x.iodc());
    o.plain("toc", || x.toc());
    o.plain("reserved2", || x.reserved2());
    o.plain("af2", || x.af2());
    o.plain("af1", || x.af1());
    o.plain("af0", || x.af0());
    o.plain("crs", || x.crs());
    o.plain("delta_n", || x.delta_n());
    o.plain("m0", || x.m0());
    o.plain("cuc", || x.cuc());
    o.plain("cus", || x.cus());
    o.plain("e", || x.e());
    o.plain("sqrt_a", || x.sqrt_a());
    o.plain("toe", || x.toe());
    o.plain("cic", || x.cic());
    o.plain("omega0", || x.omega0());
    o.plain("cis", || x.cis());
    o.plain("crc", || x.crc());
    o.plain("i0", || x.i0());
    o.plain("omega", || x.omega());
    o.plain("omega_dot", || x.omega_dot());
    o.plain("idot", || x.idot());
    o.plain("reserved3", || x.reserved3());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_TimTp(x: &TimTpRef<'_>, o: &mut Obs) {
    o.plain("tow_ms", || x.tow_ms());
    o.plain("tow_sub_ms", || x.tow_sub_ms());
    o.plain("q_err", || x.q_err());
    o.plain("week", || x.week());
    o.subs("flags", || {
        let v = x.flags();
        (
            short_type(&v),
            vec![
                ("time_base", format!("{:?}", v.time_base())),
                ("utc_available", format!("{:?}", v.utc_available())),
                ("raim_active", format!("{:?}", v.raim_active())),
                ("q_err_valid", format!("{:?}", v.q_err_valid())),
            ],
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.subs("ref_info", || {
        let v = x.ref_info();
        (
            short_type(&v),
            vec![
                ("time_ref_gnss", format!("{:?}", v.time_ref_gnss())),
                ("utc_standard", format!("{:?}", v.utc_standard())),
            ],
        )
    });
    o.plain("ref_info_raw", || x.ref_info_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_TimTm2(x: &TimTm2Ref<'_>, o: &mut Obs) {
    o.plain("ch", || x.ch());
    o.subs("flags", || {
        let v = x.flags();
        (
            short_type(&v),
            vec![
                (
                    "mode",
                    match v.mode() {
                        TimTm2Mode::Single => "Single",
                        TimTm2Mode::Running => "Running",
                    }
                    .to_string(),
                ),
                (
                    "run",
                    match v.run() {
                        TimTm2Run::Armed => "Armed",
                        TimTm2Run::Stopped => "Stopped",
                    }
                    .to_string(),
                ),
                ("new_falling_edge", format!("{:?}", v.new_falling_edge())),
                (
                    "time_base",
                    match v.time_base() {
                        TimTm2TimeBase::Receiver => "Receiver",
                        TimTm2TimeBase::Gnss => "Gnss",
                        TimTm2TimeBase::Utc => "Utc",
                    }
                    .to_string(),
                ),
                ("utc_available", format!("{:?}", v.utc_available())),
                ("time_valid", format!("{:?}", v.time_valid())),
                ("new_rising_edge", format!("{:?}", v.new_rising_edge())),
            ],
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.plain("count", || x.count());
    o.plain("wn_r", || x.wn_r());
    o.plain("wn_f", || x.wn_f());
    o.plain("tow_ms_r", || x.tow_ms_r());
    o.plain("tow_sub_ms_r", || x.tow_sub_ms_r());
    o.plain("tow_ms_f", || x.tow_ms_f());
    o.plain("tow_sub_ms_f", || x.tow_sub_ms_f());
    o.plain("acc_est", || x.acc_est());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_RxmRawx(x: &RxmRawxRef<'_>, o: &mut Obs) {
    o.plain("rcv_tow", || x.rcv_tow());
    o.plain("week", || x.week());
    o.plain("leap_s", || x.leap_s());
    o.plain("num_meas", || x.num_meas());
    o.flags("rec_stat", || {
        let v = x.rec_stat();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("rec_stat_raw", || x.rec_stat_raw());
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.iter(
        "measurements",
        || x.measurements(),
        |v, o| obs_RxmRawxInfo(&v, o),
    );
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MonHw(x: &MonHwRef<'_>, o: &mut Obs) {
    o.plain("pin_sel", || x.pin_sel());
    o.plain("pin_bank", || x.pin_bank());
    o.plain("pin_dir", || x.pin_dir());
    o.plain("pin_val", || x.pin_val());
    o.plain("noise_per_ms", || x.noise_per_ms());
    o.plain("agc_cnt", || x.agc_cnt());
    o.coded("a_status", || {
        let v = x.a_status();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("a_status_raw", || x.a_status_raw());
    o.coded("a_power", || {
        let v = x.a_power();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("a_power_raw", || x.a_power_raw());
    o.plain("flags", || x.flags());
    o.plain("reserved1", || x.reserved1());
    o.plain("used_mask", || x.used_mask());
    o.plain("vp", || x.vp());
    o.plain("jam_ind", || x.jam_ind());
    o.plain("reserved2", || x.reserved2());
    o.plain("pin_irq", || x.pin_irq());
    o.plain("pull_h", || x.pull_h());
    o.plain("pull_l", || x.pull_l());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MonGnss(x: &MonGnssRef<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.flags("supported", || {
        let v = x.supported();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("supported_raw", || x.supported_raw());
    o.flags("default", || {
        let v = x.default();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("default_raw", || x.default_raw());
    o.flags("enabled", || {
        let v = x.enabled();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("enabled_raw", || x.enabled_raw());
    o.plain("simultaneous", || x.simultaneous());
    o.plain("reserved1", || x.reserved1());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MonVer(x: &MonVerRef<'_>, o: &mut Obs) {
    o.text("software_version", || x.software_version().to_string());
    o.plain("software_version_raw", || x.software_version_raw());
    o.text("hardware_version", || x.hardware_version().to_string());
    o.plain("hardware_version_raw", || x.hardware_version_raw());
    o.iter(
        "extension",
        || x.extension(),
        |v, o| o.text("text", || v.to_string()),
    );
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_RxmRtcm(x: &RxmRtcmRef<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.plain("flags", || x.flags());
    o.plain("sub_type", || x.sub_type());
    o.plain("ref_station", || x.ref_station());
    o.plain("msg_type", || x.msg_type());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_EsfMeas(x: &EsfMeasRef<'_>, o: &mut Obs) {
    o.plain("time_tag", || x.time_tag());
    o.plain("flags", || x.flags());
    o.plain("id", || x.id());
    o.iter(
        "data",
        || x.data(),
        |v, o| {
            o.plain("data_type", || v.data_type);
            o.plain("data_field", || v.data_field);
        },
    );
    o.opt("calib_tag", || {
        x.calib_tag().map(|v| v.to_le_bytes().to_vec())
    });
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_EsfRaw(x: &EsfRawRef<'_>, o: &mut Obs) {
    o.plain("msss", || x.msss());
    o.iter(
        "data",
        || x.data(),
        |v, o| {
            o.plain("data_type", || v.data_type);
            o.plain("data_field", || v.data_field);
            o.plain("sensor_time_tag", || v.sensor_time_tag);
        },
    );
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_EsfIns(x: &EsfInsRef<'_>, o: &mut Obs) {
    o.flags("bit_field", || {
        let v = x.bit_field();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("bit_field_raw", || x.bit_field_raw());
    o.plain("reserved", || x.reserved());
    o.plain("itow", || x.itow());
    o.scaled("x_angular_rate", || x.x_angular_rate(), 1e-3f64, 4);
    o.plain("x_angular_rate_raw", || x.x_angular_rate_raw());
    o.scaled("y_angular_rate", || x.y_angular_rate(), 1e-3f64, 4);
    o.plain("y_angular_rate_raw", || x.y_angular_rate_raw());
    o.scaled("z_angular_rate", || x.z_angular_rate(), 1e-3f64, 4);
    o.plain("z_angular_rate_raw", || x.z_angular_rate_raw());
    o.scaled("x_acceleration", || x.x_acceleration(), 1e-2f64, 4);
    o.plain("x_acceleration_raw", || x.x_acceleration_raw());
    o.scaled("y_acceleration", || x.y_acceleration(), 1e-2f64, 4);
    o.plain("y_acceleration_raw", || x.y_acceleration_raw());
    o.scaled("z_acceleration", || x.z_acceleration(), 1e-2f64, 4);
    o.plain("z_acceleration_raw", || x.z_acceleration_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_HnrAtt(x: &HnrAttRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.scaled("vehicle_roll", || x.vehicle_roll(), 1e-5f64, 4);
    o.plain("vehicle_roll_raw", || x.vehicle_roll_raw());
    o.scaled("vehicle_pitch", || x.vehicle_pitch(), 1e-5f64, 4);
    o.plain("vehicle_pitch_raw", || x.vehicle_pitch_raw());
    o.scaled("vehicle_heading", || x.vehicle_heading(), 1e-5f64, 4);
    o.plain("vehicle_heading_raw", || x.vehicle_heading_raw());
    o.scaled(
        "vehicle_roll_accuracy",
        || x.vehicle_roll_accuracy(),
        1e-5f64,
        4,
    );
    o.plain("vehicle_roll_accuracy_raw", || {
        x.vehicle_roll_accuracy_raw()
    });
    o.scaled(
        "vehicle_pitch_accuracy",
        || x.vehicle_pitch_accuracy(),
        1e-5f64,
        4,
    );
    o.plain("vehicle_pitch_accuracy_raw", || {
        x.vehicle_pitch_accuracy_raw()
    });
    o.scaled(
        "vehicle_heading_accuracy",
        || x.vehicle_heading_accuracy(),
        1e-5f64,
        4,
    );
    o.plain("vehicle_heading_accuracy_raw", || {
        x.vehicle_heading_accuracy_raw()
    });
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_HnrIns(x: &HnrInsRef<'_>, o: &mut Obs) {
    o.flags("bit_field", || {
        let v = x.bit_field();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("bit_field_raw", || x.bit_field_raw());
    o.plain("reserved", || x.reserved());
    o.plain("itow", || x.itow());
    o.scaled("x_angular_rate", || x.x_angular_rate(), 1e-3f64, 4);
    o.plain("x_angular_rate_raw", || x.x_angular_rate_raw());
    o.scaled("y_angular_rate", || x.y_angular_rate(), 1e-3f64, 4);
    o.plain("y_angular_rate_raw", || x.y_angular_rate_raw());
    o.scaled("z_angular_rate", || x.z_angular_rate(), 1e-3f64, 4);
    o.plain("z_angular_rate_raw", || x.z_angular_rate_raw());
    o.scaled("x_acceleration", || x.x_acceleration(), 1e-2f64, 4);
    o.plain("x_acceleration_raw", || x.x_acceleration_raw());
    o.scaled("y_acceleration", || x.y_acceleration(), 1e-2f64, 4);
    o.plain("y_acceleration_raw", || x.y_acceleration_raw());
    o.scaled("z_acceleration", || x.z_acceleration(), 1e-2f64, 4);
    o.plain("z_acceleration_raw", || x.z_acceleration_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_HnrPvt(x: &HnrPvtRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("year", || x.year());
    o.plain("month", || x.month());
    o.plain("day", || x.day());
    o.plain("hour", || x.hour());
    o.plain("min", || x.min());
    o.plain("sec", || x.sec());
    o.flags("valid", || {
        let v = x.valid();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("valid_raw", || x.valid_raw());
    o.plain("nano", || x.nano());
    o.coded("gps_fix", || {
        let v = x.gps_fix();
        let t = short_type(&v);
        let d = format!("{:?}", v);
        (vec![v as u8], d, t)
    });
    o.plain("gps_fix_raw", || x.gps_fix_raw());
    o.flags("flags", || {
        let v = x.flags();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("flags_raw", || x.flags_raw());
    o.plain("reserved1", || x.reserved1());
    o.scaled("longitude", || x.longitude(), 1e-7f64, 4);
    o.plain("longitude_raw", || x.longitude_raw());
    o.scaled("latitude", || x.latitude(), 1e-7f64, 4);
    o.plain("latitude_raw", || x.latitude_raw());
    o.scaled(
        "height_above_ellipsoid",
        || x.height_above_ellipsoid(),
        1e-3f64,
        4,
    );
    o.plain("height_above_ellipsoid_raw", || {
        x.height_above_ellipsoid_raw()
    });
    o.scaled("height_msl", || x.height_msl(), 1e-3f64, 4);
    o.plain("height_msl_raw", || x.height_msl_raw());
    o.scaled("ground_speed_2d", || x.ground_speed_2d(), 1e-3f64, 4);
    o.plain("ground_speed_2d_raw", || x.ground_speed_2d_raw());
    o.scaled("speed_3d", || x.speed_3d(), 1e-3f64, 4);
    o.plain("speed_3d_raw", || x.speed_3d_raw());
    o.scaled("heading_motion", || x.heading_motion(), 1e-5f64, 4);
    o.plain("heading_motion_raw", || x.heading_motion_raw());
    o.scaled("heading_vehicle", || x.heading_vehicle(), 1e-5f64, 4);
    o.plain("heading_vehicle_raw", || x.heading_vehicle_raw());
    o.plain("h_acc", || x.h_acc());
    o.plain("v_acc", || x.v_acc());
    o.plain("s_acc", || x.s_acc());
    o.scaled("heading_accurracy", || x.heading_accurracy(), 1e-5f64, 4);
    o.plain("heading_accurracy_raw", || x.heading_accurracy_raw());
    o.plain("reserved2", || x.reserved2());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavAtt(x: &NavAttRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.scaled("vehicle_roll", || x.vehicle_roll(), 1e-5f64, 4);
    o.plain("vehicle_roll_raw", || x.vehicle_roll_raw());
    o.scaled("vehicle_pitch", || x.vehicle_pitch(), 1e-5f64, 4);
    o.plain("vehicle_pitch_raw", || x.vehicle_pitch_raw());
    o.scaled("vehicle_heading", || x.vehicle_heading(), 1e-5f64, 4);
    o.plain("vehicle_heading_raw", || x.vehicle_heading_raw());
    o.scaled(
        "vehicle_roll_accuracy",
        || x.vehicle_roll_accuracy(),
        1e-5f64,
        4,
    );
    o.plain("vehicle_roll_accuracy_raw", || {
        x.vehicle_roll_accuracy_raw()
    });
    o.scaled(
        "vehicle_pitch_accuracy",
        || x.vehicle_pitch_accuracy(),
        1e-5f64,
        4,
    );
    o.plain("vehicle_pitch_accuracy_raw", || {
        x.vehicle_pitch_accuracy_raw()
    });
    o.scaled(
        "vehicle_heading_accuracy",
        || x.vehicle_heading_accuracy(),
        1e-5f64,
        4,
    );
    o.plain("vehicle_heading_accuracy_raw", || {
        x.vehicle_heading_accuracy_raw()
    });
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavClock(x: &NavClockRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("clk_b", || x.clk_b());
    o.plain("clk_d", || x.clk_d());
    o.plain("t_acc", || x.t_acc());
    o.plain("f_acc", || x.f_acc());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_RxmSfrbx(x: &RxmSfrbxRef<'_>, o: &mut Obs) {
    o.plain("gnss_id", || x.gnss_id());
    o.plain("sv_id", || x.sv_id());
    o.plain("reserved1", || x.reserved1());
    o.plain("freq_id", || x.freq_id());
    o.plain("num_words", || x.num_words());
    o.plain("reserved2", || x.reserved2());
    o.plain("version", || x.version());
    o.plain("reserved3", || x.reserved3());
    o.iter("dwrd", || x.dwrd(), |v, o| o.plain("word", || v));
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavVelECEF(x: &NavVelECEFRef<'_>, o: &mut Obs) {
    o.plain("itow", || x.itow());
    o.plain("ecef_vx", || x.ecef_vx());
    o.plain("ecef_vy", || x.ecef_vy());
    o.plain("ecef_vz", || x.ecef_vz());
    o.plain("s_acc", || x.s_acc());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_MgaGpsEPH(x: &MgaGpsEPHRef<'_>, o: &mut Obs) {
    o.plain("msg_type", || x.msg_type());
    o.plain("version", || x.version());
    o.plain("sv_id", || x.sv_id());
    o.plain("reserved1", || x.reserved1());
    o.plain("fit_interval", || x.fit_interval());
    o.plain("ura_index", || x.ura_index());
    o.plain("sv_health", || x.sv_health());
    o.scaled("tgd", || x.tgd(), 2e-31f64, 1);
    o.plain("tgd_raw", || x.tgd_raw());
    o.plain("iodc", || x.iodc());
    o.scaled("toc", || x.toc(), 2e+4f64, 2);
    o.plain("toc_raw", || x.toc_raw());
    o.plain("reserved2", || x.reserved2());
    o.scaled("af2", || x.af2(), 2e-55f64, 1);
    o.plain("af2_raw", || x.af2_raw());
    o.scaled("afl", || x.afl(), 2e-43f64, 2);
    o.plain("afl_raw", || x.afl_raw());
    o.scaled("af0", || x.af0(), 2e-31f64, 4);
    o.plain("af0_raw", || x.af0_raw());
    o.scaled("crs", || x.crs(), 2e-5f64, 2);
    o.plain("crs_raw", || x.crs_raw());
    o.scaled("delta_n", || x.delta_n(), 2e-43f64, 2);
    o.plain("delta_n_raw", || x.delta_n_raw());
    o.scaled("m0", || x.m0(), 2e-31f64, 4);
    o.plain("m0_raw", || x.m0_raw());
    o.scaled("cuc", || x.cuc(), 2e-29f64, 2);
    o.plain("cuc_raw", || x.cuc_raw());
    o.scaled("cus", || x.cus(), 2e-29f64, 2);
    o.plain("cus_raw", || x.cus_raw());
    o.scaled("e", || x.e(), 2e-33f64, 4);
    o.plain("e_raw", || x.e_raw());
    o.scaled("sqrt_a", || x.sqrt_a(), 2e-19f64, 4);
    o.plain("sqrt_a_raw", || x.sqrt_a_raw());
    o.scaled("toe", || x.toe(), 2e+4f64, 2);
    o.plain("toe_raw", || x.toe_raw());
    o.scaled("cic", || x.cic(), 2e-29f64, 2);
    o.plain("cic_raw", || x.cic_raw());
    o.scaled("omega0", || x.omega0(), 2e-31f64, 4);
    o.plain("omega0_raw", || x.omega0_raw());
    o.scaled("cis", || x.cis(), 2e-29f64, 2);
    o.plain("cis_raw", || x.cis_raw());
    o.scaled("crc", || x.crc(), 2e-5f64, 2);
    o.plain("crc_raw", || x.crc_raw());
    o.scaled("i0", || x.i0(), 2e-31f64, 4);
    o.plain("i0_raw", || x.i0_raw());
    o.scaled("omega", || x.omega(), 2e-31f64, 4);
    o.plain("omega_raw", || x.omega_raw());
    o.scaled("omega_dot", || x.omega_dot(), 2e-43f64, 4);
    o.plain("omega_dot_raw", || x.omega_dot_raw());
    o.scaled("idot", || x.idot(), 2e-43f64, 2);
    o.plain("idot_raw", || x.idot_raw());
    o.plain("reserved3", || x.reserved3());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_SecUniqId(x: &SecUniqIdRef<'_>, o: &mut Obs) {
    o.plain("version", || x.version());
    o.plain("reserved1", || x.reserved1());
    o.plain("unique_id", || x.unique_id());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_NavSatSvInfo(x: &NavSatSvInfoRef<'_>, o: &mut Obs) {
    o.plain("gnss_id", || x.gnss_id());
    o.plain("sv_id", || x.sv_id());
    o.plain("cno", || x.cno());
    o.plain("elev", || x.elev());
    o.plain("azim", || x.azim());
    o.plain("pr_res", || x.pr_res());
    o.subs("flags", || {
        let v = x.flags();
        (
            short_type(&v),
            vec![
                ("quality_ind", format!("{:?}", v.quality_ind())),
                ("sv_used", format!("{:?}", v.sv_used())),
                ("health", format!("{:?}", v.health())),
                (
                    "differential_correction_available",
                    format!("{:?}", v.differential_correction_available()),
                ),
                ("smoothed", format!("{:?}", v.smoothed())),
                ("orbit_source", format!("{:?}", v.orbit_source())),
                (
                    "ephemeris_available",
                    format!("{:?}", v.ephemeris_available()),
                ),
                ("almanac_available", format!("{:?}", v.almanac_available())),
                (
                    "an_offline_available",
                    format!("{:?}", v.an_offline_available()),
                ),
                ("an_auto_available", format!("{:?}", v.an_auto_available())),
                ("sbas_corr", format!("{:?}", v.sbas_corr())),
                ("rtcm_corr", format!("{:?}", v.rtcm_corr())),
                ("slas_corr", format!("{:?}", v.slas_corr())),
                ("spartn_corr", format!("{:?}", v.spartn_corr())),
                ("pr_corr", format!("{:?}", v.pr_corr())),
                ("cr_corr", format!("{:?}", v.cr_corr())),
                ("do_corr", format!("{:?}", v.do_corr())),
            ],
        )
    });
    o.plain("flags_raw", || x.flags_raw());
}
#[allow(non_snake_case, unused_variables)]
pub fn obs_RxmRawxInfo(x: &RxmRawxInfoRef<'_>, o: &mut Obs) {
    o.plain("pr_mes", || x.pr_mes());
    o.plain("cp_mes", || x.cp_mes());
    o.plain("do_mes", || x.do_mes());
    o.plain("gnss_id", || x.gnss_id());
    o.plain("sv_id", || x.sv_id());
    o.plain("reserved2", || x.reserved2());
    o.plain("freq_id", || x.freq_id());
    o.plain("lock_time", || x.lock_time());
    o.plain("cno", || x.cno());
    o.flags("pr_stdev", || {
        let v = x.pr_stdev();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("pr_stdev_raw", || x.pr_stdev_raw());
    o.flags("cp_stdev", || {
        let v = x.cp_stdev();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("cp_stdev_raw", || x.cp_stdev_raw());
    o.flags("do_stdev", || {
        let v = x.do_stdev();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("do_stdev_raw", || x.do_stdev_raw());
    o.flags("trk_stat", || {
        let v = x.trk_stat();
        let t = short_type(&v);
        (
            v.bits().to_le_bytes().to_vec(),
            v.iter_names().map(|n| n.0.to_string()).collect(),
            t,
        )
    });
    o.plain("trk_stat_raw", || x.trk_stat_raw());
    o.plain("reserved3", || x.reserved3());
}

pub fn observe(p: &PacketRef<'_>, o: &mut Obs) {
    match p {
        PacketRef::NavPosLlh(x) => obs_NavPosLlh(x, o),
        PacketRef::NavVelNed(x) => obs_NavVelNed(x, o),
        PacketRef::NavHpPosLlh(x) => obs_NavHpPosLlh(x, o),
        PacketRef::NavHpPosEcef(x) => obs_NavHpPosEcef(x, o),
        PacketRef::NavPvt(x) => obs_NavPvt(x, o),
        PacketRef::NavStatus(x) => obs_NavStatus(x, o),
        PacketRef::NavDop(x) => obs_NavDop(x, o),
        PacketRef::NavEoe(x) => obs_NavEoe(x, o),
        PacketRef::NavSolution(x) => obs_NavSolution(x, o),
        PacketRef::NavSat(x) => obs_NavSat(x, o),
        PacketRef::NavOdo(x) => obs_NavOdo(x, o),
        PacketRef::CfgOdo(x) => obs_CfgOdo(x, o),
        PacketRef::CfgItfm(x) => obs_CfgItfm(x, o),
        PacketRef::InfError(x) => obs_InfError(x, o),
        PacketRef::InfNotice(x) => obs_InfNotice(x, o),
        PacketRef::InfTest(x) => obs_InfTest(x, o),
        PacketRef::InfWarning(x) => obs_InfWarning(x, o),
        PacketRef::InfDebug(x) => obs_InfDebug(x, o),
        PacketRef::AlpSrv(x) => obs_AlpSrv(x, o),
        PacketRef::AckAck(x) => obs_AckAck(x, o),
        PacketRef::AckNak(x) => obs_AckNak(x, o),
        PacketRef::CfgAnt(x) => obs_CfgAnt(x, o),
        PacketRef::CfgTp5(x) => obs_CfgTp5(x, o),
        PacketRef::CfgTmode2(x) => obs_CfgTmode2(x, o),
        PacketRef::TimSvin(x) => obs_TimSvin(x, o),
        PacketRef::NavTimeLs(x) => obs_NavTimeLs(x, o),
        PacketRef::CfgTmode3(x) => obs_CfgTmode3(x, o),
        PacketRef::CfgPrtI2c(x) => obs_CfgPrtI2c(x, o),
        PacketRef::CfgPrtUart(x) => obs_CfgPrtUart(x, o),
        PacketRef::CfgPrtSpi(x) => obs_CfgPrtSpi(x, o),
        PacketRef::NavTimeUTC(x) => obs_NavTimeUTC(x, o),
        PacketRef::CfgNav5(x) => obs_CfgNav5(x, o),
        PacketRef::MgaAck(x) => obs_MgaAck(x, o),
        PacketRef::MgaGloEph(x) => obs_MgaGloEph(x, o),
        PacketRef::MgaGpsIono(x) => obs_MgaGpsIono(x, o),
        PacketRef::MgaGpsEph(x) => obs_MgaGpsEph(x, o),
        PacketRef::TimTp(x) => obs_TimTp(x, o),
        PacketRef::TimTm2(x) => obs_TimTm2(x, o),
        PacketRef::RxmRawx(x) => obs_RxmRawx(x, o),
        PacketRef::MonHw(x) => obs_MonHw(x, o),
        PacketRef::MonGnss(x) => obs_MonGnss(x, o),
        PacketRef::MonVer(x) => obs_MonVer(x, o),
        PacketRef::RxmRtcm(x) => obs_RxmRtcm(x, o),
        PacketRef::EsfMeas(x) => obs_EsfMeas(x, o),
        PacketRef::EsfRaw(x) => obs_EsfRaw(x, o),
        PacketRef::EsfIns(x) => obs_EsfIns(x, o),
        PacketRef::HnrAtt(x) => obs_HnrAtt(x, o),
        PacketRef::HnrIns(x) => obs_HnrIns(x, o),
        PacketRef::HnrPvt(x) => obs_HnrPvt(x, o),
        PacketRef::NavAtt(x) => obs_NavAtt(x, o),
        PacketRef::NavClock(x) => obs_NavClock(x, o),
        PacketRef::RxmSfrbx(x) => obs_RxmSfrbx(x, o),
        PacketRef::NavVelECEF(x) => obs_NavVelECEF(x, o),
        PacketRef::MgaGpsEPH(x) => obs_MgaGpsEPH(x, o),
        PacketRef::SecUniqId(x) => obs_SecUniqId(x, o),
        PacketRef::Unknown(_) => {}
    }
}

fn deb<T: std::fmt::Debug>(v: T) -> usize {
    format!("{:?}", v).len()
}

/// formats what the accessors return, as far as it can be
pub fn debug_parts(p: &PacketRef<'_>) -> usize {
    match p {
        PacketRef::NavHpPosEcef(x) => deb(x.flags()),
        PacketRef::NavPvt(x) => deb(x.fix_type()) + deb(x.flags()) + deb(x.flags2()),
        PacketRef::NavStatus(x) => {
            deb(x.fix_type()) + deb(x.flags()) + deb(x.fix_stat()) + deb(x.flags2())
        }
        PacketRef::NavSolution(x) => deb(x.fix_type()) + deb(x.flags()),
        PacketRef::NavSat(x) => x
            .svs()
            .take(5000)
            .map(|v| deb(&v) + deb(v.flags()))
            .sum::<usize>(),
        PacketRef::CfgOdo(x) => deb(x.flags()) + deb(x.odo_cfg()),
        PacketRef::CfgItfm(x) => deb(x.config()) + deb(x.config2()),
        PacketRef::InfError(x) => deb(x.message()),
        PacketRef::InfNotice(x) => deb(x.message()),
        PacketRef::InfTest(x) => deb(x.message()),
        PacketRef::InfWarning(x) => deb(x.message()),
        PacketRef::InfDebug(x) => deb(x.message()),
        PacketRef::CfgAnt(x) => deb(x.flags()),
        PacketRef::CfgTp5(x) => deb(x.tp_idx()) + deb(x.flags()),
        PacketRef::CfgTmode2(x) => deb(x.time_transfer_mode()) + deb(x.flags()),
        PacketRef::NavTimeLs(x) => deb(x.valid()),
        PacketRef::CfgTmode3(x) => deb(x.rcvr_mode()) + deb(x.flags()),
        PacketRef::CfgPrtI2c(x) => {
            deb(x.portid()) + deb(x.in_proto_mask()) + deb(x.out_proto_mask())
        }
        PacketRef::CfgPrtUart(x) => {
            deb(x.portid()) + deb(x.mode()) + deb(x.in_proto_mask()) + deb(x.out_proto_mask())
        }
        PacketRef::CfgPrtSpi(x) => {
            deb(x.portid()) + deb(x.in_proto_mask()) + deb(x.out_proto_mask())
        }
        PacketRef::NavTimeUTC(x) => deb(x.valid()),
        PacketRef::CfgNav5(x) => {
            deb(x.mask()) + deb(x.dyn_model()) + deb(x.fix_mode()) + deb(x.utc_standard())
        }
        PacketRef::MgaAck(x) => deb(x.info_code()),
        PacketRef::TimTp(x) => deb(x.flags()) + deb(x.ref_info()),
        PacketRef::TimTm2(x) => deb(x.flags()),
        PacketRef::RxmRawx(x) => {
            deb(x.rec_stat())
                + x.measurements()
                    .take(5000)
                    .map(|v| {
                        deb(&v)
                            + deb(v.pr_stdev())
                            + deb(v.cp_stdev())
                            + deb(v.do_stdev())
                            + deb(v.trk_stat())
                    })
                    .sum::<usize>()
        }
        PacketRef::MonHw(x) => deb(x.a_status()) + deb(x.a_power()),
        PacketRef::MonGnss(x) => deb(x.supported()) + deb(x.default()) + deb(x.enabled()),
        PacketRef::MonVer(x) => {
            deb(x.software_version())
                + deb(x.hardware_version())
                + x.extension().take(5000).map(deb).sum::<usize>()
        }
        PacketRef::EsfMeas(x) => x.data().take(5000).map(deb).sum::<usize>() + deb(x.calib_tag()),
        PacketRef::EsfRaw(x) => x.data().take(5000).map(deb).sum::<usize>(),
        PacketRef::EsfIns(x) => deb(x.bit_field()),
        PacketRef::HnrIns(x) => deb(x.bit_field()),
        PacketRef::HnrPvt(x) => deb(x.valid()) + deb(x.gps_fix()) + deb(x.flags()),
        PacketRef::RxmSfrbx(x) => x.dwrd().take(5000).map(deb).sum::<usize>(),
        _ => 0,
    }
}

fn dbg<T: std::fmt::Debug>(v: T) -> String {
    format!("{:?}", v)
}

/// the Debug text of what each accessor returns
pub fn debug_texts(p: &PacketRef<'_>) -> Vec<String> {
    match p {
        PacketRef::NavPosLlh(x) => vec![
            dbg(x.itow()),
            dbg(x.lon_degrees()),
            dbg(x.lat_degrees()),
            dbg(x.height_meters()),
            dbg(x.height_msl()),
            dbg(x.h_ack()),
            dbg(x.v_acc()),
        ],
        PacketRef::NavVelNed(x) => vec![
            dbg(x.itow()),
            dbg(x.vel_north()),
            dbg(x.vel_east()),
            dbg(x.vel_down()),
            dbg(x.speed_3d()),
            dbg(x.ground_speed()),
            dbg(x.heading_degrees()),
            dbg(x.speed_accuracy_estimate()),
            dbg(x.course_heading_accuracy_estimate()),
        ],
        PacketRef::NavHpPosLlh(x) => vec![
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.itow()),
            dbg(x.lon_degrees()),
            dbg(x.lat_degrees()),
            dbg(x.height_meters()),
            dbg(x.height_msl()),
            dbg(x.lon_hp_degrees()),
            dbg(x.lat_hp_degrees()),
            dbg(x.height_hp_meters()),
            dbg(x.height_hp_msl()),
            dbg(x.horizontal_accuracy()),
            dbg(x.vertical_accuracy()),
        ],
        PacketRef::NavHpPosEcef(x) => vec![
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.itow()),
            dbg(x.ecef_x_cm()),
            dbg(x.ecef_y_cm()),
            dbg(x.ecef_z_cm()),
            dbg(x.ecef_x_hp_mm()),
            dbg(x.ecef_y_hp_mm()),
            dbg(x.ecef_z_hp_mm()),
            dbg(x.flags()),
            dbg(x.p_acc()),
        ],
        PacketRef::NavPvt(x) => vec![
            dbg(x.itow()),
            dbg(x.year()),
            dbg(x.month()),
            dbg(x.day()),
            dbg(x.hour()),
            dbg(x.min()),
            dbg(x.sec()),
            dbg(x.valid()),
            dbg(x.time_accuracy()),
            dbg(x.nanosecond()),
            dbg(x.fix_type()),
            dbg(x.flags()),
            dbg(x.flags2()),
            dbg(x.num_satellites()),
            dbg(x.lon_degrees()),
            dbg(x.lat_degrees()),
            dbg(x.height_meters()),
            dbg(x.height_msl()),
            dbg(x.horiz_accuracy()),
            dbg(x.vert_accuracy()),
            dbg(x.vel_north()),
            dbg(x.vel_east()),
            dbg(x.vel_down()),
            dbg(x.ground_speed()),
            dbg(x.heading_degrees()),
            dbg(x.speed_accuracy_estimate()),
            dbg(x.heading_accuracy_estimate()),
            dbg(x.pdop()),
            dbg(x.reserved1()),
            dbg(x.heading_of_vehicle_degrees()),
            dbg(x.magnetic_declination_degrees()),
            dbg(x.magnetic_declination_accuracy_degrees()),
        ],
        PacketRef::NavStatus(x) => vec![
            dbg(x.itow()),
            dbg(x.fix_type()),
            dbg(x.flags()),
            dbg(x.fix_stat()),
            dbg(x.flags2()),
            dbg(x.time_to_first_fix()),
            dbg(x.uptime_ms()),
        ],
        PacketRef::NavDop(x) => vec![
            dbg(x.itow()),
            dbg(x.geometric_dop()),
            dbg(x.position_dop()),
            dbg(x.time_dop()),
            dbg(x.vertical_dop()),
            dbg(x.horizontal_dop()),
            dbg(x.northing_dop()),
            dbg(x.easting_dop()),
        ],
        PacketRef::NavEoe(x) => vec![dbg(x.itow())],
        PacketRef::NavSolution(x) => vec![
            dbg(x.itow()),
            dbg(x.ftow_ns()),
            dbg(x.week()),
            dbg(x.fix_type()),
            dbg(x.flags()),
            dbg(x.ecef_x()),
            dbg(x.ecef_y()),
            dbg(x.ecef_z()),
            dbg(x.position_accuracy_estimate()),
            dbg(x.ecef_vx()),
            dbg(x.ecef_vy()),
            dbg(x.ecef_vz()),
            dbg(x.speed_accuracy_estimate()),
            dbg(x.pdop()),
            dbg(x.reserved1()),
            dbg(x.num_sv()),
            dbg(x.reserved2()),
        ],
        PacketRef::NavSat(x) => vec![
            dbg(x.itow()),
            dbg(x.version()),
            dbg(x.num_svs()),
            dbg(x.reserved()),
            dbg(x.svs()),
        ],
        PacketRef::NavOdo(x) => vec![
            dbg(x.version()),
            dbg(x.reserved()),
            dbg(x.itow()),
            dbg(x.distance()),
            dbg(x.total_distance()),
            dbg(x.distance_std()),
        ],
        PacketRef::CfgOdo(x) => vec![
            dbg(x.version()),
            dbg(x.reserved()),
            dbg(x.flags()),
            dbg(x.odo_cfg()),
            dbg(x.reserved2()),
            dbg(x.cog_max_speed()),
            dbg(x.cog_max_pos_acc()),
            dbg(x.reserved3()),
            dbg(x.vel_lp_gain()),
            dbg(x.cog_lp_gain()),
            dbg(x.reserved4()),
        ],
        PacketRef::CfgItfm(x) => vec![dbg(x.config()), dbg(x.config2())],
        PacketRef::InfError(x) => vec![dbg(x.message())],
        PacketRef::InfNotice(x) => vec![dbg(x.message())],
        PacketRef::InfTest(x) => vec![dbg(x.message())],
        PacketRef::InfWarning(x) => vec![dbg(x.message())],
        PacketRef::InfDebug(x) => vec![dbg(x.message())],
        PacketRef::AlpSrv(x) => vec![
            dbg(x.id_size()),
            dbg(x.data_type()),
            dbg(x.offset()),
            dbg(x.size()),
            dbg(x.file_id()),
            dbg(x.data_size()),
            dbg(x.id1()),
            dbg(x.id2()),
            dbg(x.id3()),
        ],
        PacketRef::AckAck(x) => vec![dbg(x.class()), dbg(x.msg_id())],
        PacketRef::AckNak(x) => vec![dbg(x.class()), dbg(x.msg_id())],
        PacketRef::CfgAnt(x) => vec![dbg(x.flags()), dbg(x.pins())],
        PacketRef::CfgTp5(x) => vec![
            dbg(x.tp_idx()),
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.ant_cable_delay()),
            dbg(x.rf_group_delay()),
            dbg(x.freq_period()),
            dbg(x.freq_period_lock()),
            dbg(x.pulse_len_ratio()),
            dbg(x.pulse_len_ratio_lock()),
            dbg(x.user_delay()),
            dbg(x.flags()),
        ],
        PacketRef::CfgTmode2(x) => vec![
            dbg(x.time_transfer_mode()),
            dbg(x.reserved1()),
            dbg(x.flags()),
            dbg(x.ecef_x_or_lat()),
            dbg(x.ecef_y_or_lon()),
            dbg(x.ecef_z_or_alt()),
            dbg(x.fixed_pos_acc()),
            dbg(x.survey_in_min_duration()),
            dbg(x.survery_in_accur_limit()),
        ],
        PacketRef::TimSvin(x) => vec![
            dbg(x.dur()),
            dbg(x.mean_x()),
            dbg(x.mean_y()),
            dbg(x.mean_z()),
            dbg(x.mean_v()),
            dbg(x.obs()),
            dbg(x.valid()),
            dbg(x.active()),
            dbg(x.reserved()),
        ],
        PacketRef::NavTimeLs(x) => vec![
            dbg(x.itow()),
            dbg(x.version()),
            dbg(x.reserved_1()),
            dbg(x.src_of_curr_ls()),
            dbg(x.current_ls()),
            dbg(x.src_of_ls_change()),
            dbg(x.ls_change()),
            dbg(x.time_to_ls_event()),
            dbg(x.date_of_ls_gps_wn()),
            dbg(x.date_of_ls_gps_dn()),
            dbg(x.reserved_2()),
            dbg(x.valid()),
        ],
        PacketRef::CfgTmode3(x) => vec![
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.rcvr_mode()),
            dbg(x.flags()),
            dbg(x.ecef_x_or_lat()),
            dbg(x.ecef_y_or_lon()),
            dbg(x.ecef_z_or_alt()),
            dbg(x.ecef_x_or_lat_hp()),
            dbg(x.ecef_y_or_lon_hp()),
            dbg(x.ecef_z_or_alt_hp()),
            dbg(x.reserved2()),
            dbg(x.fixed_pos_acc()),
            dbg(x.sv_in_min_duration()),
            dbg(x.sv_in_accur_limit()),
            dbg(x.reserved3()),
        ],
        PacketRef::CfgPrtI2c(x) => vec![
            dbg(x.portid()),
            dbg(x.reserved1()),
            dbg(x.tx_ready()),
            dbg(x.mode()),
            dbg(x.reserved2()),
            dbg(x.in_proto_mask()),
            dbg(x.out_proto_mask()),
            dbg(x.flags()),
            dbg(x.reserved3()),
        ],
        PacketRef::CfgPrtUart(x) => vec![
            dbg(x.portid()),
            dbg(x.reserved0()),
            dbg(x.tx_ready()),
            dbg(x.mode()),
            dbg(x.baud_rate()),
            dbg(x.in_proto_mask()),
            dbg(x.out_proto_mask()),
            dbg(x.flags()),
            dbg(x.reserved5()),
        ],
        PacketRef::CfgPrtSpi(x) => vec![
            dbg(x.portid()),
            dbg(x.reserved0()),
            dbg(x.tx_ready()),
            dbg(x.mode()),
            dbg(x.reserved3()),
            dbg(x.in_proto_mask()),
            dbg(x.out_proto_mask()),
            dbg(x.flags()),
            dbg(x.reserved5()),
        ],
        PacketRef::NavTimeUTC(x) => vec![
            dbg(x.itow()),
            dbg(x.time_accuracy_estimate_ns()),
            dbg(x.nanos()),
            dbg(x.year()),
            dbg(x.month()),
            dbg(x.day()),
            dbg(x.hour()),
            dbg(x.min()),
            dbg(x.sec()),
            dbg(x.valid()),
        ],
        PacketRef::CfgNav5(x) => vec![
            dbg(x.mask()),
            dbg(x.dyn_model()),
            dbg(x.fix_mode()),
            dbg(x.fixed_alt()),
            dbg(x.fixed_alt_var()),
            dbg(x.min_elev_degrees()),
            dbg(x.dr_limit()),
            dbg(x.pdop()),
            dbg(x.tdop()),
            dbg(x.pacc()),
            dbg(x.tacc()),
            dbg(x.static_hold_thresh()),
            dbg(x.dgps_time_out()),
            dbg(x.cno_thresh_num_svs()),
            dbg(x.cno_thresh()),
            dbg(x.reserved1()),
            dbg(x.static_hold_max_dist()),
            dbg(x.utc_standard()),
            dbg(x.reserved2()),
        ],
        PacketRef::MgaAck(x) => vec![
            dbg(x.ack_type()),
            dbg(x.version()),
            dbg(x.info_code()),
            dbg(x.msg_id()),
            dbg(x.msg_payload_start()),
        ],
        PacketRef::MgaGloEph(x) => vec![
            dbg(x.msg_type()),
            dbg(x.version()),
            dbg(x.sv_id()),
            dbg(x.reserved1()),
            dbg(x.ft()),
            dbg(x.b()),
            dbg(x.m()),
            dbg(x.h()),
            dbg(x.x()),
            dbg(x.y()),
            dbg(x.z()),
            dbg(x.dx()),
            dbg(x.dy()),
            dbg(x.dz()),
            dbg(x.ddx()),
            dbg(x.ddy()),
            dbg(x.ddz()),
            dbg(x.tb()),
            dbg(x.gamma()),
            dbg(x.e()),
            dbg(x.delta_tau()),
            dbg(x.tau()),
            dbg(x.reserved2()),
        ],
        PacketRef::MgaGpsIono(x) => vec![
            dbg(x.msg_type()),
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.alpha0()),
            dbg(x.alpha1()),
            dbg(x.alpha2()),
            dbg(x.alpha3()),
            dbg(x.beta0()),
            dbg(x.beta1()),
            dbg(x.beta2()),
            dbg(x.beta3()),
            dbg(x.reserved2()),
        ],
        PacketRef::MgaGpsEph(x) => vec![
            dbg(x.msg_type()),
            dbg(x.version()),
            dbg(x.sv_id()),
            dbg(x.reserved1()),
            dbg(x.fit_interval()),
            dbg(x.ura_index()),
            dbg(x.sv_health()),
            dbg(x.tgd()),
            dbg(x.iodc()),
            dbg(x.toc()),
            dbg(x.reserved2()),
            dbg(x.af2()),
            dbg(x.af1()),
            dbg(x.af0()),
            dbg(x.crs()),
            dbg(x.delta_n()),
            dbg(x.m0()),
            dbg(x.cuc()),
            dbg(x.cus()),
            dbg(x.e()),
            dbg(x.sqrt_a()),
            dbg(x.toe()),
            dbg(x.cic()),
            dbg(x.omega0()),
            dbg(x.cis()),
            dbg(x.crc()),
            dbg(x.i0()),
            dbg(x.omega()),
            dbg(x.omega_dot()),
            dbg(x.idot()),
            dbg(x.reserved3()),
        ],
        PacketRef::TimTp(x) => vec![
            dbg(x.tow_ms()),
            dbg(x.tow_sub_ms()),
            dbg(x.q_err()),
            dbg(x.week()),
            dbg(x.flags()),
            dbg(x.ref_info()),
        ],
        PacketRef::TimTm2(x) => vec![
            dbg(x.ch()),
            dbg(x.flags()),
            dbg(x.count()),
            dbg(x.wn_r()),
            dbg(x.wn_f()),
            dbg(x.tow_ms_r()),
            dbg(x.tow_sub_ms_r()),
            dbg(x.tow_ms_f()),
            dbg(x.tow_sub_ms_f()),
            dbg(x.acc_est()),
        ],
        PacketRef::RxmRawx(x) => vec![
            dbg(x.rcv_tow()),
            dbg(x.week()),
            dbg(x.leap_s()),
            dbg(x.num_meas()),
            dbg(x.rec_stat()),
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.measurements()),
        ],
        PacketRef::MonHw(x) => vec![
            dbg(x.pin_sel()),
            dbg(x.pin_bank()),
            dbg(x.pin_dir()),
            dbg(x.pin_val()),
            dbg(x.noise_per_ms()),
            dbg(x.agc_cnt()),
            dbg(x.a_status()),
            dbg(x.a_power()),
            dbg(x.flags()),
            dbg(x.reserved1()),
            dbg(x.used_mask()),
            dbg(x.vp()),
            dbg(x.jam_ind()),
            dbg(x.reserved2()),
            dbg(x.pin_irq()),
            dbg(x.pull_h()),
            dbg(x.pull_l()),
        ],
        PacketRef::MonGnss(x) => vec![
            dbg(x.version()),
            dbg(x.supported()),
            dbg(x.default()),
            dbg(x.enabled()),
            dbg(x.simultaneous()),
            dbg(x.reserved1()),
        ],
        PacketRef::MonVer(x) => vec![
            dbg(x.software_version()),
            dbg(x.hardware_version()),
            dbg(x.extension()),
        ],
        PacketRef::RxmRtcm(x) => vec![
            dbg(x.version()),
            dbg(x.flags()),
            dbg(x.sub_type()),
            dbg(x.ref_station()),
            dbg(x.msg_type()),
        ],
        PacketRef::EsfMeas(x) => vec![
            dbg(x.time_tag()),
            dbg(x.flags()),
            dbg(x.id()),
            dbg(x.data()),
            dbg(x.calib_tag()),
        ],
        PacketRef::EsfRaw(x) => vec![dbg(x.msss()), dbg(x.data())],
        PacketRef::EsfIns(x) => vec![
            dbg(x.bit_field()),
            dbg(x.reserved()),
            dbg(x.itow()),
            dbg(x.x_angular_rate()),
            dbg(x.y_angular_rate()),
            dbg(x.z_angular_rate()),
            dbg(x.x_acceleration()),
            dbg(x.y_acceleration()),
            dbg(x.z_acceleration()),
        ],
        PacketRef::HnrAtt(x) => vec![
            dbg(x.itow()),
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.vehicle_roll()),
            dbg(x.vehicle_pitch()),
            dbg(x.vehicle_heading()),
            dbg(x.vehicle_roll_accuracy()),
            dbg(x.vehicle_pitch_accuracy()),
            dbg(x.vehicle_heading_accuracy()),
        ],
        PacketRef::HnrIns(x) => vec![
            dbg(x.bit_field()),
            dbg(x.reserved()),
            dbg(x.itow()),
            dbg(x.x_angular_rate()),
            dbg(x.y_angular_rate()),
            dbg(x.z_angular_rate()),
            dbg(x.x_acceleration()),
            dbg(x.y_acceleration()),
            dbg(x.z_acceleration()),
        ],
        PacketRef::HnrPvt(x) => vec![
            dbg(x.itow()),
            dbg(x.year()),
            dbg(x.month()),
            dbg(x.day()),
            dbg(x.hour()),
            dbg(x.min()),
            dbg(x.sec()),
            dbg(x.valid()),
            dbg(x.nano()),
            dbg(x.gps_fix()),
            dbg(x.flags()),
            dbg(x.reserved1()),
            dbg(x.longitude()),
            dbg(x.latitude()),
            dbg(x.height_above_ellipsoid()),
            dbg(x.height_msl()),
            dbg(x.ground_speed_2d()),
            dbg(x.speed_3d()),
            dbg(x.heading_motion()),
            dbg(x.heading_vehicle()),
            dbg(x.h_acc()),
            dbg(x.v_acc()),
            dbg(x.s_acc()),
            dbg(x.heading_accurracy()),
            dbg(x.reserved2()),
        ],
        PacketRef::NavAtt(x) => vec![
            dbg(x.itow()),
            dbg(x.version()),
            dbg(x.reserved1()),
            dbg(x.vehicle_roll()),
            dbg(x.vehicle_pitch()),
            dbg(x.vehicle_heading()),
            dbg(x.vehicle_roll_accuracy()),
            dbg(x.vehicle_pitch_accuracy()),
            dbg(x.vehicle_heading_accuracy()),
        ],
        PacketRef::NavClock(x) => vec![
            dbg(x.itow()),
            dbg(x.clk_b()),
            dbg(x.clk_d()),
            dbg(x.t_acc()),
            dbg(x.f_acc()),
        ],
        PacketRef::RxmSfrbx(x) => vec![
            dbg(x.gnss_id()),
            dbg(x.sv_id()),
            dbg(x.reserved1()),
            dbg(x.freq_id()),
            dbg(x.num_words()),
            dbg(x.reserved2()),
            dbg(x.version()),
            dbg(x.reserved3()),
            dbg(x.dwrd()),
        ],
        PacketRef::NavVelECEF(x) => vec![
            dbg(x.itow()),
            dbg(x.ecef_vx()),
            dbg(x.ecef_vy()),
            dbg(x.ecef_vz()),
            dbg(x.s_acc()),
        ],
        PacketRef::MgaGpsEPH(x) => vec![
            dbg(x.msg_type()),
            dbg(x.version()),
            dbg(x.sv_id()),
            dbg(x.reserved1()),
            dbg(x.fit_interval()),
            dbg(x.ura_index()),
            dbg(x.sv_health()),
            dbg(x.tgd()),
            dbg(x.iodc()),
            dbg(x.toc()),
            dbg(x.reserved2()),
            dbg(x.af2()),
            dbg(x.afl()),
            dbg(x.af0()),
            dbg(x.crs()),
            dbg(x.delta_n()),
            dbg(x.m0()),
            dbg(x.cuc()),
            dbg(x.cus()),
            dbg(x.e()),
            dbg(x.sqrt_a()),
            dbg(x.toe()),
            dbg(x.cic()),
            dbg(x.omega0()),
            dbg(x.cis()),
            dbg(x.crc()),
            dbg(x.i0()),
            dbg(x.omega()),
            dbg(x.omega_dot()),
            dbg(x.idot()),
            dbg(x.reserved3()),
        ],
        PacketRef::SecUniqId(x) => vec![dbg(x.version()), dbg(x.reserved1()), dbg(x.unique_id())],
        PacketRef::Unknown(_) => vec![],
    }
}

/// the Debug text of each block, and of what its accessors return
pub fn debug_blocks(p: &PacketRef<'_>) -> (&'static str, Vec<(String, Vec<String>)>) {
    match p {
        PacketRef::NavSat(x) => (
            "NavSatIter",
            x.svs()
                .map(|v| {
                    (
                        dbg(&v),
                        vec![
                            dbg(v.gnss_id()),
                            dbg(v.sv_id()),
                            dbg(v.cno()),
                            dbg(v.elev()),
                            dbg(v.azim()),
                            dbg(v.pr_res()),
                            dbg(v.flags()),
                        ],
                    )
                })
                .collect(),
        ),
        PacketRef::RxmRawx(x) => (
            "RxmRawxInfoIter",
            x.measurements()
                .map(|v| {
                    (
                        dbg(&v),
                        vec![
                            dbg(v.pr_mes()),
                            dbg(v.cp_mes()),
                            dbg(v.do_mes()),
                            dbg(v.gnss_id()),
                            dbg(v.sv_id()),
                            dbg(v.reserved2()),
                            dbg(v.freq_id()),
                            dbg(v.lock_time()),
                            dbg(v.cno()),
                            dbg(v.pr_stdev()),
                            dbg(v.cp_stdev()),
                            dbg(v.do_stdev()),
                            dbg(v.trk_stat()),
                            dbg(v.reserved3()),
                        ],
                    )
                })
                .collect(),
        ),
        PacketRef::EsfMeas(x) => (
            "EsfMeasDataIter",
            x.data().map(|v| (dbg(&v), vec![])).collect(),
        ),
        PacketRef::EsfRaw(x) => (
            "EsfRawDataIter",
            x.data().map(|v| (dbg(&v), vec![])).collect(),
        ),
        _ => ("", vec![]),
    }
}

pub fn meta() -> Vec<(&'static str, u8, u8, Option<u16>, u16)> {
    vec![
        (
            "NavPosLlh",
            NavPosLlh::CLASS,
            NavPosLlh::ID,
            NavPosLlh::FIXED_PAYLOAD_LEN,
            NavPosLlh::MAX_PAYLOAD_LEN,
        ),
        (
            "NavVelNed",
            NavVelNed::CLASS,
            NavVelNed::ID,
            NavVelNed::FIXED_PAYLOAD_LEN,
            NavVelNed::MAX_PAYLOAD_LEN,
        ),
        (
            "NavHpPosLlh",
            NavHpPosLlh::CLASS,
            NavHpPosLlh::ID,
            NavHpPosLlh::FIXED_PAYLOAD_LEN,
            NavHpPosLlh::MAX_PAYLOAD_LEN,
        ),
        (
            "NavHpPosEcef",
            NavHpPosEcef::CLASS,
            NavHpPosEcef::ID,
            NavHpPosEcef::FIXED_PAYLOAD_LEN,
            NavHpPosEcef::MAX_PAYLOAD_LEN,
        ),
        (
            "NavPvt",
            NavPvt::CLASS,
            NavPvt::ID,
            NavPvt::FIXED_PAYLOAD_LEN,
            NavPvt::MAX_PAYLOAD_LEN,
        ),
        (
            "NavStatus",
            NavStatus::CLASS,
            NavStatus::ID,
            NavStatus::FIXED_PAYLOAD_LEN,
            NavStatus::MAX_PAYLOAD_LEN,
        ),
        (
            "NavDop",
            NavDop::CLASS,
            NavDop::ID,
            NavDop::FIXED_PAYLOAD_LEN,
            NavDop::MAX_PAYLOAD_LEN,
        ),
        (
            "NavEoe",
            NavEoe::CLASS,
            NavEoe::ID,
            NavEoe::FIXED_PAYLOAD_LEN,
            NavEoe::MAX_PAYLOAD_LEN,
        ),
        (
            "NavSolution",
            NavSolution::CLASS,
            NavSolution::ID,
            NavSolution::FIXED_PAYLOAD_LEN,
            NavSolution::MAX_PAYLOAD_LEN,
        ),
        (
            "NavSat",
            NavSat::CLASS,
            NavSat::ID,
            NavSat::FIXED_PAYLOAD_LEN,
            NavSat::MAX_PAYLOAD_LEN,
        ),
        (
            "NavOdo",
            NavOdo::CLASS,
            NavOdo::ID,
            NavOdo::FIXED_PAYLOAD_LEN,
            NavOdo::MAX_PAYLOAD_LEN,
        ),
        (
            "NavResetOdo",
            NavResetOdo::CLASS,
            NavResetOdo::ID,
            NavResetOdo::FIXED_PAYLOAD_LEN,
            NavResetOdo::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgOdo",
            CfgOdo::CLASS,
            CfgOdo::ID,
            CfgOdo::FIXED_PAYLOAD_LEN,
            CfgOdo::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgItfm",
            CfgItfm::CLASS,
            CfgItfm::ID,
            CfgItfm::FIXED_PAYLOAD_LEN,
            CfgItfm::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgInf",
            CfgInf::CLASS,
            CfgInf::ID,
            CfgInf::FIXED_PAYLOAD_LEN,
            CfgInf::MAX_PAYLOAD_LEN,
        ),
        (
            "InfError",
            InfError::CLASS,
            InfError::ID,
            InfError::FIXED_PAYLOAD_LEN,
            InfError::MAX_PAYLOAD_LEN,
        ),
        (
            "InfNotice",
            InfNotice::CLASS,
            InfNotice::ID,
            InfNotice::FIXED_PAYLOAD_LEN,
            InfNotice::MAX_PAYLOAD_LEN,
        ),
        (
            "InfTest",
            InfTest::CLASS,
            InfTest::ID,
            InfTest::FIXED_PAYLOAD_LEN,
            InfTest::MAX_PAYLOAD_LEN,
        ),
        (
            "InfWarning",
            InfWarning::CLASS,
            InfWarning::ID,
            InfWarning::FIXED_PAYLOAD_LEN,
            InfWarning::MAX_PAYLOAD_LEN,
        ),
        (
            "InfDebug",
            InfDebug::CLASS,
            InfDebug::ID,
            InfDebug::FIXED_PAYLOAD_LEN,
            InfDebug::MAX_PAYLOAD_LEN,
        ),
        (
            "AidIni",
            AidIni::CLASS,
            AidIni::ID,
            AidIni::FIXED_PAYLOAD_LEN,
            AidIni::MAX_PAYLOAD_LEN,
        ),
        (
            "AlpSrv",
            AlpSrv::CLASS,
            AlpSrv::ID,
            AlpSrv::FIXED_PAYLOAD_LEN,
            AlpSrv::MAX_PAYLOAD_LEN,
        ),
        (
            "AckAck",
            AckAck::CLASS,
            AckAck::ID,
            AckAck::FIXED_PAYLOAD_LEN,
            AckAck::MAX_PAYLOAD_LEN,
        ),
        (
            "AckNak",
            AckNak::CLASS,
            AckNak::ID,
            AckNak::FIXED_PAYLOAD_LEN,
            AckNak::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgRst",
            CfgRst::CLASS,
            CfgRst::ID,
            CfgRst::FIXED_PAYLOAD_LEN,
            CfgRst::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgAnt",
            CfgAnt::CLASS,
            CfgAnt::ID,
            CfgAnt::FIXED_PAYLOAD_LEN,
            CfgAnt::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgTp5",
            CfgTp5::CLASS,
            CfgTp5::ID,
            CfgTp5::FIXED_PAYLOAD_LEN,
            CfgTp5::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgTmode2",
            CfgTmode2::CLASS,
            CfgTmode2::ID,
            CfgTmode2::FIXED_PAYLOAD_LEN,
            CfgTmode2::MAX_PAYLOAD_LEN,
        ),
        (
            "TimSvin",
            TimSvin::CLASS,
            TimSvin::ID,
            TimSvin::FIXED_PAYLOAD_LEN,
            TimSvin::MAX_PAYLOAD_LEN,
        ),
        (
            "NavTimeLs",
            NavTimeLs::CLASS,
            NavTimeLs::ID,
            NavTimeLs::FIXED_PAYLOAD_LEN,
            NavTimeLs::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgTmode3",
            CfgTmode3::CLASS,
            CfgTmode3::ID,
            CfgTmode3::FIXED_PAYLOAD_LEN,
            CfgTmode3::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgValSet",
            CfgValSet::CLASS,
            CfgValSet::ID,
            CfgValSet::FIXED_PAYLOAD_LEN,
            CfgValSet::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgPrtI2c",
            CfgPrtI2c::CLASS,
            CfgPrtI2c::ID,
            CfgPrtI2c::FIXED_PAYLOAD_LEN,
            CfgPrtI2c::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgPrtUart",
            CfgPrtUart::CLASS,
            CfgPrtUart::ID,
            CfgPrtUart::FIXED_PAYLOAD_LEN,
            CfgPrtUart::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgPrtSpi",
            CfgPrtSpi::CLASS,
            CfgPrtSpi::ID,
            CfgPrtSpi::FIXED_PAYLOAD_LEN,
            CfgPrtSpi::MAX_PAYLOAD_LEN,
        ),
        (
            "NavTimeUTC",
            NavTimeUTC::CLASS,
            NavTimeUTC::ID,
            NavTimeUTC::FIXED_PAYLOAD_LEN,
            NavTimeUTC::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgRate",
            CfgRate::CLASS,
            CfgRate::ID,
            CfgRate::FIXED_PAYLOAD_LEN,
            CfgRate::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgMsgSinglePort",
            CfgMsgSinglePort::CLASS,
            CfgMsgSinglePort::ID,
            CfgMsgSinglePort::FIXED_PAYLOAD_LEN,
            CfgMsgSinglePort::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgMsgAllPorts",
            CfgMsgAllPorts::CLASS,
            CfgMsgAllPorts::ID,
            CfgMsgAllPorts::FIXED_PAYLOAD_LEN,
            CfgMsgAllPorts::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgNav5",
            CfgNav5::CLASS,
            CfgNav5::ID,
            CfgNav5::FIXED_PAYLOAD_LEN,
            CfgNav5::MAX_PAYLOAD_LEN,
        ),
        (
            "CfgNavX5",
            CfgNavX5::CLASS,
            CfgNavX5::ID,
            CfgNavX5::FIXED_PAYLOAD_LEN,
            CfgNavX5::MAX_PAYLOAD_LEN,
        ),
        (
            "MgaAck",
            MgaAck::CLASS,
            MgaAck::ID,
            MgaAck::FIXED_PAYLOAD_LEN,
            MgaAck::MAX_PAYLOAD_LEN,
        ),
        (
            "MgaGloEph",
            MgaGloEph::CLASS,
            MgaGloEph::ID,
            MgaGloEph::FIXED_PAYLOAD_LEN,
            MgaGloEph::MAX_PAYLOAD_LEN,
        ),
        (
            "MgaGpsIono",
            MgaGpsIono::CLASS,
            MgaGpsIono::ID,
            MgaGpsIono::FIXED_PAYLOAD_LEN,
            MgaGpsIono::MAX_PAYLOAD_LEN,
        ),
        (
            "MgaGpsEph",
            MgaGpsEph::CLASS,
            MgaGpsEph::ID,
            MgaGpsEph::FIXED_PAYLOAD_LEN,
            MgaGpsEph::MAX_PAYLOAD_LEN,
        ),
        (
            "TimTp",
            TimTp::CLASS,
            TimTp::ID,
            TimTp::FIXED_PAYLOAD_LEN,
            TimTp::MAX_PAYLOAD_LEN,
        ),
        (
            "TimTm2",
            TimTm2::CLASS,
            TimTm2::ID,
            TimTm2::FIXED_PAYLOAD_LEN,
            TimTm2::MAX_PAYLOAD_LEN,
        ),
        (
            "RxmRawx",
            RxmRawx::CLASS,
            RxmRawx::ID,
            RxmRawx::FIXED_PAYLOAD_LEN,
            RxmRawx::MAX_PAYLOAD_LEN,
        ),
        (
            "MonHw",
            MonHw::CLASS,
            MonHw::ID,
            MonHw::FIXED_PAYLOAD_LEN,
            MonHw::MAX_PAYLOAD_LEN,
        ),
        (
            "MonGnss",
            MonGnss::CLASS,
            MonGnss::ID,
            MonGnss::FIXED_PAYLOAD_LEN,
            MonGnss::MAX_PAYLOAD_LEN,
        ),
        (
            "MonVer",
            MonVer::CLASS,
            MonVer::ID,
            MonVer::FIXED_PAYLOAD_LEN,
            MonVer::MAX_PAYLOAD_LEN,
        ),
        (
            "RxmRtcm",
            RxmRtcm::CLASS,
            RxmRtcm::ID,
            RxmRtcm::FIXED_PAYLOAD_LEN,
            RxmRtcm::MAX_PAYLOAD_LEN,
        ),
        (
            "EsfMeas",
            EsfMeas::CLASS,
            EsfMeas::ID,
            EsfMeas::FIXED_PAYLOAD_LEN,
            EsfMeas::MAX_PAYLOAD_LEN,
        ),
        (
            "EsfRaw",
            EsfRaw::CLASS,
            EsfRaw::ID,
            EsfRaw::FIXED_PAYLOAD_LEN,
            EsfRaw::MAX_PAYLOAD_LEN,
        ),
        (
            "EsfIns",
            EsfIns::CLASS,
            EsfIns::ID,
            EsfIns::FIXED_PAYLOAD_LEN,
            EsfIns::MAX_PAYLOAD_LEN,
        ),
        (
            "HnrAtt",
            HnrAtt::CLASS,
            HnrAtt::ID,
            HnrAtt::FIXED_PAYLOAD_LEN,
            HnrAtt::MAX_PAYLOAD_LEN,
        ),
        (
            "HnrIns",
            HnrIns::CLASS,
            HnrIns::ID,
            HnrIns::FIXED_PAYLOAD_LEN,
            HnrIns::MAX_PAYLOAD_LEN,
        ),
        (
            "HnrPvt",
            HnrPvt::CLASS,
            HnrPvt::ID,
            HnrPvt::FIXED_PAYLOAD_LEN,
            HnrPvt::MAX_PAYLOAD_LEN,
        ),
        (
            "NavAtt",
            NavAtt::CLASS,
            NavAtt::ID,
            NavAtt::FIXED_PAYLOAD_LEN,
            NavAtt::MAX_PAYLOAD_LEN,
        ),
        (
            "NavClock",
            NavClock::CLASS,
            NavClock::ID,
            NavClock::FIXED_PAYLOAD_LEN,
            NavClock::MAX_PAYLOAD_LEN,
        ),
        (
            "RxmSfrbx",
            RxmSfrbx::CLASS,
            RxmSfrbx::ID,
            RxmSfrbx::FIXED_PAYLOAD_LEN,
            RxmSfrbx::MAX_PAYLOAD_LEN,
        ),
        (
            "NavVelECEF",
            NavVelECEF::CLASS,
            NavVelECEF::ID,
            NavVelECEF::FIXED_PAYLOAD_LEN,
            NavVelECEF::MAX_PAYLOAD_LEN,
        ),
        (
            "MgaGpsEPH",
            MgaGpsEPH::CLASS,
            MgaGpsEPH::ID,
            MgaGpsEPH::FIXED_PAYLOAD_LEN,
            MgaGpsEPH::MAX_PAYLOAD_LEN,
        ),
        (
            "SecUniqId",
            SecUniqId::CLASS,
            SecUniqId::ID,
            SecUniqId::FIXED_PAYLOAD_LEN,
            SecUniqId::MAX_PAYLOAD_LEN,
        ),
        (
            "NavSatSvInfo",
            NavSatSvInfo::CLASS,
            NavSatSvInfo::ID,
            NavSatSvInfo::FIXED_PAYLOAD_LEN,
            NavSatSvInfo::MAX_PAYLOAD_LEN,
        ),
        (
            "RxmRawxInfo",
            RxmRawxInfo::CLASS,
            RxmRawxInfo::ID,
            RxmRawxInfo::FIXED_PAYLOAD_LEN,
            RxmRawxInfo::MAX_PAYLOAD_LEN,
        ),
    ]
}
