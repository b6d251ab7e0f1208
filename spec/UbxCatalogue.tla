---------------------------- MODULE UbxCatalogue -----------------------------
(***************************************************************************)
(* The message catalogue: every UBX message the library offers, its class, *)
(* id, length rule, and its fields in payload order with width, raw type,  *)
(* accessor name, declared type and declared scale; and the enumerations   *)
(* and flag sets used by the fields.  All data; the meaning is given by    *)
(* UbxPacket.  The conformance drivers are generated from this module      *)
(* (tools/gen_harness.py), so the names they call are these.               *)
(*                                                                         *)
(*  F(name, raw, width)                     plain field                    *)
(*  N(name, accessor, raw, width, float, scale)     scaled number          *)
(*  M(name, accessor, raw, width, kind, type)       mapped field:          *)
(*     kind "flags" | "enum" | "special" (see UbxPacket)                   *)
(*  Msg(name, dir, class, id, length rule, length, default builder, fields)*)
(*     dir "r" received, "s" sent, "rs" both; rule "fixed" | "max"         *)
(***************************************************************************)
EXTENDS Integers, Sequences

F(n, t, w) == [k |-> "plain", n |-> n, a |-> n, t |-> t, w |-> w, u |-> t, s |-> ""]
N(n, a, t, w, ft, s) == [k |-> "scaled", n |-> n, a |-> a, t |-> t, w |-> w, u |-> ft, s |-> s]
M(n, a, t, w, kind, u) == [k |-> kind, n |-> n, a |-> a, t |-> t, w |-> w, u |-> u, s |-> ""]
Msg(n, d, c, i, rule, len, dflt, fs) ==
  [n |-> n, d |-> d, c |-> c, i |-> i, rule |-> rule, len |-> len, dflt |-> dflt, f |-> fs]

(* The blocks repeated inside NAV-SAT and RXM-RAWX are listed first.        *)
Blocks == <<
  Msg("NavSatSvInfo", "r", 1, 53, "fixed", 12, FALSE, <<
      F("gnss_id", "u8", 1),
      F("sv_id", "u8", 1),
      F("cno", "u8", 1),
      F("elev", "i8", 1),
      F("azim", "i16", 2),
      F("pr_res", "i16", 2),
      M("flags", "flags", "u32", 4, "special", "NavSatSvFlags") >>),
  Msg("RxmRawxInfo", "r", 2, 21, "fixed", 32, FALSE, <<
      F("pr_mes", "f64", 8),
      F("cp_mes", "f64", 8),
      F("do_mes", "f32", 4),
      F("gnss_id", "u8", 1),
      F("sv_id", "u8", 1),
      F("reserved2", "u8", 1),
      F("freq_id", "u8", 1),
      F("lock_time", "u16", 2),
      F("cno", "u8", 1),
      M("pr_stdev", "pr_stdev", "u8", 1, "flags", "StdevFlags"),
      M("cp_stdev", "cp_stdev", "u8", 1, "flags", "StdevFlags"),
      M("do_stdev", "do_stdev", "u8", 1, "flags", "StdevFlags"),
      M("trk_stat", "trk_stat", "u8", 1, "flags", "TrkStatFlags"),
      F("reserved3", "u8", 1) >>)
>>

Messages == <<
  Msg("NavPosLlh", "r", 1, 2, "fixed", 28, FALSE, <<
      F("itow", "u32", 4),
      N("lon", "lon_degrees", "i32", 4, "f64", "1e-7"),
      N("lat", "lat_degrees", "i32", 4, "f64", "1e-7"),
      N("height_meters", "height_meters", "i32", 4, "f64", "1e-3"),
      N("height_msl", "height_msl", "i32", 4, "f64", "1e-3"),
      N("h_ack", "h_ack", "u32", 4, "f64", "1e-3"),
      N("v_acc", "v_acc", "u32", 4, "f64", "1e-3") >>),
  Msg("NavVelNed", "r", 1, 18, "fixed", 36, FALSE, <<
      F("itow", "u32", 4),
      N("vel_north", "vel_north", "i32", 4, "f64", "1e-2"),
      N("vel_east", "vel_east", "i32", 4, "f64", "1e-2"),
      N("vel_down", "vel_down", "i32", 4, "f64", "1e-2"),
      N("speed_3d", "speed_3d", "u32", 4, "f64", "1e-2"),
      N("ground_speed", "ground_speed", "u32", 4, "f64", "1e-2"),
      N("heading", "heading_degrees", "i32", 4, "f64", "1e-5"),
      N("speed_accuracy_estimate", "speed_accuracy_estimate", "u32", 4, "f64", "1e-2"),
      N("course_heading_accuracy_estimate", "course_heading_accuracy_estimate", "u32", 4, "f64", "1e-5") >>),
  Msg("NavHpPosLlh", "r", 1, 20, "fixed", 36, FALSE, <<
      F("version", "u8", 1),
      F("reserved1", "bytes", 3),
      F("itow", "u32", 4),
      N("lon", "lon_degrees", "i32", 4, "f64", "1e-7"),
      N("lat", "lat_degrees", "i32", 4, "f64", "1e-7"),
      N("height_meters", "height_meters", "i32", 4, "f64", "1e-3"),
      N("height_msl", "height_msl", "i32", 4, "f64", "1e-3"),
      N("lon_hp", "lon_hp_degrees", "i8", 1, "f64", "1e-9"),
      N("lat_hp", "lat_hp_degrees", "i8", 1, "f64", "1e-9"),
      N("height_hp_meters", "height_hp_meters", "i8", 1, "f64", "1e-1"),
      N("height_hp_msl", "height_hp_msl", "i8", 1, "f64", "1e-1"),
      N("horizontal_accuracy", "horizontal_accuracy", "u32", 4, "f64", "1e-1"),
      N("vertical_accuracy", "vertical_accuracy", "u32", 4, "f64", "1e-1") >>),
  Msg("NavHpPosEcef", "r", 1, 19, "fixed", 28, FALSE, <<
      F("version", "u8", 1),
      F("reserved1", "bytes", 3),
      F("itow", "u32", 4),
      N("ecef_x", "ecef_x_cm", "i32", 4, "f64", "1.0"),
      N("ecef_y", "ecef_y_cm", "i32", 4, "f64", "1.0"),
      N("ecef_z", "ecef_z_cm", "i32", 4, "f64", "1.0"),
      N("ecef_x_hp", "ecef_x_hp_mm", "i8", 1, "f64", "1e-1"),
      N("ecef_y_hp", "ecef_y_hp_mm", "i8", 1, "f64", "1e-1"),
      N("ecef_z_hp", "ecef_z_hp_mm", "i8", 1, "f64", "1e-1"),
      M("flags", "flags", "u8", 1, "flags", "NavHpPosEcefFlags"),
      N("p_acc", "p_acc", "u32", 4, "f64", "1e-1") >>),
  Msg("NavPvt", "r", 1, 7, "fixed", 92, FALSE, <<
      F("itow", "u32", 4),
      F("year", "u16", 2),
      F("month", "u8", 1),
      F("day", "u8", 1),
      F("hour", "u8", 1),
      F("min", "u8", 1),
      F("sec", "u8", 1),
      F("valid", "u8", 1),
      F("time_accuracy", "u32", 4),
      F("nanosecond", "i32", 4),
      M("fix_type", "fix_type", "u8", 1, "enum", "GpsFix"),
      M("flags", "flags", "u8", 1, "flags", "NavPvtFlags"),
      M("flags2", "flags2", "u8", 1, "flags", "NavPvtFlags2"),
      F("num_satellites", "u8", 1),
      N("lon", "lon_degrees", "i32", 4, "f64", "1e-7"),
      N("lat", "lat_degrees", "i32", 4, "f64", "1e-7"),
      N("height_meters", "height_meters", "i32", 4, "f64", "1e-3"),
      N("height_msl", "height_msl", "i32", 4, "f64", "1e-3"),
      F("horiz_accuracy", "u32", 4),
      F("vert_accuracy", "u32", 4),
      N("vel_north", "vel_north", "i32", 4, "f64", "1e-3"),
      N("vel_east", "vel_east", "i32", 4, "f64", "1e-3"),
      N("vel_down", "vel_down", "i32", 4, "f64", "1e-3"),
      N("ground_speed", "ground_speed", "u32", 4, "f64", "1e-3"),
      N("heading", "heading_degrees", "i32", 4, "f64", "1e-5"),
      N("speed_accuracy_estimate", "speed_accuracy_estimate", "u32", 4, "f64", "1e-3"),
      N("heading_accuracy_estimate", "heading_accuracy_estimate", "u32", 4, "f64", "1e-5"),
      F("pdop", "u16", 2),
      F("reserved1", "bytes", 6),
      N("heading_of_vehicle", "heading_of_vehicle_degrees", "i32", 4, "f64", "1e-5"),
      N("magnetic_declination", "magnetic_declination_degrees", "i16", 2, "f64", "1e-2"),
      N("magnetic_declination_accuracy", "magnetic_declination_accuracy_degrees", "u16", 2, "f64", "1e-2") >>),
  Msg("NavStatus", "r", 1, 3, "fixed", 16, FALSE, <<
      F("itow", "u32", 4),
      M("fix_type", "fix_type", "u8", 1, "enum", "GpsFix"),
      M("flags", "flags", "u8", 1, "flags", "NavStatusFlags"),
      M("fix_stat", "fix_stat", "u8", 1, "special", "FixStatusInfo"),
      M("flags2", "flags2", "u8", 1, "enum", "NavStatusFlags2"),
      F("time_to_first_fix", "u32", 4),
      F("uptime_ms", "u32", 4) >>),
  Msg("NavDop", "r", 1, 4, "fixed", 18, FALSE, <<
      F("itow", "u32", 4),
      N("geometric_dop", "geometric_dop", "u16", 2, "f32", "1e-2"),
      N("position_dop", "position_dop", "u16", 2, "f32", "1e-2"),
      N("time_dop", "time_dop", "u16", 2, "f32", "1e-2"),
      N("vertical_dop", "vertical_dop", "u16", 2, "f32", "1e-2"),
      N("horizontal_dop", "horizontal_dop", "u16", 2, "f32", "1e-2"),
      N("northing_dop", "northing_dop", "u16", 2, "f32", "1e-2"),
      N("easting_dop", "easting_dop", "u16", 2, "f32", "1e-2") >>),
  Msg("NavEoe", "r", 1, 97, "fixed", 4, FALSE, <<
      F("itow", "u32", 4) >>),
  Msg("NavSolution", "r", 1, 6, "fixed", 52, FALSE, <<
      F("itow", "u32", 4),
      F("ftow_ns", "i32", 4),
      F("week", "i16", 2),
      M("fix_type", "fix_type", "u8", 1, "enum", "GpsFix"),
      M("flags", "flags", "u8", 1, "flags", "NavStatusFlags"),
      N("ecef_x", "ecef_x", "i32", 4, "f64", "1e-2"),
      N("ecef_y", "ecef_y", "i32", 4, "f64", "1e-2"),
      N("ecef_z", "ecef_z", "i32", 4, "f64", "1e-2"),
      N("position_accuracy_estimate", "position_accuracy_estimate", "u32", 4, "f64", "1e-2"),
      N("ecef_vx", "ecef_vx", "i32", 4, "f64", "1e-2"),
      N("ecef_vy", "ecef_vy", "i32", 4, "f64", "1e-2"),
      N("ecef_vz", "ecef_vz", "i32", 4, "f64", "1e-2"),
      N("speed_accuracy_estimate", "speed_accuracy_estimate", "u32", 4, "f64", "1e-2"),
      N("pdop", "pdop", "u16", 2, "f32", "1e-2"),
      F("reserved1", "u8", 1),
      F("num_sv", "u8", 1),
      F("reserved2", "bytes", 4) >>),
  Msg("NavSat", "r", 1, 53, "max", 1240, FALSE, <<
      F("itow", "u32", 4),
      F("version", "u8", 1),
      F("num_svs", "u8", 1),
      F("reserved", "bytes", 2),
      M("svs", "svs", "bytes", 0, "special", "NavSatIter") >>),
  Msg("NavOdo", "r", 1, 9, "fixed", 20, FALSE, <<
      F("version", "u8", 1),
      F("reserved", "bytes", 3),
      F("itow", "u32", 4),
      F("distance", "u32", 4),
      F("total_distance", "u32", 4),
      F("distance_std", "u32", 4) >>),
  Msg("NavResetOdo", "s", 1, 16, "fixed", 0, FALSE, <<
       >>),
  Msg("CfgOdo", "rs", 6, 30, "fixed", 20, TRUE, <<
      F("version", "u8", 1),
      F("reserved", "bytes", 3),
      M("flags", "flags", "u8", 1, "flags", "OdoCogFilterFlags"),
      M("odo_cfg", "odo_cfg", "u8", 1, "enum", "OdoProfile"),
      F("reserved2", "bytes", 6),
      F("cog_max_speed", "u8", 1),
      F("cog_max_pos_acc", "u8", 1),
      F("reserved3", "bytes", 2),
      F("vel_lp_gain", "u8", 1),
      F("cog_lp_gain", "u8", 1),
      F("reserved4", "bytes", 2) >>),
  Msg("CfgItfm", "rs", 6, 57, "fixed", 8, FALSE, <<
      M("config", "config", "u32", 4, "special", "CfgItfmConfig"),
      M("config2", "config2", "u32", 4, "special", "CfgItfmConfig2") >>),
  Msg("CfgInf", "rs", 6, 2, "fixed", 10, TRUE, <<
      F("protocol_id", "u8", 1),
      F("reserved", "bytes", 3),
      M("inf_msg_mask_0", "inf_msg_mask_0", "u8", 1, "flags", "CfgInfMask"),
      M("inf_msg_mask_1", "inf_msg_mask_1", "u8", 1, "flags", "CfgInfMask"),
      M("inf_msg_mask_2", "inf_msg_mask_2", "u8", 1, "flags", "CfgInfMask"),
      M("inf_msg_mask_3", "inf_msg_mask_3", "u8", 1, "flags", "CfgInfMask"),
      M("inf_msg_mask_4", "inf_msg_mask_4", "u8", 1, "flags", "CfgInfMask"),
      M("inf_msg_mask_5", "inf_msg_mask_5", "u8", 1, "flags", "CfgInfMask") >>),
  Msg("InfError", "r", 4, 0, "max", 1240, TRUE, <<
      M("message", "message", "bytes", 0, "special", "Option<&str>") >>),
  Msg("InfNotice", "r", 4, 2, "max", 1240, TRUE, <<
      M("message", "message", "bytes", 0, "special", "Option<&str>") >>),
  Msg("InfTest", "r", 4, 3, "max", 1240, TRUE, <<
      M("message", "message", "bytes", 0, "special", "Option<&str>") >>),
  Msg("InfWarning", "r", 4, 1, "max", 1240, TRUE, <<
      M("message", "message", "bytes", 0, "special", "Option<&str>") >>),
  Msg("InfDebug", "r", 4, 4, "max", 1240, TRUE, <<
      M("message", "message", "bytes", 0, "special", "Option<&str>") >>),
  Msg("AidIni", "s", 11, 1, "fixed", 48, TRUE, <<
      F("ecef_x_or_lat", "i32", 4),
      F("ecef_y_or_lon", "i32", 4),
      F("ecef_z_or_alt", "i32", 4),
      F("pos_accuracy", "u32", 4),
      F("time_cfg", "u16", 2),
      F("week_or_ym", "u16", 2),
      F("tow_or_hms", "u32", 4),
      F("tow_ns", "i32", 4),
      F("tm_accuracy_ms", "u32", 4),
      F("tm_accuracy_ns", "u32", 4),
      F("clk_drift_or_freq", "i32", 4),
      F("clk_drift_or_freq_accuracy", "u32", 4),
      F("flags", "u32", 4) >>),
  Msg("AlpSrv", "r", 11, 50, "fixed", 16, FALSE, <<
      F("id_size", "u8", 1),
      F("data_type", "u8", 1),
      F("offset", "u16", 2),
      F("size", "u16", 2),
      F("file_id", "u16", 2),
      F("data_size", "u16", 2),
      F("id1", "u8", 1),
      F("id2", "u8", 1),
      F("id3", "u32", 4) >>),
  Msg("AckAck", "r", 5, 1, "fixed", 2, FALSE, <<
      F("class", "u8", 1),
      F("msg_id", "u8", 1) >>),
  Msg("AckNak", "r", 5, 0, "fixed", 2, FALSE, <<
      F("class", "u8", 1),
      F("msg_id", "u8", 1) >>),
  Msg("CfgRst", "s", 6, 4, "fixed", 4, FALSE, <<
      M("nav_bbr_mask", "nav_bbr_mask", "u16", 2, "flags", "NavBbrMask"),
      M("reset_mode", "reset_mode", "u8", 1, "special", "ResetMode"),
      F("reserved1", "u8", 1) >>),
  Msg("CfgAnt", "rs", 6, 19, "fixed", 4, FALSE, <<
      M("flags", "flags", "u16", 2, "flags", "AntFlags"),
      F("pins", "u16", 2) >>),
  Msg("CfgTp5", "rs", 6, 49, "fixed", 32, TRUE, <<
      M("tp_idx", "tp_idx", "u8", 1, "enum", "CfgTp5TimePulseMode"),
      F("version", "u8", 1),
      F("reserved1", "bytes", 2),
      N("ant_cable_delay", "ant_cable_delay", "i16", 2, "f32", "1.0"),
      N("rf_group_delay", "rf_group_delay", "i16", 2, "f32", "1.0"),
      N("freq_period", "freq_period", "u32", 4, "f64", "1.0"),
      N("freq_period_lock", "freq_period_lock", "u32", 4, "f64", "1.0"),
      N("pulse_len_ratio", "pulse_len_ratio", "u32", 4, "f64", "1.0"),
      N("pulse_len_ratio_lock", "pulse_len_ratio_lock", "u32", 4, "f64", "1.0"),
      N("user_delay", "user_delay", "i32", 4, "f64", "1.0"),
      M("flags", "flags", "u32", 4, "flags", "CfgTp5Flags") >>),
  Msg("CfgTmode2", "rs", 6, 61, "fixed", 28, TRUE, <<
      M("time_transfer_mode", "time_transfer_mode", "u8", 1, "enum", "CfgTmode2TimeXferModes"),
      F("reserved1", "u8", 1),
      M("flags", "flags", "u16", 2, "flags", "CfgTmode2Flags"),
      N("ecef_x_or_lat", "ecef_x_or_lat", "i32", 4, "f64", "1e-2"),
      N("ecef_y_or_lon", "ecef_y_or_lon", "i32", 4, "f64", "1e-2"),
      N("ecef_z_or_alt", "ecef_z_or_alt", "i32", 4, "f64", "1e-2"),
      N("fixed_pos_acc", "fixed_pos_acc", "u32", 4, "f64", "1e-3"),
      F("survey_in_min_duration", "u32", 4),
      N("survery_in_accur_limit", "survery_in_accur_limit", "u32", 4, "f64", "1e-3") >>),
  Msg("TimSvin", "r", 13, 4, "fixed", 28, FALSE, <<
      F("dur", "u32", 4),
      F("mean_x", "i32", 4),
      F("mean_y", "i32", 4),
      F("mean_z", "i32", 4),
      F("mean_v", "i32", 4),
      F("obs", "u32", 4),
      F("valid", "u8", 1),
      F("active", "u8", 1),
      F("reserved", "bytes", 2) >>),
  Msg("NavTimeLs", "r", 1, 38, "fixed", 24, FALSE, <<
      F("itow", "u32", 4),
      F("version", "u8", 1),
      F("reserved_1", "bytes", 3),
      F("src_of_curr_ls", "u8", 1),
      F("current_ls", "i8", 1),
      F("src_of_ls_change", "u8", 1),
      F("ls_change", "i8", 1),
      F("time_to_ls_event", "i32", 4),
      F("date_of_ls_gps_wn", "u16", 2),
      F("date_of_ls_gps_dn", "u16", 2),
      F("reserved_2", "bytes", 3),
      M("valid", "valid", "u8", 1, "flags", "NavTimeLsFlags") >>),
  Msg("CfgTmode3", "rs", 6, 113, "fixed", 40, TRUE, <<
      F("version", "u8", 1),
      F("reserved1", "u8", 1),
      M("rcvr_mode", "rcvr_mode", "u8", 1, "flags", "CfgTmode3RcvrMode"),
      M("flags", "flags", "u8", 1, "flags", "CfgTmode3Flags"),
      N("ecef_x_or_lat", "ecef_x_or_lat", "i32", 4, "f64", "1e-2"),
      N("ecef_y_or_lon", "ecef_y_or_lon", "i32", 4, "f64", "1e-2"),
      N("ecef_z_or_alt", "ecef_z_or_alt", "i32", 4, "f64", "1e-2"),
      N("ecef_x_or_lat_hp", "ecef_x_or_lat_hp", "i8", 1, "f32", "1.0"),
      N("ecef_y_or_lon_hp", "ecef_y_or_lon_hp", "i8", 1, "f32", "1.0"),
      N("ecef_z_or_alt_hp", "ecef_z_or_alt_hp", "i8", 1, "f32", "1.0"),
      F("reserved2", "u8", 1),
      N("fixed_pos_acc", "fixed_pos_acc", "u32", 4, "f64", "1e-4"),
      F("sv_in_min_duration", "u32", 4),
      N("sv_in_accur_limit", "sv_in_accur_limit", "u32", 4, "f64", "1e-4"),
      F("reserved3", "bytes", 8) >>),
  Msg("CfgValSet", "s", 6, 138, "max", 772, FALSE, <<
      F("version", "u8", 1),
      M("layers", "layers", "u8", 1, "flags", "CfgLayer"),
      F("reserved1", "u16", 2),
      F("cfg_data", "items", 0) >>),
  Msg("CfgPrtI2c", "rs", 6, 0, "fixed", 20, TRUE, <<
      M("portid", "portid", "u8", 1, "enum", "I2cPortId"),
      F("reserved1", "u8", 1),
      F("tx_ready", "u16", 2),
      F("mode", "u32", 4),
      F("reserved2", "u32", 4),
      M("in_proto_mask", "in_proto_mask", "u16", 2, "flags", "InProtoMask"),
      M("out_proto_mask", "out_proto_mask", "u16", 2, "flags", "OutProtoMask"),
      F("flags", "u16", 2),
      F("reserved3", "u16", 2) >>),
  Msg("CfgPrtUart", "rs", 6, 0, "fixed", 20, FALSE, <<
      M("portid", "portid", "u8", 1, "enum", "UartPortId"),
      F("reserved0", "u8", 1),
      F("tx_ready", "u16", 2),
      M("mode", "mode", "u32", 4, "special", "UartMode"),
      F("baud_rate", "u32", 4),
      M("in_proto_mask", "in_proto_mask", "u16", 2, "flags", "InProtoMask"),
      M("out_proto_mask", "out_proto_mask", "u16", 2, "flags", "OutProtoMask"),
      F("flags", "u16", 2),
      F("reserved5", "u16", 2) >>),
  Msg("CfgPrtSpi", "rs", 6, 0, "fixed", 20, TRUE, <<
      M("portid", "portid", "u8", 1, "enum", "SpiPortId"),
      F("reserved0", "u8", 1),
      F("tx_ready", "u16", 2),
      F("mode", "u32", 4),
      F("reserved3", "u32", 4),
      M("in_proto_mask", "in_proto_mask", "u16", 2, "flags", "InProtoMask"),
      M("out_proto_mask", "out_proto_mask", "u16", 2, "flags", "OutProtoMask"),
      F("flags", "u16", 2),
      F("reserved5", "u16", 2) >>),
  Msg("NavTimeUTC", "r", 1, 33, "fixed", 20, FALSE, <<
      F("itow", "u32", 4),
      F("time_accuracy_estimate_ns", "u32", 4),
      F("nanos", "i32", 4),
      F("year", "u16", 2),
      F("month", "u8", 1),
      F("day", "u8", 1),
      F("hour", "u8", 1),
      F("min", "u8", 1),
      F("sec", "u8", 1),
      M("valid", "valid", "u8", 1, "flags", "NavTimeUtcFlags") >>),
  Msg("CfgRate", "s", 6, 8, "fixed", 6, FALSE, <<
      F("measure_rate_ms", "u16", 2),
      F("nav_rate", "u16", 2),
      M("time_ref", "time_ref", "u16", 2, "special", "AlignmentToReferenceTime") >>),
  Msg("CfgMsgSinglePort", "s", 6, 1, "fixed", 3, FALSE, <<
      F("msg_class", "u8", 1),
      F("msg_id", "u8", 1),
      F("rate", "u8", 1) >>),
  Msg("CfgMsgAllPorts", "s", 6, 1, "fixed", 8, FALSE, <<
      F("msg_class", "u8", 1),
      F("msg_id", "u8", 1),
      F("rates", "bytes", 6) >>),
  Msg("CfgNav5", "rs", 6, 36, "fixed", 36, TRUE, <<
      M("mask", "mask", "u16", 2, "flags", "CfgNav5Params"),
      M("dyn_model", "dyn_model", "u8", 1, "enum", "CfgNav5DynModel"),
      M("fix_mode", "fix_mode", "u8", 1, "enum", "CfgNav5FixMode"),
      N("fixed_alt", "fixed_alt", "i32", 4, "f64", "0.01"),
      N("fixed_alt_var", "fixed_alt_var", "u32", 4, "f64", "0.0001"),
      F("min_elev_degrees", "i8", 1),
      F("dr_limit", "u8", 1),
      N("pdop", "pdop", "u16", 2, "f32", "0.1"),
      N("tdop", "tdop", "u16", 2, "f32", "0.1"),
      F("pacc", "u16", 2),
      F("tacc", "u16", 2),
      N("static_hold_thresh", "static_hold_thresh", "u8", 1, "f32", "0.01"),
      F("dgps_time_out", "u8", 1),
      F("cno_thresh_num_svs", "u8", 1),
      F("cno_thresh", "u8", 1),
      F("reserved1", "bytes", 2),
      F("static_hold_max_dist", "u16", 2),
      M("utc_standard", "utc_standard", "u8", 1, "enum", "CfgNav5UtcStandard"),
      F("reserved2", "bytes", 5) >>),
  Msg("CfgNavX5", "rs", 6, 35, "fixed", 40, TRUE, <<
      F("version", "u16", 2),
      M("mask1", "mask1", "u16", 2, "flags", "CfgNavX5Params1"),
      M("mask2", "mask2", "u32", 4, "flags", "CfgNavX5Params2"),
      F("reserved1", "bytes", 2),
      F("min_svs", "u8", 1),
      F("max_svs", "u8", 1),
      F("min_cno_dbhz", "u8", 1),
      F("reserved2", "u8", 1),
      F("ini_fix_3d", "u8", 1),
      F("reserved3", "bytes", 2),
      F("ack_aiding", "u8", 1),
      F("wkn_rollover", "u16", 2),
      F("sig_atten_comp_mode", "u8", 1),
      F("reserved4", "u8", 1),
      F("reserved5", "bytes", 2),
      F("reserved6", "bytes", 2),
      F("use_ppp", "u8", 1),
      F("aop_cfg", "u8", 1),
      F("reserved7", "bytes", 2),
      F("aop_orb_max_err", "u16", 2),
      F("reserved8", "bytes", 4),
      F("reserved9", "bytes", 3),
      F("use_adr", "u8", 1) >>),
  Msg("MgaAck", "r", 19, 96, "fixed", 8, FALSE, <<
      F("ack_type", "u8", 1),
      F("version", "u8", 1),
      M("info_code", "info_code", "u8", 1, "enum", "MsgAckInfoCode"),
      F("msg_id", "u8", 1),
      F("msg_payload_start", "bytes", 4) >>),
  Msg("MgaGloEph", "r", 19, 6, "fixed", 48, FALSE, <<
      F("msg_type", "u8", 1),
      F("version", "u8", 1),
      F("sv_id", "u8", 1),
      F("reserved1", "u8", 1),
      F("ft", "u8", 1),
      F("b", "u8", 1),
      F("m", "u8", 1),
      F("h", "i8", 1),
      F("x", "i32", 4),
      F("y", "i32", 4),
      F("z", "i32", 4),
      F("dx", "i32", 4),
      F("dy", "i32", 4),
      F("dz", "i32", 4),
      F("ddx", "i8", 1),
      F("ddy", "i8", 1),
      F("ddz", "i8", 1),
      F("tb", "u8", 1),
      F("gamma", "u16", 2),
      F("e", "u8", 1),
      F("delta_tau", "u8", 1),
      F("tau", "i32", 4),
      F("reserved2", "bytes", 4) >>),
  Msg("MgaGpsIono", "r", 19, 0, "fixed", 16, FALSE, <<
      F("msg_type", "u8", 1),
      F("version", "u8", 1),
      F("reserved1", "bytes", 2),
      N("alpha0", "alpha0", "i8", 1, "f64", "1.0"),
      N("alpha1", "alpha1", "i8", 1, "f64", "1.0"),
      N("alpha2", "alpha2", "i8", 1, "f64", "1.0"),
      N("alpha3", "alpha3", "i8", 1, "f64", "1.0"),
      N("beta0", "beta0", "i8", 1, "f64", "1.0"),
      N("beta1", "beta1", "i8", 1, "f64", "1.0"),
      N("beta2", "beta2", "i8", 1, "f64", "1.0"),
      N("beta3", "beta3", "i8", 1, "f64", "1.0"),
      F("reserved2", "bytes", 4) >>),
  Msg("MgaGpsEph", "r", 19, 0, "fixed", 68, FALSE, <<
      F("msg_type", "u8", 1),
      F("version", "u8", 1),
      F("sv_id", "u8", 1),
      F("reserved1", "u8", 1),
      F("fit_interval", "u8", 1),
      F("ura_index", "u8", 1),
      F("sv_health", "u8", 1),
      F("tgd", "i8", 1),
      F("iodc", "u16", 2),
      F("toc", "u16", 2),
      F("reserved2", "u8", 1),
      F("af2", "i8", 1),
      F("af1", "i16", 2),
      F("af0", "i32", 4),
      F("crs", "i16", 2),
      F("delta_n", "i16", 2),
      F("m0", "i32", 4),
      F("cuc", "i16", 2),
      F("cus", "i16", 2),
      F("e", "u32", 4),
      F("sqrt_a", "u32", 4),
      F("toe", "u16", 2),
      F("cic", "i16", 2),
      F("omega0", "i32", 4),
      F("cis", "i16", 2),
      F("crc", "i16", 2),
      F("i0", "i32", 4),
      F("omega", "i32", 4),
      F("omega_dot", "i32", 4),
      F("idot", "i16", 2),
      F("reserved3", "bytes", 2) >>),
  Msg("TimTp", "r", 13, 1, "fixed", 16, FALSE, <<
      F("tow_ms", "u32", 4),
      F("tow_sub_ms", "u32", 4),
      F("q_err", "i32", 4),
      F("week", "u16", 2),
      M("flags", "flags", "u8", 1, "special", "TimTpFlags"),
      M("ref_info", "ref_info", "u8", 1, "special", "TimTpRefInfo") >>),
  Msg("TimTm2", "r", 13, 3, "fixed", 28, FALSE, <<
      F("ch", "u8", 1),
      M("flags", "flags", "u8", 1, "special", "TimTm2Flags"),
      F("count", "u16", 2),
      F("wn_r", "u16", 2),
      F("wn_f", "u16", 2),
      F("tow_ms_r", "u32", 4),
      F("tow_sub_ms_r", "u32", 4),
      F("tow_ms_f", "u32", 4),
      F("tow_sub_ms_f", "u32", 4),
      F("acc_est", "u32", 4) >>),
  Msg("RxmRawx", "r", 2, 21, "max", 8176, FALSE, <<
      F("rcv_tow", "f64", 8),
      F("week", "u16", 2),
      F("leap_s", "i8", 1),
      F("num_meas", "u8", 1),
      M("rec_stat", "rec_stat", "u8", 1, "flags", "RecStatFlags"),
      F("version", "u8", 1),
      F("reserved1", "bytes", 2),
      M("measurements", "measurements", "bytes", 0, "special", "RxmRawxInfoIter") >>),
  Msg("MonHw", "r", 10, 9, "fixed", 60, FALSE, <<
      F("pin_sel", "u32", 4),
      F("pin_bank", "u32", 4),
      F("pin_dir", "u32", 4),
      F("pin_val", "u32", 4),
      F("noise_per_ms", "u16", 2),
      F("agc_cnt", "u16", 2),
      M("a_status", "a_status", "u8", 1, "enum", "AntennaStatus"),
      M("a_power", "a_power", "u8", 1, "enum", "AntennaPower"),
      F("flags", "u8", 1),
      F("reserved1", "u8", 1),
      F("used_mask", "u32", 4),
      F("vp", "bytes", 17),
      F("jam_ind", "u8", 1),
      F("reserved2", "bytes", 2),
      F("pin_irq", "u32", 4),
      F("pull_h", "u32", 4),
      F("pull_l", "u32", 4) >>),
  Msg("MonGnss", "r", 10, 40, "fixed", 8, FALSE, <<
      F("version", "u8", 1),
      M("supported", "supported", "u8", 1, "flags", "MonGnssConstellMask"),
      M("default", "default", "u8", 1, "flags", "MonGnssConstellMask"),
      M("enabled", "enabled", "u8", 1, "flags", "MonGnssConstellMask"),
      F("simultaneous", "u8", 1),
      F("reserved1", "bytes", 3) >>),
  Msg("MonVer", "r", 10, 4, "max", 1240, FALSE, <<
      M("software_version", "software_version", "bytes", 30, "special", "&str"),
      M("hardware_version", "hardware_version", "bytes", 10, "special", "&str"),
      M("extension", "extension", "bytes", 0, "special", "MonVerExtensionIter") >>),
  Msg("RxmRtcm", "r", 2, 50, "fixed", 8, FALSE, <<
      F("version", "u8", 1),
      F("flags", "u8", 1),
      F("sub_type", "u16", 2),
      F("ref_station", "u16", 2),
      F("msg_type", "u16", 2) >>),
  Msg("EsfMeas", "r", 16, 2, "max", 1240, FALSE, <<
      F("time_tag", "u32", 4),
      F("flags", "u16", 2),
      F("id", "u16", 2),
      M("data", "data", "bytes", 0, "special", "EsfMeasDataIter"),
      M("calib_tag", "calib_tag", "bytes", 0, "special", "Option<u32>") >>),
  Msg("EsfRaw", "r", 16, 3, "max", 1240, FALSE, <<
      F("msss", "u32", 4),
      M("data", "data", "bytes", 0, "special", "EsfRawDataIter") >>),
  Msg("EsfIns", "r", 16, 21, "fixed", 36, FALSE, <<
      M("bit_field", "bit_field", "u32", 4, "flags", "EsfInsBitFlags"),
      F("reserved", "bytes", 4),
      F("itow", "u32", 4),
      N("x_ang_rate", "x_angular_rate", "i32", 4, "f64", "1e-3"),
      N("y_ang_rate", "y_angular_rate", "i32", 4, "f64", "1e-3"),
      N("z_ang_rate", "z_angular_rate", "i32", 4, "f64", "1e-3"),
      N("x_accel", "x_acceleration", "i32", 4, "f64", "1e-2"),
      N("y_accel", "y_acceleration", "i32", 4, "f64", "1e-2"),
      N("z_accel", "z_acceleration", "i32", 4, "f64", "1e-2") >>),
  Msg("HnrAtt", "r", 40, 1, "fixed", 32, FALSE, <<
      F("itow", "u32", 4),
      F("version", "u8", 1),
      F("reserved1", "bytes", 3),
      N("roll", "vehicle_roll", "i32", 4, "f64", "1e-5"),
      N("pitch", "vehicle_pitch", "i32", 4, "f64", "1e-5"),
      N("heading", "vehicle_heading", "i32", 4, "f64", "1e-5"),
      N("acc_roll", "vehicle_roll_accuracy", "u32", 4, "f64", "1e-5"),
      N("acc_pitch", "vehicle_pitch_accuracy", "u32", 4, "f64", "1e-5"),
      N("acc_heading", "vehicle_heading_accuracy", "u32", 4, "f64", "1e-5") >>),
  Msg("HnrIns", "r", 40, 2, "fixed", 36, FALSE, <<
      M("bit_field", "bit_field", "u32", 4, "flags", "HnrInsBitFlags"),
      F("reserved", "bytes", 4),
      F("itow", "u32", 4),
      N("x_ang_rate", "x_angular_rate", "i32", 4, "f64", "1e-3"),
      N("y_ang_rate", "y_angular_rate", "i32", 4, "f64", "1e-3"),
      N("z_ang_rate", "z_angular_rate", "i32", 4, "f64", "1e-3"),
      N("x_accel", "x_acceleration", "i32", 4, "f64", "1e-2"),
      N("y_accel", "y_acceleration", "i32", 4, "f64", "1e-2"),
      N("z_accel", "z_acceleration", "i32", 4, "f64", "1e-2") >>),
  Msg("HnrPvt", "r", 40, 0, "fixed", 72, FALSE, <<
      F("itow", "u32", 4),
      F("year", "u16", 2),
      F("month", "u8", 1),
      F("day", "u8", 1),
      F("hour", "u8", 1),
      F("min", "u8", 1),
      F("sec", "u8", 1),
      M("valid", "valid", "u8", 1, "flags", "HnrPvtValidFlags"),
      F("nano", "i32", 4),
      M("gps_fix", "gps_fix", "u8", 1, "enum", "GpsFix"),
      M("flags", "flags", "u8", 1, "flags", "HnrPvtFlags"),
      F("reserved1", "bytes", 2),
      N("lon", "longitude", "i32", 4, "f64", "1e-7"),
      N("lat", "latitude", "i32", 4, "f64", "1e-7"),
      N("height", "height_above_ellipsoid", "i32", 4, "f64", "1e-3"),
      N("height_msl", "height_msl", "i32", 4, "f64", "1e-3"),
      N("g_speed", "ground_speed_2d", "i32", 4, "f64", "1e-3"),
      N("speed", "speed_3d", "i32", 4, "f64", "1e-3"),
      N("head_mot", "heading_motion", "i32", 4, "f64", "1e-5"),
      N("head_veh", "heading_vehicle", "i32", 4, "f64", "1e-5"),
      F("h_acc", "u32", 4),
      F("v_acc", "u32", 4),
      F("s_acc", "u32", 4),
      N("head_acc", "heading_accurracy", "u32", 4, "f64", "1e-5"),
      F("reserved2", "bytes", 4) >>),
  Msg("NavAtt", "r", 1, 5, "fixed", 32, FALSE, <<
      F("itow", "u32", 4),
      F("version", "u8", 1),
      F("reserved1", "bytes", 3),
      N("roll", "vehicle_roll", "i32", 4, "f64", "1e-5"),
      N("pitch", "vehicle_pitch", "i32", 4, "f64", "1e-5"),
      N("heading", "vehicle_heading", "i32", 4, "f64", "1e-5"),
      N("acc_roll", "vehicle_roll_accuracy", "u32", 4, "f64", "1e-5"),
      N("acc_pitch", "vehicle_pitch_accuracy", "u32", 4, "f64", "1e-5"),
      N("acc_heading", "vehicle_heading_accuracy", "u32", 4, "f64", "1e-5") >>),
  Msg("NavClock", "r", 1, 34, "fixed", 20, FALSE, <<
      F("itow", "u32", 4),
      F("clk_b", "i32", 4),
      F("clk_d", "i32", 4),
      F("t_acc", "u32", 4),
      F("f_acc", "u32", 4) >>),
  Msg("RxmSfrbx", "r", 2, 19, "max", 72, FALSE, <<
      F("gnss_id", "u8", 1),
      F("sv_id", "u8", 1),
      F("reserved1", "u8", 1),
      F("freq_id", "u8", 1),
      F("num_words", "u8", 1),
      F("reserved2", "u8", 1),
      F("version", "u8", 1),
      F("reserved3", "u8", 1),
      M("dwrd", "dwrd", "bytes", 0, "special", "DwrdIter") >>),
  Msg("NavVelECEF", "r", 1, 17, "fixed", 20, FALSE, <<
      F("itow", "u32", 4),
      F("ecef_vx", "i32", 4),
      F("ecef_vy", "i32", 4),
      F("ecef_vz", "u32", 4),
      F("s_acc", "u32", 4) >>),
  Msg("MgaGpsEPH", "r", 19, 0, "fixed", 68, FALSE, <<
      F("msg_type", "u8", 1),
      F("version", "u8", 1),
      F("sv_id", "u8", 1),
      F("reserved1", "u8", 1),
      F("fit_interval", "u8", 1),
      F("ura_index", "u8", 1),
      F("sv_health", "u8", 1),
      N("tgd", "tgd", "i8", 1, "f64", "2e-31"),
      F("iodc", "u16", 2),
      N("toc", "toc", "u16", 2, "f64", "2e+4"),
      F("reserved2", "u8", 1),
      N("af2", "af2", "i8", 1, "f64", "2e-55"),
      N("afl", "afl", "i16", 2, "f64", "2e-43"),
      N("af0", "af0", "i32", 4, "f64", "2e-31"),
      N("crs", "crs", "i16", 2, "f64", "2e-5"),
      N("delta_n", "delta_n", "i16", 2, "f64", "2e-43"),
      N("m0", "m0", "i32", 4, "f64", "2e-31"),
      N("cuc", "cuc", "i16", 2, "f64", "2e-29"),
      N("cus", "cus", "i16", 2, "f64", "2e-29"),
      N("e", "e", "u32", 4, "f64", "2e-33"),
      N("sqrt_a", "sqrt_a", "u32", 4, "f64", "2e-19"),
      N("toe", "toe", "u16", 2, "f64", "2e+4"),
      N("cic", "cic", "i16", 2, "f64", "2e-29"),
      N("omega0", "omega0", "i32", 4, "f64", "2e-31"),
      N("cis", "cis", "i16", 2, "f64", "2e-29"),
      N("crc", "crc", "i16", 2, "f64", "2e-5"),
      N("i0", "i0", "i32", 4, "f64", "2e-31"),
      N("omega", "omega", "i32", 4, "f64", "2e-31"),
      N("omega_dot", "omega_dot", "i32", 4, "f64", "2e-43"),
      N("idot", "idot", "i16", 2, "f64", "2e-43"),
      F("reserved3", "bytes", 2) >>),
  Msg("SecUniqId", "r", 39, 3, "fixed", 9, FALSE, <<
      F("version", "u8", 1),
      F("reserved1", "bytes", 3),
      F("unique_id", "bytes", 5) >>)
>>

(* Received messages in the order in which dispatch tries them.              *)
Order == <<
  "NavPosLlh", "NavStatus", "NavDop", "NavPvt", "NavSolution", "NavVelNed",
  "NavHpPosLlh", "NavHpPosEcef", "NavTimeUTC", "NavTimeLs", "NavSat",
  "NavEoe", "NavOdo", "CfgOdo", "MgaAck", "MgaGpsIono", "MgaGpsEph",
  "MgaGloEph", "AlpSrv", "AckAck", "AckNak", "CfgItfm", "CfgPrtI2c",
  "CfgPrtSpi", "CfgPrtUart", "CfgNav5", "CfgAnt", "CfgTmode2", "CfgTmode3",
  "CfgTp5", "InfError", "InfWarning", "InfNotice", "InfTest", "InfDebug",
  "RxmRawx", "TimTp", "TimTm2", "MonVer", "MonGnss", "MonHw", "RxmRtcm",
  "EsfMeas", "EsfIns", "HnrAtt", "HnrIns", "HnrPvt", "NavAtt", "NavClock",
  "NavVelECEF", "MgaGpsEPH", "RxmSfrbx", "EsfRaw", "TimSvin", "SecUniqId">>

(* rest "reserved": undefined codes are kept as Reserved<n>; "error": they   *)
(* make the message invalid.                                                 *)
Enums == <<
  [n |-> "GpsFix", rest |-> "reserved", raw |-> FALSE, v |-> <<<<0, "NoFix">>,
     <<1, "DeadReckoningOnly">>, <<2, "Fix2D">>, <<3, "Fix3D">>, <<4,
     "GPSPlusDeadReckoning">>, <<5, "TimeOnlyFix">>>>],
  [n |-> "NavStatusFlags2", rest |-> "reserved", raw |-> FALSE, v |-> <<<<0,
     "Acquisition">>, <<1, "Tracking">>, <<2, "PowerOptimizedTracking">>, <<3,
     "Inactive">>>>],
  [n |-> "OdoProfile", rest |-> "error", raw |-> TRUE, v |-> <<<<0,
     "Running">>, <<1, "Cycling">>, <<2, "Swimming">>, <<3, "Car">>, <<4,
     "Custom">>>>],
  [n |-> "CfgItfmAntennaSettings", rest |-> "error", raw |-> TRUE, v |->
     <<<<0, "Unknown">>, <<1, "Active">>, <<2, "Passive">>>>],
  [n |-> "CfgTp5TimePulseMode", rest |-> "error", raw |-> TRUE, v |-> <<<<0,
     "TimePulse">>, <<1, "TimePulse2">>>>],
  [n |-> "CfgTmode2TimeXferModes", rest |-> "error", raw |-> TRUE, v |->
     <<<<0, "Disabled">>, <<1, "SurveyIn">>, <<2, "FixedMode">>>>],
  [n |-> "I2cPortId", rest |-> "error", raw |-> TRUE, v |-> <<<<0, "I2c">>>>],
  [n |-> "UartPortId", rest |-> "error", raw |-> TRUE, v |-> <<<<1, "Uart1">>,
     <<2, "Uart2">>, <<3, "Usb">>>>],
  [n |-> "SpiPortId", rest |-> "error", raw |-> TRUE, v |-> <<<<4, "Spi">>>>],
  [n |-> "CfgNav5DynModel", rest |-> "error", raw |-> TRUE, v |-> <<<<0,
     "Portable">>, <<2, "Stationary">>, <<3, "Pedestrian">>, <<4,
     "Automotive">>, <<5, "Sea">>, <<6, "AirborneWithLess1gAcceleration">>,
     <<7, "AirborneWithLess2gAcceleration">>, <<8,
     "AirborneWith4gAcceleration">>, <<9, "WristWornWatch">>, <<10,
     "Bike">>>>],
  [n |-> "CfgNav5FixMode", rest |-> "error", raw |-> TRUE, v |-> <<<<1,
     "Only2D">>, <<2, "Only3D">>, <<3, "Auto2D3D">>>>],
  [n |-> "CfgNav5UtcStandard", rest |-> "error", raw |-> TRUE, v |-> <<<<0,
     "Automatic">>, <<3, "Usno">>, <<6, "UtcSu">>, <<7, "UtcChina">>>>],
  [n |-> "MsgAckInfoCode", rest |-> "reserved", raw |-> FALSE, v |-> <<<<0,
     "Accepted">>, <<1, "RejectedNoTime">>, <<2, "RejectedBadVersion">>, <<3,
     "RejectedBadSize">>, <<4, "RejectedDBStoreFailed">>, <<5,
     "RejectedNotReady">>, <<6, "RejectedUnknownType">>>>],
  [n |-> "AntennaStatus", rest |-> "reserved", raw |-> FALSE, v |-> <<<<0,
     "Init">>, <<1, "DontKnow">>, <<2, "Ok">>, <<3, "Short">>, <<4,
     "Open">>>>],
  [n |-> "AntennaPower", rest |-> "reserved", raw |-> FALSE, v |-> <<<<0,
     "Off">>, <<1, "On">>, <<2, "DontKnow">>>>]
>>

(* c: <<bit, name>>; undefined bits are kept as RESERVED<bit>                 *)
FlagSets == <<
  [n |-> "NavHpPosEcefFlags", w |-> 1, c |-> <<<<0, "INVALID_ECEF">>>>],
  [n |-> "NavPvtFlags", w |-> 1, c |-> <<<<0, "GPS_FIX_OK">>, <<1,
     "DIFF_SOLN">>, <<5, "HEAD_VEH_VALID">>, <<6, "CARR_SOLN_FLOAT">>, <<7,
     "CARR_SOLN_FIXED">>>>],
  [n |-> "NavPvtFlags2", w |-> 1, c |-> <<<<5, "CONFIRMED_AVAI">>, <<6,
     "CONFIRMED_DATE">>, <<7, "CONFIRMED_TIME">>>>],
  [n |-> "NavStatusFlags", w |-> 1, c |-> <<<<0, "GPS_FIX_OK">>, <<1,
     "DIFF_SOLN">>, <<2, "WKN_SET">>, <<3, "TOW_SET">>>>],
  [n |-> "OdoCogFilterFlags", w |-> 1, c |-> <<<<0, "USE_ODO">>, <<1,
     "USE_COG">>, <<2, "OUT_LP_VEL">>, <<3, "OUT_LP_COG">>>>],
  [n |-> "CfgInfMask", w |-> 1, c |-> <<<<0, "ERROR">>, <<1, "WARNING">>, <<2,
     "NOTICE">>, <<3, "TEST">>, <<4, "DEBUG">>>>],
  [n |-> "AntFlags", w |-> 2, c |-> <<<<0, "SVCS">>, <<1, "SCD">>, <<2,
     "OCD">>, <<3, "PDWN_ON_SCD">>, <<4, "RECOVERY">>>>],
  [n |-> "CfgTmode2Flags", w |-> 2, c |-> <<<<0, "LLA">>, <<1,
     "ALT_INVALID">>>>],
  [n |-> "NavTimeLsFlags", w |-> 1, c |-> <<<<0, "VALID_CURR_LS">>, <<1,
     "VALID_TIME_TO_LS_EVENT">>>>],
  [n |-> "CfgTmode3RcvrMode", w |-> 1, c |-> <<<<0, "DISABLED">>, <<1,
     "SURVEY_IN">>, <<2, "FIXED_MODE">>>>],
  [n |-> "CfgTp5Flags", w |-> 4, c |-> <<<<0, "ACTIVE">>, <<1,
     "LOCK_GNSS_FREQ">>, <<2, "LOCKED_OTHER_SET">>, <<3, "IS_FREQ">>, <<4,
     "IS_LENGTH">>, <<5, "ALIGN_TO_TOW">>, <<6, "POLARITY">>, <<7,
     "UTC_TIME_GRID">>, <<8, "GPS_TIME_GRID">>, <<9, "GLO_TIME_GRID">>, <<10,
     "BDS_TIME_GRID">>, <<11, "GAL_TIME_GRID">>, <<12, "SYNC_MODE_0">>, <<13,
     "SYNC_MODE_1">>>>],
  [n |-> "CfgTmode3Flags", w |-> 1, c |-> <<<<0, "LLA">>>>],
  [n |-> "NavBbrMask", w |-> 2, c |-> <<<<0, "EPHEMERIS">>, <<1, "ALMANACH">>,
     <<2, "HEALTH">>, <<3, "KLOBUCHARD">>, <<4, "POSITION">>, <<5,
     "CLOCK_DRIFT">>, <<6, "OSCILATOR_PARAMETER">>, <<7,
     "UTC_CORRECTION_PARAMETERS">>, <<8, "RTC">>, <<11, "SFDR_PARAMETERS">>,
     <<12, "SFDR_VEHICLE_MONITORING_PARAMETERS">>, <<13, "TCT_PARAMETERS">>,
     <<15, "AUTONOMOUS_ORBIT_PARAMETERS">>>>],
  [n |-> "CfgLayer", w |-> 1, c |-> <<<<0, "RAM">>, <<1, "BBR">>, <<2,
     "FLASH">>>>],
  [n |-> "InProtoMask", w |-> 2, c |-> <<<<0, "UBLOX">>, <<1, "NMEA">>, <<2,
     "RTCM">>, <<5, "RTCM3">>>>],
  [n |-> "OutProtoMask", w |-> 2, c |-> <<<<0, "UBLOX">>, <<1, "NMEA">>, <<5,
     "RTCM3">>>>],
  [n |-> "NavTimeUtcFlags", w |-> 1, c |-> <<<<0, "VALID_TOW">>, <<1,
     "VALID_WKN">>, <<2, "VALID_UTC">>>>],
  [n |-> "CfgNav5Params", w |-> 2, c |-> <<<<0, "DYN">>, <<1, "MIN_EL">>, <<2,
     "POS_FIX_MODE">>, <<3, "DR_LIM">>, <<4, "POS_MASK_APPLY">>, <<5,
     "TIME_MASK">>, <<6, "STATIC_HOLD_MASK">>, <<7, "DGPS_MASK">>, <<8,
     "CNO_THRESHOLD">>, <<10, "UTC">>>>],
  [n |-> "CfgNavX5Params1", w |-> 2, c |-> <<<<2, "MIN_MAX">>, <<3,
     "MIN_CNO">>, <<6, "INITIAL_3D_FIX">>, <<9, "WKN_ROLL">>, <<10,
     "AID_ACK">>, <<13, "USE_PPP">>, <<14, "AOP_CFG">>>>],
  [n |-> "CfgNavX5Params2", w |-> 4, c |-> <<<<6, "USE_ADR">>, <<7,
     "USE_SIG_ATTEN_COMP">>>>],
  [n |-> "RecStatFlags", w |-> 1, c |-> <<<<0, "LEAP_SEC">>, <<1,
     "CLK_RESET">>>>],
  [n |-> "MonGnssConstellMask", w |-> 1, c |-> <<<<0, "GPS">>, <<1, "GLO">>,
     <<2, "BDC">>, <<3, "GAL">>>>],
  [n |-> "EsfInsBitFlags", w |-> 4, c |-> <<<<0, "VERSION">>, <<8,
     "X_ANG_RATE_VALID">>, <<9, "Y_ANG_RATE_VALID">>, <<10,
     "Z_ANG_RATE_VALID">>, <<11, "X_ACCEL_VALID">>, <<12, "Y_ACCEL_VALID">>,
     <<13, "Z_ACCEL_VALID">>>>],
  [n |-> "HnrInsBitFlags", w |-> 4, c |-> <<<<0, "VERSION">>, <<8,
     "X_ANG_RATE_VALID">>, <<9, "Y_ANG_RATE_VALID">>, <<10,
     "Z_ANG_RATE_VALID">>, <<11, "X_ACCEL_VALID">>, <<12, "Y_ACCEL_VALID">>,
     <<13, "Z_ACCEL_VALID">>>>],
  [n |-> "HnrPvtFlags", w |-> 1, c |-> <<<<0, "GPS_FIX_OK">>, <<1,
     "DIFF_SOLN">>, <<2, "WKN_SET">>, <<3, "TOW_SET">>, <<4,
     "HEAD_VEH_VALID">>>>],
  [n |-> "HnrPvtValidFlags", w |-> 1, c |-> <<<<0, "VALID_DATE">>, <<1,
     "VALID_TIME">>, <<2, "FULLY_RESOLVED">>>>],
  [n |-> "StdevFlags", w |-> 1, c |-> <<<<0, "STD_1">>, <<1, "STD_2">>, <<2,
     "STD_3">>, <<3, "STD_4">>>>],
  [n |-> "TrkStatFlags", w |-> 1, c |-> <<<<0, "PR_VALID">>, <<1,
     "CP_VALID">>, <<2, "HALF_CYCLE">>, <<3, "SUB_HALF_CYCLE">>>>]
>>
=============================================================================
