//! What a recording shows, by the names other languages use.
use crate::*;

/// the answer of the library, `None` when it refuses
pub fn try_v<T: ToV>(f: impl FnOnce() -> Result<T, ()>) -> V {
    match quiet(f) {
        Ok(Ok(x)) => x.v(),
        _ => V::E("*".into()),
    }
}
pub fn lib_v<T: ToV>(f: impl FnOnce() -> T) -> V {
    match quiet(f) {
        Ok(x) => x.v(),
        Err(_) => V::E("*".into()),
    }
}

macro_rules! facts {
    ($d:expr) => {{
        let d = $d;
        let s = &d.static_params;
        vec![
            ("raw_data", try_v(|| d.get_raw_data())),
            ("software", d.software.v()),
            ("row", d.height.v()),
            ("column", d.width.v()),
            ("level", d.level.v()),
            ("mode", d.mode.v()),
            ("is_completed", d.is_completed.v()),
            ("is_offical", d.is_offical.v()),
            ("is_fair", d.is_fair.v()),
            ("mine_num", d.mine_num.v()),
            ("player_designator", d.player_designator.v()),
            ("race_designator", d.race_designator.v()),
            ("uniqueness_designator", d.uniqueness_designator.v()),
            ("country", d.country.v()),
            ("checksum", try_v(|| d.get_checksum())),
            ("bbbv", s.bbbv.v()),
            ("op", s.op.v()),
            ("isl", s.isl.v()),
            ("hizi", s.hizi.v()),
            ("cell0", s.cell0.v()),
            ("cell1", s.cell1.v()),
            ("cell2", s.cell2.v()),
            ("cell3", s.cell3.v()),
            ("cell4", s.cell4.v()),
            ("cell5", s.cell5.v()),
            ("cell6", s.cell6.v()),
            ("cell7", s.cell7.v()),
            ("cell8", s.cell8.v()),
            ("left", lib_v(|| d.get_left())),
            ("right", lib_v(|| d.get_right())),
            ("double", lib_v(|| d.get_double())),
            ("cl", lib_v(|| d.get_cl())),
            ("flag", lib_v(|| d.get_flag())),
            ("bbbv_solved", try_v(|| d.get_bbbv_solved())),
            ("ce", try_v(|| d.get_ce())),
            ("path", lib_v(|| d.get_path())),
            ("ioe", try_v(|| d.get_ioe())),
            ("thrp", try_v(|| d.get_thrp())),
            ("corr", try_v(|| d.get_corr())),
            ("events_len", d.video_action_state_recorder.len().v()),
            ("game_board", lib_v(|| d.get_game_board())),
            ("x_y", try_v(|| d.get_x_y())),
        ]
    }};
}
/// what does not depend on the clock
pub fn facts_live(d: &Live) -> Vec<(&'static str, V)> {
    let mut f = facts!(d);
    f.push(("mouse_state", lib_v(|| d.get_mouse_state())));
    f
}
pub fn facts_parsed(d: &Parsed) -> Vec<(&'static str, V)> {
    let mut f = facts!(d);
    f.push(("start_time", d.start_time.v()));
    f.push(("end_time", d.end_time.v()));
    f.push(("current_event_id", d.current_event_id.v()));
    f.push(("mouse_state", lib_v(|| mouse_no(d.video_action_state_recorder[d.current_event_id].mouse_state))));
    f
}
/// what depends on the clock
pub fn rates(d: &Parsed) -> Vec<(&'static str, V)> {
    vec![
        ("time", lib_v(|| d.get_time())),
        ("rtime", try_v(|| d.get_rtime())),
        ("rtime_ms", try_v(|| d.get_rtime_ms())),
        ("etime", try_v(|| d.get_etime())),
        ("video_start_time", try_v(|| d.get_video_start_time())),
        ("video_end_time", try_v(|| d.get_video_end_time())),
        ("bbbv_s", try_v(|| d.get_bbbv_s())),
        ("stnb", try_v(|| d.get_stnb())),
        ("rqp", try_v(|| d.get_rqp())),
        ("left_s", lib_v(|| d.get_left_s())),
        ("right_s", lib_v(|| d.get_right_s())),
        ("double_s", lib_v(|| d.get_double_s())),
        ("cl_s", lib_v(|| d.get_cl_s())),
        ("flag_s", lib_v(|| d.get_flag_s())),
        ("ce_s", try_v(|| d.get_ce_s())),
    ]
}
