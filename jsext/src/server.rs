//! Serves the JavaScript interface to the harness. Part of the interface's board module, whose recordings are private.
use super::*;
use oracle::{ToV, V};
use std::collections::HashMap;
use std::io::{BufRead, Write};

enum Obj {
    Board(MinesweeperBoard),
    Avf(AvfVideo),
    Evf(EvfVideo),
    Mvf(MvfVideo),
    Rmv(RmvVideo),
}

/// what JavaScript would pass as JSON text
fn json(v: &V) -> String {
    match v {
        V::L(l) | V::T(l) => format!("[{}]", l.iter().map(json).collect::<Vec<_>>().join(",")),
        V::S(s) => format!("{s:?}"),
        V::F(x) => format!("{x:?}"),
        _ => v.text(),
    }
}
/// what JavaScript would read from JSON text
fn read(s: String) -> V {
    V::parse(&s).unwrap_or_else(|e| V::E(format!("bad JSON, {e}")))
}
fn xy(p: CursorPos) -> V {
    (p.0, p.1).v()
}
fn i(v: &V) -> i32 {
    v.int() as i32
}

fn function(name: &str, a: &[V]) -> V {
    match name {
        "cal_bbbv" => crate::cal_bbbv(&json(&a[0])).v(),
        "cal_op" => crate::cal_op(&json(&a[0])).v(),
        "cal_possibility_onboard" => read(crate::cal_possibility_onboard(&json(&a[0]), i(&a[1]))),
        "laymine_number" => read(crate::laymine_number(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4]))),
        "laymine_op_number" => read(crate::laymine_op_number(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4]))),
        "laymine_solvable" => read(crate::laymine_solvable(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4]), i(&a[5]))),
        // the core as the web build compiles it
        "core_laymine_solvable_adjust" => ms::laymine_solvable_adjust(a[0].us(), a[1].us(), a[2].us(), a[3].us(), a[4].us()).v(),
        "core_cal_possibility" => match ms::cal_possibility(&a[0].board(), a[1].num()) {
            Ok(x) => x.v(),
            Err(_) => V::E("*".into()),
        },
        "core_mark_board" => {
            let mut b = a[0].board();
            match ms::mark_board(&mut b) {
                Ok(_) => b.v(),
                Err(_) => V::E("*".into()),
            }
        }
        "core_cal_isl" => ms::cal_isl(&a[0].board()).v(),
        "core_unsolvable_structure" => ms::unsolvable_structure(&a[0].board()).v(),
        "core_is_solvable" => ms::is_solvable(&a[0].board(), a[1].us(), a[2].us()).v(),
        "core_is_able_to_solve" => ms::is_able_to_solve(&mut a[0].board(), &(a[1].us(), a[2].us())).v(),
        "core_is_guess_while_needless" => ms::is_guess_while_needless(&mut a[0].board(), &(a[1].us(), a[2].us())).v(),
        "core_cal_is_op_possibility_cells" => ms::cal_is_op_possibility_cells(&a[0].board(), a[1].num(), &a[2].list().iter().map(|p| [p.list()[0].us(), p.list()[1].us()]).collect()).v(),
        _ => V::E(format!("no function {name}")),
    }
}

fn board(o: &mut MinesweeperBoard, op: &str, name: &str, a: &[V]) -> V {
    match (op, name) {
        ("m", "step") => o.step(a[0].str(), a[1].int() as u32, a[2].int() as u32).v(),
        ("m", "step_flow") => o.step_flow(&json(&a[0])).v(),
        ("s", "board") => o.set_board(&json(&a[0])).v(),
        ("s", "game_board") => o.set_game_board(&json(&a[0])).v(),
        ("g", "board") => read(o.get_board()),
        ("g", "game_board") => read(o.get_game_board()),
        ("g", "left") => o.get_left().v(),
        ("g", "right") => o.get_right().v(),
        ("g", "double") => o.get_double().v(),
        ("g", "ce") => o.get_ce().v(),
        ("g", "flag") => o.get_flag().v(),
        ("g", "bbbv_solved") => o.get_bbbv_solved().v(),
        ("g", "row") => o.get_row().v(),
        ("g", "column") => o.get_column().v(),
        ("g", "game_board_state") => o.get_game_board_state().v(),
        ("g", "mouse_state") => o.get_mouse_state().v(),
        _ => V::E(format!("no {op} {name}")),
    }
}

macro_rules! video {
    ($f:ident, $t:ident) => {
        fn $f(o: &mut $t, op: &str, name: &str, a: &[V]) -> V {
            match (op, name) {
                ("m", "parse_video") => o.parse_video().v(),
                ("m", "analyse") => o.analyse().v(),
                ("m", "events_time") => o.events_time(a[0].us()).v(),
                ("m", "events_mouse") => o.events_mouse(a[0].us()).v(),
                ("m", "events_x") => o.events_x(a[0].us()).v(),
                ("m", "events_y") => o.events_y(a[0].us()).v(),
                ("m", "events_useful_level") => o.events_useful_level(a[0].us()).v(),
                ("m", "events_mouse_state") => o.events_mouse_state(a[0].us()).v(),
                ("m", "is_valid") => o.is_valid().v(),
                ("s", "current_event_id") => o.set_current_event_id(a[0].us()).v(),
                ("s", "current_time") => o.set_current_time(a[0].num()).v(),
                ("g", "game_board") => read(o.get_game_board()),
                ("g", "game_board_poss") => read(o.get_game_board_poss()),
                ("g", "x_y") => xy(o.get_x_y()),
                ("g", "raw_data") => o.get_raw_data().v(),
                ("g", "software") => o.get_software().v(),
                ("g", "row") => o.get_row().v(),
                ("g", "column") => o.get_column().v(),
                ("g", "level") => o.get_level().v(),
                ("g", "mode") => o.get_mode().v(),
                ("g", "is_completed") => o.get_is_completed().v(),
                ("g", "is_offical") => o.get_is_offical().v(),
                ("g", "is_fair") => o.get_is_fair().v(),
                ("g", "mine_num") => o.get_mine_num().v(),
                ("g", "player_designator") => o.get_player_designator().v(),
                ("g", "race_designator") => o.get_race_designator().v(),
                ("g", "uniqueness_designator") => o.get_uniqueness_designator().v(),
                ("g", "country") => o.get_country().v(),
                ("g", "device_uuid") => o.get_device_uuid().v(),
                ("g", "bbbv") => o.get_bbbv().v(),
                ("g", "start_time") => o.get_start_time().v(),
                ("g", "end_time") => o.get_end_time().v(),
                ("g", "op") => o.get_op().v(),
                ("g", "isl") => o.get_isl().v(),
                ("g", "hizi") => o.get_hizi().v(),
                ("g", "cell0") => o.get_cell0().v(),
                ("g", "cell1") => o.get_cell1().v(),
                ("g", "cell2") => o.get_cell2().v(),
                ("g", "cell3") => o.get_cell3().v(),
                ("g", "cell4") => o.get_cell4().v(),
                ("g", "cell5") => o.get_cell5().v(),
                ("g", "cell6") => o.get_cell6().v(),
                ("g", "cell7") => o.get_cell7().v(),
                ("g", "cell8") => o.get_cell8().v(),
                ("g", "rtime") => o.get_rtime().v(),
                ("g", "rtime_ms") => o.get_rtime_ms().v(),
                ("g", "etime") => o.get_etime().v(),
                ("g", "video_start_time") => o.get_video_start_time().v(),
                ("g", "video_end_time") => o.get_video_end_time().v(),
                ("g", "bbbv_s") => o.get_bbbv_s().v(),
                ("g", "stnb") => o.get_stnb().v(),
                ("g", "rqp") => o.get_rqp().v(),
                ("g", "left") => o.get_left().v(),
                ("g", "right") => o.get_right().v(),
                ("g", "double") => o.get_double().v(),
                ("g", "cl") => o.get_cl().v(),
                ("g", "flag") => o.get_flag().v(),
                ("g", "bbbv_solved") => o.get_bbbv_solved().v(),
                ("g", "ce") => o.get_ce().v(),
                ("g", "left_s") => o.get_left_s().v(),
                ("g", "right_s") => o.get_right_s().v(),
                ("g", "double_s") => o.get_double_s().v(),
                ("g", "cl_s") => o.get_cl_s().v(),
                ("g", "flag_s") => o.get_flag_s().v(),
                ("g", "path") => o.get_path().v(),
                ("g", "ce_s") => o.get_ce_s().v(),
                ("g", "ioe") => o.get_ioe().v(),
                ("g", "thrp") => o.get_thrp().v(),
                ("g", "corr") => o.get_corr().v(),
                ("g", "events_len") => o.get_events_len().v(),
                ("g", "current_event_id") => o.get_current_event_id().v(),
                ("g", "mouse_state") => o.get_mouse_state().v(),
                ("g", "game_board_state") => o.get_game_board_state().v(),
                ("g", "checksum") => o.get_checksum().v(),
                ("g", "pix_size") => o.get_pix_size().v(),
                _ => V::E(format!("no {op} {name}")),
            }
        }
    };
}
video!(avf, AvfVideo);
video!(evf, EvfVideo);
video!(mvf, MvfVideo);
video!(rmv, RmvVideo);

fn one(slots: &mut HashMap<usize, Obj>, c: &V) -> V {
    let c = c.list();
    let op = c[0].str();
    match op {
        "x" => {
            slots.clear();
            V::N
        }
        "f" => function(c[1].str(), &c[2..]),
        "n" => {
            let class = c[2].str();
            let a = &c[3..];
            let data = |v: &V| v.bytes().into_boxed_slice();
            let o = match class {
                "MinesweeperBoard" => Obj::Board(MinesweeperBoard::new(&json(&a[0]))),
                "AvfVideo" => Obj::Avf(AvfVideo::new(data(&a[0]), a[1].str())),
                "EvfVideo" => Obj::Evf(EvfVideo::new(data(&a[0]), a[1].str())),
                "MvfVideo" => Obj::Mvf(MvfVideo::new(data(&a[0]), a[1].str())),
                "RmvVideo" => Obj::Rmv(RmvVideo::new(data(&a[0]), a[1].str())),
                _ => return V::E(format!("no class {class}")),
            };
            slots.insert(c[1].us(), o);
            V::O(class.into())
        }
        "z" => V::N,
        _ => {
            let (name, a) = (c[2].str(), &c[3..]);
            match slots.get_mut(&c[1].us()) {
                None => V::E("no object".into()),
                Some(Obj::Board(o)) => board(o, op, name, a),
                Some(Obj::Avf(o)) => avf(o, op, name, a),
                Some(Obj::Evf(o)) => evf(o, op, name, a),
                Some(Obj::Mvf(o)) => mvf(o, op, name, a),
                Some(Obj::Rmv(o)) => rmv(o, op, name, a),
            }
        }
    }
}

pub fn main() {
    if std::env::var("VK_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = out.write_all(b"ready\n").and_then(|_| out.flush());
    let mut slots = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let cmds = V::parse(&line).expect("a list of commands");
        let ans: Vec<V> = cmds.list().iter().map(|c| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut slots, c))).unwrap_or(V::E("trap".into()))).collect();
        let mut t = V::L(ans).text();
        t.push('\n');
        if out.write_all(t.as_bytes()).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
