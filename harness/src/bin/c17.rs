//! C17: a recorded game survives saving as EVF, loading and analysing.
use harness::*;
use ms_toollib::{EvfVideo, GameBoardState};
use oracle::game::*;
use oracle::video::*;
use oracle::*;

fn round(ctx: &mut Ctx) {
    let (r, c, n) = random_field(&mut ctx.rng, 60);
    let board = random_board(&mut ctx.rng, r, c, n);
    let pix = *ctx.rng.pick(&[16usize, 16, 20, 1, 7, 48, 255]);
    let late = ctx.rng.chance(0.3);
    let first = if late { vec![vec![0; c]; r] } else { board.clone() };
    let mut v = Live::new_before_game(first, pix as u8);
    let games = if ctx.rng.chance(0.3) { 2 } else { 1 };
    let mut b = board;
    for g in 0..games {
        if g > 0 {
            v.reset(r, c, pix as u8);
            b = random_board(&mut ctx.rng, r, c, n);
        }
        if (late || g > 0) && !ctx.check(v.set_board(b.clone()).is_ok(), "set_board", || "refused".into()) {
            return;
        }
        let p = player(&mut ctx.rng);
        let plan = Plan { pix, max_steps: *ctx.rng.pick(&[0, 60, 250, 400]), tick: *ctx.rng.pick(&[0u32, 5, 300, 3000]), player: p, pf: 0, unfinished: false };
        let (evs, _) = script(&mut ctx.rng, &b, plan);
        if !play(ctx, &mut v, &evs) || !one(ctx, &mut v, &b, pix, &evs) {
            return;
        }
    }
}

fn one(ctx: &mut Ctx, v: &mut Live, b: &B, pix: usize, evs: &[Ev]) -> bool {
    let rp = replay(b, pix, evs);
    let inp = || format!("pixel size {pix} {} on {}", fmt_evs(evs), fmt_board(b));
    if !ctx.check(v.game_board_state == state_of(rp.game.st) && rp.game.over(), "live end", || format!("{:?} instead of {:?}: {}", v.game_board_state, rp.game.st, inp())) {
        return false;
    }
    // identity of the recording
    let flags = (ctx.rng.chance(0.5), ctx.rng.chance(0.5));
    let mode = if ctx.rng.chance(0.7) { ctx.rng.below(11) } else { ctx.rng.below(65536) };
    let mut text: [Vec<u8>; 8] = Default::default();
    for t in text.iter_mut() {
        *t = random_text(&mut ctx.rng);
    }
    let keep_times = ctx.rng.chance(0.5);
    let ok = [v.set_is_offical(flags.0), v.set_is_fair(flags.1), v.set_mode(mode as u16), v.set_software(text[0].clone()), v.set_player_designator(text[1].clone()), v.set_race_designator(text[2].clone()), v.set_uniqueness_designator(text[3].clone()), v.set_country(text[6].clone()), v.set_device_uuid(text[7].clone())].iter().all(|x| x.is_ok());
    if !ctx.check(ok, "setters refuse after the game", inp) {
        return false;
    }
    if keep_times {
        text[4] = v.start_time.clone();
        text[5] = v.end_time.clone();
    } else {
        v.set_start_time(text[4].clone()).ok();
        v.set_end_time(text[5].clone()).ok();
    }
    let sum: Option<[u8; 32]> = if ctx.rng.chance(0.5) { Some(std::array::from_fn(|_| ctx.rng.below(256) as u8)) } else { None };
    let f = Scratch::new("");
    let Some(_) = ctx.guard("generate and save", inp, || {
        v.generate_evf_v0_raw_data();
        if let Some(s) = sum {
            let _ = v.set_checksum(s);
        }
        v.save_to_evf_file(&f.0);
    }) else { return false };
    let f = Scratch(format!("{}.evf", f.0));
    let raw = v.get_raw_data().unwrap_or_default();
    let disk = std::fs::read(&f.0).unwrap_or_default();
    if !ctx.check(!disk.is_empty() && disk == raw, "saved bytes", || format!("{} bytes on disk, {} in memory: {}", disk.len(), raw.len(), inp())) {
        return false;
    }
    let mut w = EvfVideo::new(&f.0);
    let Some(x) = ctx.guard("EvfVideo::parse_video", inp, || w.parse_video()) else { return false };
    if !ctx.check(x.is_ok(), "own file refused", || format!("{x:?} {}", inp())) {
        return false;
    }
    let w = &mut w.data;
    ctx.ev("files", 1);
    ctx.ev("bytes", raw.len() as u64);
    let txt = [&w.software, &w.player_designator, &w.race_designator, &w.uniqueness_designator, &w.start_time, &w.end_time, &w.country, &w.device_uuid];
    for (k, name) in ["software", "player", "race", "uniqueness", "start time", "end time", "country", "device"].iter().enumerate() {
        if !ctx.check(*txt[k] == text[k], name, || format!("{:?} instead of {:?}", txt[k], text[k])) {
            return false;
        }
    }
    let level = match (b.len(), b[0].len(), mine_count(b)) { (8, 8, 10) => 3, (16, 16, 40) => 4, (16, 30, 99) => 5, _ => 6 };
    let got = (w.height, w.width, w.mine_num, w.level, w.cell_pixel_size as usize, w.mode as usize, w.static_params.bbbv, (w.is_completed, w.is_offical, w.is_fair), w.get_rtime_ms().unwrap());
    let exp = (b.len(), b[0].len(), mine_count(b), level, pix, mode, bbbv(b), (rp.game.st == St::Win, flags.0, flags.1), v.get_rtime_ms().unwrap());
    if !ctx.check(got == exp, "facts", || format!("(h, w, mines, level, pixel, mode, 3bv, flags, ms) = {got:?} instead of {exp:?}: {}", inp()))
        || !ctx.check(w.board == *b, "layout", || format!("{} instead of {}", fmt_board(&w.board), fmt_board(b)))
        || !ctx.check(w.get_checksum().unwrap() == sum.unwrap_or([0; 32]), "checksum", || format!("{:?} instead of {:?}", w.get_checksum(), sum))
        || !ctx.check((w.get_rtime().unwrap() - v.get_rtime().unwrap()).abs() < 1e-9, "result time", inp)
    {
        return false;
    }
    if !ctx.check(w.video_action_state_recorder.len() == evs.len(), "number of events", || format!("{} instead of {}: {}", w.video_action_state_recorder.len(), evs.len(), inp())) {
        return false;
    }
    for (k, (a, l)) in w.video_action_state_recorder.iter().zip(&v.video_action_state_recorder).enumerate() {
        if !ctx.check(a.mouse == l.mouse && (a.x, a.y) == (l.x, l.y) && (a.time - l.time).abs() < 1e-9, "event", || format!("event {k}: {} ({},{}) {} instead of {} ({},{}) {}", a.mouse, a.y, a.x, a.time, l.mouse, l.y, l.x, l.time)) {
            return false;
        }
    }
    ctx.ev("events", evs.len() as u64);
    // playing it again gives what was recorded live
    let Some(_) = ctx.guard("analyse", inp, || w.analyse()) else { return false };
    if let Some(d) = differs(w, &rp, evs) {
        ctx.fail("analysed", format!("{d}: {}", inp()));
        return false;
    }
    let start = rp.start.unwrap();
    let base = w.video_action_state_recorder[start].path;
    for (k, (a, l)) in w.video_action_state_recorder.iter().zip(&v.video_action_state_recorder).enumerate() {
        let (m, q) = (&a.key_dynamic_params, &l.key_dynamic_params);
        let p = if k >= start { a.path - base } else { a.path };
        let ok = a.useful_level == l.useful_level
            && (a.prior_game_board_id, a.next_game_board_id) == (l.prior_game_board_id, l.next_game_board_id)
            && (m.left, m.right, m.double, m.ce, m.flag, m.bbbv_solved) == (q.left, q.right, q.double, q.ce, q.flag, q.bbbv_solved)
            && a.mouse_state == l.mouse_state
            && (p - l.path).abs() < 1e-6 * (1.0 + l.path)
            && w.game_board_stream[a.next_game_board_id].game_board == v.game_board_stream[l.next_game_board_id].game_board;
        if !ctx.check(ok, "live and analysed", || format!("event {k} {}: level {}/{} boards {}/{} left {}/{} right {}/{} double {}/{} ce {}/{} flag {}/{} 3bv {}/{} path {p}/{} mouse {:?}/{:?}: {}", a.mouse, a.useful_level, l.useful_level, a.next_game_board_id, l.next_game_board_id, m.left, q.left, m.right, q.right, m.double, q.double, m.ce, q.ce, m.flag, q.flag, m.bbbv_solved, q.bbbv_solved, l.path, a.mouse_state, l.mouse_state, inp())) {
            return false;
        }
    }
    let (s, t) = (&w.static_params, &v.static_params);
    let f1 = (s.bbbv, s.op, s.isl, s.cell0, s.cell1, s.cell2, s.cell3, s.cell4, (s.cell5, s.cell6, s.cell7, s.cell8));
    let f2 = (t.bbbv, t.op, t.isl, t.cell0, t.cell1, t.cell2, t.cell3, t.cell4, (t.cell5, t.cell6, t.cell7, t.cell8));
    if !ctx.check(f1 == f2 && w.is_completed == v.is_completed && w.game_board_state == GameBoardState::Display, "layout facts", || format!("{f1:?} {} instead of {f2:?} {}: {}", w.is_completed, v.is_completed, inp())) {
        return false;
    }
    // the clock of the player runs from the start of the game to the result
    let lim = (w.get_video_start_time().unwrap(), w.get_video_end_time().unwrap());
    let st = v.video_action_state_recorder[start].time;
    if !ctx.check((lim.0 + st).abs() < 1e-9 && (lim.1 - v.get_rtime().unwrap()).abs() < 1e-9, "player clock", || format!("{lim:?} but the game starts at {st} and takes {:?}: {}", v.get_rtime(), inp())) {
        return false;
    }
    // at the end of playback the counters are those of the finished live game
    w.set_current_time(lim.1 + 1.0);
    let e1 = (w.get_left(), w.get_right(), w.get_double(), w.get_cl(), w.get_flag(), w.get_ce(), w.get_bbbv_solved());
    let e2 = (v.get_left(), v.get_right(), v.get_double(), v.get_cl(), v.get_flag(), v.get_ce(), v.get_bbbv_solved());
    if !ctx.check(e1 == e2, "final counters", || format!("{e1:?} instead of {e2:?}: {}", inp())) {
        return false;
    }
    // saving what was loaded changes nothing
    w.generate_evf_v0_raw_data();
    let again = w.get_raw_data().unwrap();
    let body = raw.len() - if sum.is_some() { 33 } else { 1 };
    if !ctx.check(again.len() > body && again[..body] == raw[..body] && (sum.is_some() || again == raw), "encoding again", || format!("{} bytes instead of {}: {}", again.len(), raw.len(), inp())) {
        return false;
    }
    ctx.seen(hash_bytes(&raw[..body]));
    ctx.ev(if rp.game.st == St::Win { "wins" } else { "losses" }, 1);
    if rp.snaps.iter().filter(|s| s.st == St::Pre).any(|s| s.flag > 0) {
        ctx.ev("with_pre_flags", 1);
    }
    if start + 1 == evs.len() {
        ctx.ev("over_at_first_click", 1);
    }
    if sum.is_some() {
        ctx.ev("with_checksum", 1);
    }
    ctx.sample(|| format!("{} bytes, {} events, {:?}: {}", raw.len(), evs.len(), rp.game.st, inp()));
    true
}

fn main() {
    engine::main(Spec {
        id: "C17",
        rule: "a live game played to its end, saved as EVF, loaded and analysed; distinct by file content",
        stages: vec![Stage { name: "round", quick: 20000, thorough: 600000, f: round }],
        finish: None,
        assumptions: &["texts hold no NUL byte", "games shorter than 16777 s, fields up to 255x255", "the path is compared from the starting click on"],
        must_see: &["wins", "losses", "with_pre_flags", "over_at_first_click", "with_checksum"],
    })
}
