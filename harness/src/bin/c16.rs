//! C16: recording of live games: events, times, path, boards, counters, results.
use ms_toollib::{BaseVideo, GameBoardState, MouseState, SafeBoard};
use oracle::game::*;
use oracle::*;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

fn mouse(g: &Game) -> (MouseState, usize) {
    match (g.l, g.r) {
        (false, false) => (MouseState::UpUp, 1),
        (false, true) if g.dull => (MouseState::UpDownNotFlag, 3),
        (false, true) => (MouseState::UpDown, 2),
        (true, false) if g.after => (MouseState::DownUpAfterChording, 7),
        (true, false) => (MouseState::DownUp, 4),
        (true, true) if g.dull => (MouseState::ChordingNotFlag, 6),
        (true, true) => (MouseState::Chording, 5),
    }
}
fn state(g: &Game) -> GameBoardState {
    match g.st {
        St::Ready => GameBoardState::Ready,
        St::Pre => GameBoardState::PreFlaging,
        St::Playing => GameBoardState::Playing,
        St::Win => GameBoardState::Win,
        St::Loss => GameBoardState::Loss,
    }
}
fn micros(b: &[u8]) -> Option<u128> {
    std::str::from_utf8(b).ok()?.parse().ok()
}
fn now_us() -> u128 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_micros()
}
struct Ev {
    e: &'static str,
    px: (usize, usize),
    level: u8,
    prior: usize,
    next: usize,
    path: f64,
    left: usize,
    right: usize,
    double: usize,
    ce: usize,
    flag: usize,
    bbbv: usize,
    mouse: MouseState,
}

fn drive(ctx: &mut Ctx, v: &mut BaseVideo<SafeBoard>, board: &B, pix: usize, steps: usize, first: B) -> bool {
    let (r, c) = (board.len(), board[0].len());
    let mut g = Game::new(&first);
    let mut set_at = if first != *board { Some(ctx.rng.below(6)) } else { None };
    let mut pl = Player::new(&mut ctx.rng);
    let slow = *ctx.rng.pick(&[0u64, 3, 300, 4000]);
    let mut log: Vec<String> = vec![];
    let mut evs: Vec<Ev> = vec![];
    let mut boards: Vec<B> = vec![];
    let mut h = hash_board(board);
    let mut last_in: Option<((usize, usize), f64)> = None;
    let mut start_ev: Option<usize> = None;
    let mut extra = 4;
    let mut start_wall = (0u128, 0u128);
    for k in 0..steps {
        if let Some(n) = set_at {
            let untouched = g.gb.iter().flatten().all(|x| *x == 10);
            if k >= n && g.st != St::Playing && untouched {
                let wrong: B = if ctx.rng.chance(0.5) { vec![vec![0; c + 1]; r] } else { vec![vec![0; c]; r + 1] };
                let inp = || format!("{} on {}", log.join(" "), fmt_board(board));
                let Some(x) = ctx.guard("set_board", inp, || (v.set_board(wrong), v.set_board(board.clone()))) else { return false };
                if !ctx.check(x.0.is_err() && x.1.is_ok(), "set_board", || format!("wrong size {:?} right size {:?}", x.0, x.1)) {
                    return false;
                }
                g.set_layout(board);
                set_at = None;
                ctx.ev("boards_set_late", 1);
                let n = mine_count(board);
                let level = match (r, c, n) { (8, 8, 10) => 3, (16, 16, 40) => 4, (16, 30, 99) => 5, _ => 6 };
                if !ctx.check(v.mine_num == n && v.level == level, "set_board:facts", || format!("mines {} level {}", v.mine_num, v.level)) {
                    return false;
                }
            } else if k >= n && !untouched {
                set_at = Some(usize::MAX);
            }
        }
        let (e, p) = pl.next(&mut ctx.rng, &g);
        if set_at.is_some() && (e == "rc" || e == "pf" || e == "lr" || e == "l" || e == "r") {
            // nothing is opened or flagged before the layout is known
            set_at = Some(0);
            if e != "lr" || g.gb.iter().flatten().any(|x| *x != 10) {
                continue;
            }
            v.set_board(board.clone()).unwrap();
            g.set_layout(board);
            set_at = None;
            ctx.ev("boards_set_at_first_click", 1);
        }
        let px = if g.inside(p) { (p.0 * pix + ctx.rng.below(pix), p.1 * pix + ctx.rng.below(pix)) } else { (r * pix, c * pix) };
        log.push(format!("{e}@{},{}", px.0, px.1));
        let k0 = log.len().saturating_sub(50);
        let inp = || format!("pixel size {pix}: ...{} on {}", log[k0..].join(" "), fmt_board(board));
        let before = g.st;
        let over = before == St::Win || before == St::Loss;
        let want = g.step(e, p);
        // time passes
        if slow > 0 && g.st != St::Ready {
            let d = Duration::from_micros(ctx.rng.below(1 + slow as usize * 1000) as u64);
            if let Some(t) = v.video_start_instant.checked_sub(d) {
                v.video_start_instant = t;
            }
        }
        let vsi0 = v.video_start_instant;
        let (t0, w0) = (Instant::now(), now_us());
        let Some(x) = ctx.guard("BaseVideo::step", inp, || v.step(e, px)) else { return false };
        let (t1, w1) = (Instant::now(), now_us());
        if !ctx.check(x.is_ok(), "step refused", inp) {
            return false;
        }
        ctx.ev("events", 1);
        if over {
            extra -= 1;
        } else if g.st == St::Ready {
            evs.clear();
            boards.clear();
            last_in = None;
            start_ev = None;
        } else {
            if boards.is_empty() {
                boards.push(vec![vec![10; c]; r]);
            }
            let prior = boards.len() - 1;
            if want >= 1 {
                boards.push(g.gb.clone());
                h = mix(h, hash_board(&g.gb));
                ctx.seen(h);
            }
            let mut path = 0.0;
            if before == St::Playing {
                let (q, d) = last_in.unwrap();
                path = d;
                if g.inside(p) {
                    let (dy, dx) = (px.0 as f64 - q.0 as f64, px.1 as f64 - q.1 as f64);
                    path += (dx * dx + dy * dy).sqrt() * 16.0 / pix as f64;
                }
            }
            if g.inside(p) {
                last_in = Some((px, path));
            } else {
                ctx.ev("events_outside", 1);
            }
            if matches!(before, St::Ready | St::Pre) && matches!(g.st, St::Playing | St::Win | St::Loss) {
                start_ev = Some(evs.len());
                start_wall = (w0, w1);
                if g.st != St::Playing {
                    ctx.ev("games_over_at_first_click", 1);
                }
            }
            evs.push(Ev { e, px, level: want, prior, next: boards.len() - 1, path, left: g.left, right: g.right, double: g.double, ce: g.ce, flag: g.flag, bbbv: g.bbbv, mouse: mouse(&g).0 });
        }
        // the game itself
        let ok = v.game_board_state == state(&g)
            && v.get_game_board() == g.gb
            && (v.get_left(), v.get_right(), v.get_double(), v.get_flag(), v.get_cl()) == (g.left, g.right, g.double, g.flag, g.left + g.right + g.double)
            && (over || g.st == St::Win || g.st == St::Loss || v.get_mouse_state() == mouse(&g).1);
        if !ctx.check(ok, "live state", || format!("state {:?} left {} right {} double {} flag {} mouse {} board {} but expected {:?} {} {} {} {} after {}", v.game_board_state, v.get_left(), v.get_right(), v.get_double(), v.get_flag(), v.get_mouse_state(), fmt_board(&v.get_game_board()), g.st, g.left, g.right, g.double, g.flag, inp())) {
            return false;
        }
        // the recording
        let rec = &v.video_action_state_recorder;
        if !ctx.check(rec.len() == evs.len(), "number of events", || format!("{} recorded, {} expected after {}", rec.len(), evs.len(), inp()))
            || !ctx.check(v.game_board_stream.len() == boards.len(), "number of boards", || format!("{} recorded, {} expected after {}", v.game_board_stream.len(), boards.len(), inp()))
        {
            return false;
        }
        if let (Some(a), Some(w)) = (rec.last(), evs.last()) {
            if !over && g.st != St::Ready {
                let m = &a.key_dynamic_params;
                let got = format!("{} ({},{}) level {} boards {}->{} left {} right {} double {} ce {} flag {} 3bv {} {:?}", a.mouse, a.y, a.x, a.useful_level, a.prior_game_board_id, a.next_game_board_id, m.left, m.right, m.double, m.ce, m.flag, m.bbbv_solved, a.mouse_state);
                let end = g.st == St::Win || g.st == St::Loss;
                let wm = if end { a.mouse_state } else { w.mouse };
                let exp = format!("{} ({},{}) level {} boards {}->{} left {} right {} double {} ce {} flag {} 3bv {} {:?}", w.e, w.px.0, w.px.1, w.level, w.prior, w.next, w.left, w.right, w.double, w.ce, w.flag, w.bbbv, wm);
                if got != exp {
                    ctx.fail("event", format!("recorded {got} instead of {exp} after {}", inp()));
                    return false;
                }
                if !ctx.check((a.path - w.path).abs() < 1e-6 * (1.0 + w.path) && (v.get_path() - w.path).abs() < 1e-6 * (1.0 + w.path), if g.inside(p) { "path" } else { "path outside" }, || format!("path {} (now {}) instead of {} after {}", a.path, v.get_path(), w.path, inp())) {
                    return false;
                }
                // time
                if evs.len() == 1 {
                    let moved = v.video_start_instant;
                    if !ctx.check(moved >= t0 && moved <= t1 && a.time == 0.0, "time of first event", || format!("time {} after {}", a.time, inp())) {
                        return false;
                    }
                } else {
                    let lo = (t0.duration_since(vsi0).as_secs_f64() * 1000.0).floor() / 1000.0;
                    let hi = (t1.duration_since(vsi0).as_secs_f64() * 1000.0).ceil() / 1000.0;
                    if !ctx.check(v.video_start_instant == vsi0 && a.time >= lo - 1e-9 && a.time <= hi + 1e-9, "time", || format!("time {} not in {lo}..{hi} after {}", a.time, inp())) {
                        return false;
                    }
                    if !ctx.check(a.time >= rec[evs.len() - 2].time, "time goes back", inp) {
                        return false;
                    }
                }
            }
        }
        if want >= 1 && !over && g.st != St::Ready && !ctx.check(v.game_board_stream.last().unwrap().game_board == g.gb, "recorded board", inp) {
            return false;
        }
        // the clock, also right after the first click
        if !over {
            let Some(t) = ctx.guard("BaseVideo::get_time", inp, || v.get_time()) else { return false };
            let t2 = Instant::now();
            let ok = match g.st {
                St::Ready => t == 0.0,
                St::Pre => t >= 0.0 && t <= t2.duration_since(v.video_start_instant).as_secs_f64() + 0.0015,
                St::Playing => {
                    let s = v.video_action_state_recorder[start_ev.unwrap()].time;
                    let el = v.video_action_state_recorder.last().unwrap().time;
                    t >= 0.0 && t >= el - s - 0.00151 && t <= t2.duration_since(v.video_start_instant).as_secs_f64() - s + 0.0015
                }
                _ => t == v.get_rtime().unwrap_or(-1.0),
            };
            if !ctx.check(ok, "clock", || format!("get_time {t} in {:?} after {}", g.st, inp())) {
                return false;
            }
            ctx.ev("clock_reads", 1);
            if g.st == St::Playing {
                let rates = ctx.guard("BaseVideo::get_left_s and others", inp, || [v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s()]);
                let Some(q) = rates else { return false };
                if !ctx.check(q.iter().all(|x| x.is_nan() || *x >= 0.0), "live rates", || format!("{q:?} after {}", inp())) {
                    return false;
                }
            }
        }
        if (g.st == St::Win || g.st == St::Loss) && !over {
            let rec = &v.video_action_state_recorder;
            let s = start_ev.unwrap();
            let want_t = ((rec.last().unwrap().time - rec[s].time) * 1000.0).round();
            let ms = v.get_rtime_ms().unwrap_or(u32::MAX);
            if !ctx.check(ms as f64 == want_t && (v.get_rtime().unwrap() - want_t / 1000.0).abs() < 1e-9, "result time", || format!("{ms} ms instead of {want_t}: start at event {s} of {} after {}", evs.len(), inp())) {
                return false;
            }
            let (a, b) = (micros(&v.start_time), micros(&v.end_time));
            let ok = match (a, b) {
                (Some(a), Some(b)) => a + 100_000 >= start_wall.0 && a <= start_wall.1 + 100_000 && b + 100_000 >= w0 && b <= w1 + 100_000,
                _ => false,
            };
            if !ctx.check(ok, "start and end stamps", || format!("{a:?} {b:?} outside {start_wall:?} {:?} after {}", (w0, w1), inp())) {
                return false;
            }
            let (n, sp) = (cell_nums(board), &v.static_params);
            let got = [sp.cell0, sp.cell1, sp.cell2, sp.cell3, sp.cell4, sp.cell5, sp.cell6, sp.cell7, sp.cell8];
            if !ctx.check(v.is_completed == (g.st == St::Win) && got == n && (sp.bbbv, sp.op, sp.isl) == (bbbv(board), openings(board), islands(board)), "layout facts", || format!("completed {} cells {got:?} 3bv {} op {} isl {} of {}", v.is_completed, sp.bbbv, sp.op, sp.isl, inp())) {
                return false;
            }
            ctx.ev(if g.st == St::Win { "wins" } else { "losses" }, 1);
        }
        if ctx.rng.chance(0.02) || over && extra == 0 {
            // showing the mines only changes the final board
            let (ra, ba) = (v.video_action_state_recorder.len(), v.game_board_stream.len());
            v.win_then_flag_all_mine();
            v.loss_then_open_all_mine();
            for i in 0..r {
                for j in 0..c {
                    if g.gb[i][j] == 10 {
                        match g.st {
                            St::Win => g.gb[i][j] = 11,
                            St::Loss if board[i][j] == -1 => g.gb[i][j] = 16,
                            _ => (),
                        }
                    }
                }
            }
            if !ctx.check(v.get_game_board() == g.gb && (ra, ba) == (v.video_action_state_recorder.len(), v.game_board_stream.len()), "showing the mines", || format!("{:?} {} instead of {} after {}", g.st, fmt_board(&v.get_game_board()), fmt_board(&g.gb), inp())) {
                return false;
            }
            if over {
                ctx.ev("mines_shown_after_end", 1);
            }
        }
        if over && extra <= 0 {
            break;
        }
    }
    // the whole recording once more: nothing recorded earlier has changed
    for (i, (a, w)) in v.video_action_state_recorder.iter().zip(&evs).enumerate() {
        if !ctx.check(a.mouse == w.e && (a.y as usize, a.x as usize) == w.px && a.useful_level == w.level && a.prior_game_board_id == w.prior && a.next_game_board_id == w.next && a.key_dynamic_params.bbbv_solved == w.bbbv, "recorded history", || format!("event {i} changed after {}", log.join(" "))) {
            return false;
        }
    }
    for (i, w) in boards.iter().enumerate() {
        if !ctx.check(v.game_board_stream[i].game_board == *w, "recorded boards", || format!("board {i} changed after {}", log.join(" "))) {
            return false;
        }
    }
    if v.width != c || v.height != r || v.board.clone().into_vec_vec() != *board && set_at.is_none() {
        ctx.fail("layout kept", format!("{}x{} {}", v.height, v.width, fmt_board(board)));
        return false;
    }
    ctx.ev("games", 1);
    ctx.sample(|| format!("{:?}: {} events, {} boards, path {:.1}, {} ms: {} on {}", g.st, evs.len(), boards.len(), v.get_path(), v.get_rtime_ms().unwrap_or(0), log[log.len().saturating_sub(30)..].join(" "), fmt_board(board)));
    true
}

fn live(ctx: &mut Ctx) {
    let (r, c) = match ctx.rng.below(6) {
        0 => (ctx.rng.range(1, 3), ctx.rng.range(1, 4)),
        1 => *ctx.rng.pick(&[(8, 8), (8, 8), (16, 16), (16, 30)]),
        _ => (ctx.rng.range(2, 12), ctx.rng.range(2, 14)),
    };
    let n = match (r, c) {
        (8, 8) => 10,
        (16, 16) => 40,
        (16, 30) => 99,
        _ => r * c * ctx.rng.range(1, 22) / 100,
    };
    let mk = |ctx: &mut Ctx, late: bool| {
        let b = random_board(&mut ctx.rng, r, c, n);
        let first = if late { vec![vec![0; c]; r] } else { b.clone() };
        (b, first)
    };
    let late = ctx.rng.chance(0.3);
    let (b, first) = mk(ctx, late);
    let mut pix = *ctx.rng.pick(&[16usize, 16, 20, 1, 7, 48, 255]);
    let mut v = BaseVideo::<SafeBoard>::new_before_game(first.clone(), pix as u8);
    let steps = ctx.rng.range(5, 350);
    if !drive(ctx, &mut v, &b, pix, steps, first) {
        return;
    }
    for _ in 0..ctx.rng.below(3) {
        let (b, first) = mk(ctx, true);
        if ctx.rng.chance(0.3) {
            pix = *ctx.rng.pick(&[16usize, 20, 9]);
        }
        v.reset(r, c, pix as u8);
        if !ctx.check(v.video_action_state_recorder.is_empty() && v.game_board_stream.is_empty() && v.game_board_state == GameBoardState::Ready && v.get_game_board() == vec![vec![10; c]; r] && v.get_path() == 0.0 && v.get_time() == 0.0, "reset", || "after reset".to_string()) {
            return;
        }
        ctx.ev("games_after_reset", 1);
        let steps = ctx.rng.range(5, 200);
        if !drive(ctx, &mut v, &b, pix, steps, first) {
            return;
        }
    }
}

fn main() {
    engine::main(Spec {
        id: "C16",
        rule: "live games with injected delays, late layouts and resets; non-trivial when an event adds a board to the recording; distinct by layout and sequence of recorded boards",
        stages: vec![Stage { name: "live", quick: 50000, thorough: 1500000, f: live }],
        finish: None,
        assumptions: &["events off the field are reported at (rows, columns) times the pixel size", "the layout is set before anything is opened or flagged"],
        must_see: &["wins", "losses", "games_after_reset", "games_over_at_first_click", "events_outside", "boards_set_late", "mines_shown_after_end", "clock_reads"],
    })
}
