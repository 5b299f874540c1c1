//! C24: what may be changed or asked depends on the stage of the game, and a refusal changes nothing.
use harness::*;
use oracle::game::*;
use oracle::video::*;
use oracle::*;

#[derive(Clone, PartialEq, Debug)]
struct Fields {
    official: bool,
    fair: bool,
    mode: u16,
    pix: u8,
    texts: [Vec<u8>; 8],
    sum: [u8; 32],
    level: u8,
    mines: usize,
    size: (usize, usize),
}
const TEXTS: [&str; 8] = ["software", "player", "race", "uniqueness", "start time", "end time", "country", "device"];

macro_rules! fields {
    ($v:expr) => {
        Fields {
            official: $v.is_offical,
            fair: $v.is_fair,
            mode: $v.mode,
            pix: $v.cell_pixel_size,
            texts: [$v.software.clone(), $v.player_designator.clone(), $v.race_designator.clone(), $v.uniqueness_designator.clone(), $v.start_time.clone(), $v.end_time.clone(), $v.country.clone(), $v.device_uuid.clone()],
            sum: $v.checksum,
            level: $v.level,
            mines: $v.mine_num,
            size: ($v.height, $v.width),
        }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stage5 {
    Ready,
    Pre,
    Playing,
    Over,
    Shown,
}
use Stage5::*;

/// One random call on the object: (name, accepted, expected acceptance). The model of the fields is updated.
macro_rules! call {
    ($ctx:expr, $v:expr, $st:expr, $m:expr, $final_pix:expr) => {{
        let st = $st;
        let over = st == Over;
        let k = $ctx.rng.below(32);
        let text: Vec<u8> = { let n = $ctx.rng.below(12); (0..n).map(|_| $ctx.rng.below(256) as u8).collect() };
        let flag = $ctx.rng.chance(0.5);
        let num = $ctx.rng.u64() as u16;
        let res: (String, Option<bool>, bool) = match k {
            0 => {
                if over { $m.official = flag }
                ("set_is_offical".into(), $ctx.guard("set_is_offical", String::new, || $v.set_is_offical(flag).is_ok()), over)
            }
            1 => {
                if over { $m.fair = flag }
                ("set_is_fair".into(), $ctx.guard("set_is_fair", String::new, || $v.set_is_fair(flag).is_ok()), over)
            }
            2 => {
                if over { $m.mode = num }
                ("set_mode".into(), $ctx.guard("set_mode", String::new, || $v.set_mode(num).is_ok()), over)
            }
            3..=10 => {
                let i = k - 3;
                let ok = over || i == 0 && st == Ready;
                if ok { $m.texts[i] = text.clone() }
                let r = $ctx.guard(TEXTS[i], String::new, || match i {
                    0 => $v.set_software(text),
                    1 => $v.set_player_designator(text),
                    2 => $v.set_race_designator(text),
                    3 => $v.set_uniqueness_designator(text),
                    4 => $v.set_start_time(text),
                    5 => $v.set_end_time(text),
                    6 => $v.set_country(text),
                    _ => $v.set_device_uuid(text),
                }.is_ok());
                (format!("set {}", TEXTS[i]), r, ok)
            }
            11 => {
                let mut s = [0u8; 32];
                for x in s.iter_mut() { *x = $ctx.rng.below(256) as u8 }
                if over { $m.sum = s }
                ("set_checksum".into(), $ctx.guard("set_checksum", String::new, || $v.set_checksum(s).is_ok()), over)
            }
            12 => {
                let ok = over || st == Ready;
                // a size that fits the events still to come
                let p: u8 = if over { 1 + num as u8 % 200 } else { $final_pix };
                if ok { $m.pix = p }
                ("set_pix_size".into(), $ctx.guard("set_pix_size", String::new, || $v.set_pix_size(p).is_ok()), ok)
            }
            13 => ("get_raw_data".into(), $ctx.guard("get_raw_data", String::new, || $v.get_raw_data().is_ok()), over || st == Shown),
            14 => {
                let r = $ctx.guard("get_checksum", String::new, || $v.get_checksum());
                if let Some(Ok(s)) = r { $ctx.check(s == $m.sum, "checksum", || format!("{s:?} instead of {:?}", $m.sum)); }
                ("get_checksum".into(), r.map(|x| x.is_ok()), over || st == Shown)
            }
            15 => ("get_rtime".into(), $ctx.guard("get_rtime", String::new, || $v.get_rtime().is_ok()), over || st == Shown),
            16 => ("get_rtime_ms".into(), $ctx.guard("get_rtime_ms", String::new, || $v.get_rtime_ms().is_ok()), over || st == Shown),
            17 => ("get_etime".into(), $ctx.guard("get_etime", String::new, || $v.get_etime().is_ok()), over || st == Shown),
            18 => ("get_bbbv_s".into(), $ctx.guard("get_bbbv_s", String::new, || $v.get_bbbv_s().is_ok()), over || st == Shown),
            19 => ("get_bbbv_solved".into(), $ctx.guard("get_bbbv_solved", String::new, || $v.get_bbbv_solved().is_ok()), over || st == Shown),
            20 => ("get_stnb".into(), $ctx.guard("get_stnb", String::new, || $v.get_stnb().is_ok()), over || st == Shown),
            21 => ("get_rqp".into(), $ctx.guard("get_rqp", String::new, || $v.get_rqp().is_ok()), over || st == Shown),
            22 => ("get_qg".into(), $ctx.guard("get_qg", String::new, || $v.get_qg().is_ok()), over || st == Shown),
            23 => ("get_ce".into(), $ctx.guard("get_ce", String::new, || $v.get_ce().is_ok()), over || st == Shown),
            24 => ("get_ce_s".into(), $ctx.guard("get_ce_s", String::new, || $v.get_ce_s().is_ok()), over || st == Shown),
            25 => ("get_corr".into(), $ctx.guard("get_corr", String::new, || $v.get_corr().is_ok()), over || st == Shown),
            26 => ("get_thrp".into(), $ctx.guard("get_thrp", String::new, || $v.get_thrp().is_ok()), over || st == Shown),
            27 => ("get_ioe".into(), $ctx.guard("get_ioe", String::new, || $v.get_ioe().is_ok()), over || st == Shown),
            28 => ("get_x_y".into(), $ctx.guard("get_x_y", String::new, || $v.get_x_y().is_ok()), st == Shown),
            29 => ("get_pix_size".into(), $ctx.guard("get_pix_size", String::new, || $v.get_pix_size().is_ok()), st == Shown),
            30 => ("video times".into(), $ctx.guard("get_video_start_time", String::new, || { let (a, b) = ($v.get_video_start_time().is_ok(), $v.get_video_end_time().is_ok()); assert!(a == b); a }), st == Shown),
            _ => ("set_current_event_id".into(), $ctx.guard("set_current_event_id", String::new, || $v.set_current_event_id(0).is_ok()), st == Shown),
        };
        res
    }};
}

fn judge(ctx: &mut Ctx, st: Stage5, res: (String, Option<bool>, bool), before: &Fields, got: Fields, want: &Fields, log: &[String]) -> bool {
    let (name, Some(ok), exp) = res else { return false };
    ctx.ev(if exp { "calls_in_the_right_stage" } else { "calls_in_the_wrong_stage" }, 1);
    ctx.ev(["calls_before", "calls_while_pre_flagging", "calls_while_playing", "calls_after", "calls_in_playback"][st as usize], 1);
    if !ctx.check(ok == exp, &format!("{name}:{}", if ok { "accepted" } else { "refused" }), || format!("{name} in {st:?} {} after {}", if ok { "accepted" } else { "refused" }, log.join(" "))) {
        return false;
    }
    ctx.check(got == *want, &format!("{name}:effect"), || format!("{name} in {st:?}: {before:?} became {got:?} instead of {want:?} after {}", log.join(" ")))
}

fn stage(g: &Game) -> Stage5 {
    match g.st {
        St::Ready => Ready,
        St::Pre => Pre,
        St::Playing => Playing,
        _ => Over,
    }
}

fn live(ctx: &mut Ctx) {
    let (r, c, n) = random_field(&mut ctx.rng, 30);
    let mut board = random_board(&mut ctx.rng, r, c, n);
    let pix = *ctx.rng.pick(&[16usize, 20, 7]);
    let mut v: Live = Parsed::new_before_game(board.clone(), pix as u8);
    let mut m = fields!(v);
    let mut log: Vec<String> = vec![format!("{} cells of {pix}", fmt_board(&board))];
    let mut pl = player(&mut ctx.rng);
    let mut g = Game::new(&board);
    let mut games = 0;
    let mut overs = 0;
    for _ in 0..ctx.rng.range(20, 200) {
        let st = stage(&g);
        match ctx.rng.below(10) {
            0..=3 => {
                let before = m.clone();
                let res = call!(ctx, v, st, m, pix as u8);
                log.push(format!("{}:{:?}", res.0, res.1));
                ctx.seen(mix(hash_bytes(res.0.as_bytes()), mix(st as u64, (g.st == St::Win) as u64)));
                if !judge(ctx, st, res, &before, fields!(v), &m, &log) {
                    return;
                }
            }
            4 if ctx.rng.chance(0.5) => {
                // another board: only of the same size and while the game is not over
                let bad = ctx.rng.chance(0.3);
                let (r2, c2) = match ctx.rng.below(6) {
                    _ if !bad => (r, c),
                    0 | 1 => (r + ctx.rng.below(2), c + ctx.rng.below(2)),
                    2 => (r.max(2) - 1, c),
                    3 => (r, c.max(2) - 1),
                    // as many cells in another shape
                    4 => (c, r),
                    _ => (1, r * c),
                };
                let fits = (r2, c2) == (r, c);
                if st == Playing && fits {
                    continue; // changes the layout under the opened cells
                }
                let n2 = if ctx.rng.chance(0.5) || r * c < 3 { n } else { ctx.rng.range(1, r * c - 1) }.min(r2 * c2);
                if !fits {
                    ctx.ev(if r2 * c2 == r * c { "boards_of_another_shape" } else { "boards_of_another_size" }, 1);
                }
                let b2 = random_board(&mut ctx.rng, r2, c2, n2);
                let ok = fits && st != Over;
                log.push(format!("set_board {}", fmt_board(&b2)));
                let Some(got) = ctx.guard("set_board", || log.join(" "), || v.set_board(b2.clone()).is_ok()) else { return };
                let before = m.clone();
                if ok {
                    m.mines = n2;
                    m.level = match (r, c, n2) {
                        (8, 8, 10) => 3,
                        (16, 16, 40) => 4,
                        (16, 30, 99) => 5,
                        _ => 6,
                    };
                    board = b2;
                    g.set_layout(&board);
                }
                if !judge(ctx, st, ("set_board".into(), Some(got), ok), &before, fields!(v), &m, &log) {
                    return;
                }
                ctx.ev("boards_set", ok as u64);
            }
            5 if st == Over => {
                overs += 1;
                if overs > 2 {
                    log.push("reset".into());
                    v.reset(r, c, pix as u8);
                    // a new game starts with a new board
                    if v.set_board(board.clone()).is_err() {
                        return ctx.fail("reset:set_board", log.join(" "));
                    }
                    g = Game::new(&board);
                    let f = fields!(v);
                    m.sum = [0; 32];
                    m.pix = pix as u8;
                    m.level = f.level;
                    ctx.check(f == m, "reset:effect", || format!("{f:?} instead of {m:?} after {}", log.join(" ")));
                    games += 1;
                    overs = 0;
                    if !ctx.fails.is_empty() {
                        return;
                    }
                }
            }
            _ => {
                let (e, p) = pl.next(&mut ctx.rng, &g);
                let q = if g.inside(p) { (p.0 * pix + pix / 2, p.1 * pix + pix / 3) } else { (r * pix, c * pix) };
                if st == Over {
                    continue;
                }
                log.push(format!("{e}{p:?}"));
                let Some(x) = ctx.guard("step", || log.join(" "), || v.step(e, q)) else { return };
                if x.is_err() {
                    return ctx.fail("step", log.join(" "));
                }
                g.step(e, p);
                if stage(&g) != Ready && st == Ready || stage(&g) == Over || stage(&g) == Playing {
                    // the game records its own times
                    m.texts[4] = v.start_time.clone();
                    m.texts[5] = v.end_time.clone();
                }
                let f = fields!(v);
                if !ctx.check(f == m && v.game_board_state == state_of(g.st), "event:effect", || format!("{f:?} {:?} instead of {m:?} after {}", v.game_board_state, log.join(" "))) {
                    return;
                }
            }
        }
    }
    ctx.ev("games", 1 + games);
    ctx.sample(|| log.join(" "));
}

fn shown(ctx: &mut Ctx) {
    let (r, c, n) = random_field(&mut ctx.rng, 16);
    let board = random_board(&mut ctx.rng, r, c, n);
    let pl = player(&mut ctx.rng);
    let plan = Plan { pix: 16, max_steps: 20, tick: 20, player: pl, pf: 0, unfinished: ctx.rng.chance(0.3) };
    let (evs, _) = script(&mut ctx.rng, &board, plan);
    if evs.is_empty() || evs[0].x >= c * 16 {
        return;
    }
    let stated = ctx.rng.below(100_000);
    let Some((mut v, _)) = parsed(ctx, &board, 16, &evs, stated) else { return };
    let log = vec![format!("{} on {}", fmt_evs(&evs), fmt_board(&board))];
    // the stated result is set by the file and never changes again
    for _ in 0..2 {
        let t = ctx.rng.f64() * 1000.0;
        let was = (v.get_rtime(), v.get_rtime_ms());
        let ok = v.set_rtime(t).is_ok();
        let now = (v.get_rtime(), v.get_rtime_ms());
        if !ctx.check(!ok && was == now && now.1 == Ok(stated as u32), "set_rtime", || format!("accepted {ok}: {was:?} became {now:?}, the file says {stated} ms: {}", log[0])) {
            return;
        }
    }
    let mut m = fields!(v);
    for _ in 0..40 {
        let before = m.clone();
        let res = call!(ctx, v, Shown, m, 16);
        ctx.seen(mix(hash_bytes(res.0.as_bytes()), 77));
        if !judge(ctx, Shown, res, &before, fields!(v), &m, &log) {
            return;
        }
    }
    let x = v.set_current_event_id(evs.len() - 1);
    if !ctx.check(x.is_ok() && v.current_event_id == evs.len() - 1, "seek", || log[0].clone()) {
        return;
    }
    // thrown away for a new game of another size
    let (r2, c2, p2) = (ctx.rng.range(1, 20), ctx.rng.range(1, 20), ctx.rng.range(1, 200));
    if ctx.guard("reset", || log[0].clone(), || v.reset(r2, c2, p2 as u8)).is_none() {
        return;
    }
    m.size = (r2, c2);
    m.pix = p2 as u8;
    m.sum = [0; 32];
    let clean = v.game_board_state == ms_toollib::GameBoardState::Ready
        && v.video_action_state_recorder.is_empty()
        && v.game_board_stream.is_empty()
        && v.minesweeper_board.game_board == vec![vec![10; c2]; r2]
        && (v.minesweeper_board.left, v.minesweeper_board.right, v.minesweeper_board.double, v.minesweeper_board.ce) == (0, 0, 0, 0);
    if !ctx.check(clean && fields!(v) == m, "reset", || format!("after reset({r2}, {c2}, {p2}) {:?} with {} events, {:?}: {}", v.game_board_state, v.video_action_state_recorder.len(), fields!(v), log[0])) {
        return;
    }
    ctx.ev("recordings_reset", 1);
    for _ in 0..20 {
        let before = m.clone();
        let res = call!(ctx, v, Ready, m, p2 as u8);
        if !judge(ctx, Ready, res, &before, fields!(v), &m, &log) {
            return;
        }
    }
}

fn main() {
    engine::main(Spec {
        id: "C24",
        rule: "random calls of setters and getters in every stage of played games and in playback; distinct by call and stage",
        stages: vec![Stage { name: "live", quick: 15000, thorough: 400000, f: live }, Stage { name: "shown", quick: 6000, thorough: 150000, f: shown }],
        finish: None,
        assumptions: &["the board is not replaced while cells are open (the strict no-guess mode does so, covered by C15)"],
        must_see: &["calls_in_the_right_stage", "calls_in_the_wrong_stage", "calls_before", "calls_while_pre_flagging", "calls_while_playing", "calls_after", "calls_in_playback", "boards_set", "boards_of_another_shape", "boards_of_another_size", "recordings_reset", "games"],
    })
}
