//! C31: games recorded and recordings read in Python are the library's.
use harness::files::*;
use harness::mirror::*;
use harness::remote::*;
use harness::*;
use ms_toollib::{AvfVideo, EvfVideo, GameBoard, GameBoardState, MvfVideo, RmvVideo};
use oracle::game::*;
use oracle::video::*;
use oracle::*;

fn panics(bad: bool) -> Option<V> {
    Some(if bad { V::E("PanicException".into()) } else { V::N })
}
fn put(t: &mut Talk, slot: usize, f: Vec<(&'static str, V)>) {
    for (n, v) in f {
        t.get(slot, n, Some(v));
    }
}

macro_rules! events {
    ($ctx:expr, $t:expr, $d:expr, $n:expr) => {{
        let rec = &$d.video_action_state_recorder;
        for _ in 0..$n {
            if rec.is_empty() {
                break;
            }
            let k = $ctx.rng.below(rec.len());
            let a = &rec[k];
            $t.m(1, "events_mouse", vec![k.v()], Some(a.mouse.v()));
            $t.m(1, "events_x", vec![k.v()], Some(a.x.v()));
            $t.m(1, "events_y", vec![k.v()], Some(a.y.v()));
            $t.m(1, "events_useful_level", vec![k.v()], Some(a.useful_level.v()));
            $t.m(1, "events_comments", vec![k.v()], Some(a.comments.v()));
            $t.m(1, "events_mouse_state", vec![k.v()], Some(mouse_no(a.mouse_state).v()));
            $ctx.ev("events_compared", 1);
        }
    }};
}

macro_rules! file {
    ($name:ident, $class:expr, $ty:ident, $kind:expr) => {
        fn $name(ctx: &mut Ctx) {
            let most = if ctx.rng.chance(0.8) { 100 } else { 900 };
            let Some((mut raw, board)) = valid(ctx, $kind, most) else { return };
            let damaged = ctx.rng.chance(0.1);
            if damaged {
                let k = ctx.rng.below(raw.len());
                if ctx.rng.chance(0.5) {
                    raw.truncate(k);
                } else {
                    raw[k] = ctx.rng.below(256) as u8;
                }
            }
            let ext = format!(".{}", KINDS[$kind]);
            let file = Scratch::with(&ext, &raw);
            let inp = || format!("{} of {} bytes{} on {}", KINDS[$kind], raw.len(), if damaged { " damaged" } else { "" }, fmt_board(&board));
            let mut v = $ty::new(&file.0);
            let mut t = Talk::new();
            t.make(1, $class, vec![file.0.v()]);
            let ok = matches!(quiet(|| v.parse_video()), Ok(Ok(_)));
            t.m(1, "parse_video", vec![], panics(!ok));
            if !ok {
                if t.run(ctx, inp).is_some() {
                    ctx.ev("files_refused", 1);
                }
                return;
            }
            if damaged && (v.data.height == 0 || v.data.width == 0 || v.data.height * v.data.width > 1000) {
                return;
            }
            if ctx.rng.chance(0.2) {
                put(&mut t, 1, facts_parsed(&v.data));
            }
            let ok = quiet(|| v.data.analyse()).is_ok();
            t.m(1, "analyse", vec![], panics(!ok));
            if !ok {
                t.run(ctx, inp);
                return;
            }
            let d = &mut v.data;
            if ctx.rng.chance(0.3) && d.height * d.width <= 64 {
                let mut all = vec!["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss"];
                ctx.rng.shuffle(&mut all);
                all.truncate(ctx.rng.range(1, 6));
                let ok = quiet(|| d.analyse_for_features(all.clone())).is_ok();
                t.m(1, "analyse_for_features", vec![V::L(all.iter().map(|x| V::s(x)).collect())], panics(!ok));
                if !ok {
                    t.run(ctx, inp);
                    return;
                }
                ctx.ev("reviews", 1);
            }
            let n = d.video_action_state_recorder.len();
            if n == 0 {
                // nothing to play
                t.run(ctx, inp);
                return;
            }
            let mut log: Vec<String> = vec![];
            put(&mut t, 1, facts_parsed(d));
            put(&mut t, 1, rates(d));
            t.get(1, "game_board_state", Some(1usize.v()));
            for _ in 0..ctx.rng.range(2, 10) {
                match ctx.rng.below(8) {
                    0 | 1 => {
                        let id = if ctx.rng.chance(0.05) { n + ctx.rng.below(3) } else { ctx.rng.below(n) };
                        log.push(format!("event {id}"));
                        let ok = id >= n || matches!(quiet(|| d.set_current_event_id(id)), Ok(Ok(_)));
                        t.set(1, "current_event_id", id.v(), panics(!ok));
                        ctx.ev("events_chosen", 1);
                    }
                    2 => {
                        let q = *ctx.rng.pick(&[16u8, 20, 32, 5, 255]);
                        log.push(format!("zoom {q}"));
                        let ok = quiet(|| d.set_video_playing_pix_size(q)).is_ok();
                        t.set(1, "video_playing_pix_size", q.v(), panics(!ok));
                    }
                    _ => {
                        let end = d.get_video_end_time().unwrap_or(1.0);
                        let s = match ctx.rng.below(4) {
                            0 => d.video_action_state_recorder[ctx.rng.below(n)].time,
                            1 => -ctx.rng.f64(),
                            _ => (ctx.rng.f64() * 1.2 - 0.1) * end,
                        };
                        log.push(format!("time {s}"));
                        let ok = quiet(|| d.set_current_time(s)).is_ok();
                        t.set(1, "current_time", s.v(), panics(!ok));
                        ctx.ev("seeks", 1);
                    }
                }
                put(&mut t, 1, facts_parsed(d));
                put(&mut t, 1, rates(d));
                if ctx.rng.chance(0.1) && d.height * d.width <= 64 {
                    t.get(1, "game_board_poss", Some(lib_v(|| d.get_game_board_poss())));
                    ctx.ev("probability_tables", 1);
                }
            }
            events!(ctx, t, d, 6);
            if n > 0 {
                let k = ctx.rng.below(n);
                let a = &d.video_action_state_recorder[k];
                t.m(1, "events_time", vec![k.v()], Some(a.time.v()));
                if d.height * d.width <= 64 && d.game_board_stream.len() > a.prior_game_board_id {
                    let mut g: GameBoard = d.game_board_stream[a.prior_game_board_id].clone();
                    t.m(1, "events_prior_game_board", vec![k.v()], Some(V::O("GameBoard".into())));
                    let w = lib_v(|| g.get_poss().clone());
                    if !matches!(w, V::E(_)) {
                        t.get(99, "poss", Some(w));
                        t.get(99, "basic_is_mine", Some(lib_v(|| g.get_basic_is_mine().clone())));
                        t.get(99, "enum_not_mine", Some(lib_v(|| g.get_enum_not_mine().clone())));
                        ctx.ev("positions_of_events", 1);
                    }
                }
            }
            // conversion and saving
            let ok = quiet(|| d.generate_evf_v0_raw_data()).is_ok();
            t.m(1, "generate_evf_v0_raw_data", vec![], panics(!ok));
            let out = Scratch::new("");
            let saved = Scratch(format!("{}.evf", out.0));
            if ok {
                t.get(1, "raw_data", Some(try_v(|| d.get_raw_data())));
                t.m(1, "save_to_evf_file", vec![out.0.v()], Some(V::N));
            }
            let bytes = d.get_raw_data().ok();
            let inp = || format!("{} in {}", log.join(" "), inp());
            if t.run(ctx, inp).is_none() {
                return;
            }
            if ok {
                let got = std::fs::read(&saved.0).ok();
                if !ctx.check(got == bytes, "saved file", || format!("{:?} bytes saved instead of {:?}: {}", got.map(|x| x.len()), bytes.map(|x| x.len()), inp())) {
                    return;
                }
                ctx.ev("files_saved", 1);
            }
            ctx.ev(concat!(stringify!($name), "_files"), 1);
            ctx.seen(hash_bytes(&raw));
            ctx.sample(inp);
        }
    };
}
file!(evf, "EvfVideo", EvfVideo, 0);
file!(avf, "AvfVideo", AvfVideo, 1);
file!(rmv, "RmvVideo", RmvVideo, 2);
file!(mvf, "MvfVideo", MvfVideo, 3);

fn gstate(s: GameBoardState) -> usize {
    match s {
        GameBoardState::Ready => 1,
        GameBoardState::Playing => 2,
        GameBoardState::Win => 3,
        GameBoardState::Loss => 4,
        GameBoardState::PreFlaging => 5,
        GameBoardState::Display => 6,
    }
}

/// gives every descriptive field a value; refused unless the game is over
fn describe(ctx: &mut Ctx, t: &mut Talk, v: &mut Live) {
    let mut names = ["is_offical", "is_fair", "mode", "software", "player_designator", "race_designator", "uniqueness_designator", "country", "device_uuid"];
    ctx.rng.shuffle(&mut names);
    for n in names {
        let text = random_text(&mut ctx.rng);
        let (flag, mode) = (ctx.rng.chance(0.5), ctx.rng.below(11) as u16);
        let (x, r) = match n {
            "is_offical" => (flag.v(), v.set_is_offical(flag)),
            "is_fair" => (flag.v(), v.set_is_fair(flag)),
            "mode" => (mode.v(), v.set_mode(mode)),
            "software" => (text.v(), v.set_software(text)),
            "player_designator" => (text.v(), v.set_player_designator(text)),
            "race_designator" => (text.v(), v.set_race_designator(text)),
            "uniqueness_designator" => (text.v(), v.set_uniqueness_designator(text)),
            "country" => (text.v(), v.set_country(text)),
            _ => (text.v(), v.set_device_uuid(text)),
        };
        t.set(1, n, x, panics(r.is_err()));
        ctx.ev(if r.is_err() { "descriptions_refused" } else { "descriptions" }, 1);
    }
}

fn live(ctx: &mut Ctx) {
    let (mut r, mut c, mut n) = random_field(&mut ctx.rng, 30);
    if ctx.rng.chance(0.7) {
        (r, c) = (ctx.rng.range(1, 6), ctx.rng.range(1, 6));
        n = ctx.rng.below(r * c / 3 + 1);
    }
    let board = random_board(&mut ctx.rng, r, c, n);
    let pix = *ctx.rng.pick(&[16usize, 20, 1, 255]);
    let late = ctx.rng.chance(0.3);
    let first = if late { vec![vec![0; c]; r] } else { board.clone() };
    let mut t = Talk::new();
    // the cell size may be changed until the game starts
    let resized = ctx.rng.chance(0.2);
    let pix0 = if resized { *ctx.rng.pick(&[16usize, 7, 40]) } else { pix };
    let mut v = Live::new_before_game(first.clone(), pix0 as u8);
    t.make(1, "BaseVideo", vec![first.v(), pix0.v()]);
    if resized && v.set_pix_size(pix as u8).is_ok() {
        t.set(1, "pix_size", pix.v(), Some(V::N));
        ctx.ev("cell_sizes_set", 1);
    }
    let games = if ctx.rng.chance(0.25) { 2 } else { 1 };
    let mut b = board.clone();
    let mut all = vec![];
    let mut post: Vec<(usize, usize, Vec<u8>, B, Vec<Ev>)> = vec![];
    let mut saves: Vec<(Scratch, usize)> = vec![];
    for game in 0..games {
        if game > 0 {
            v.reset(r, c, pix as u8);
            t.m(1, "reset", vec![r.v(), c.v(), pix.v()], Some(V::N));
            b = random_board(&mut ctx.rng, r, c, n);
            ctx.ev("resets", 1);
        }
        if late || game > 0 {
            let bad = v.set_board(b.clone()).is_err();
            t.set(1, "board", b.v(), panics(bad));
            if bad {
                break;
            }
            ctx.ev("boards_set_late", 1);
        }
        let p = player(&mut ctx.rng);
        let plan = Plan { pix, max_steps: *ctx.rng.pick(&[0, 20, 60, 250]), tick: *ctx.rng.pick(&[0u32, 5, 300]), player: p, pf: 0, unfinished: ctx.rng.chance(0.1) };
        let (evs, _) = script(&mut ctx.rng, &b, plan);
        let pause = (ctx.rng.below(evs.len() + 1), ctx.rng.range(1, 12));
        let mut last = 0;
        for (k, e) in evs.iter().enumerate() {
            if e.t > last {
                pass(&mut v, (e.t - last) as u64);
                last = e.t;
            }
            if k == pause.0 || ctx.rng.chance(0.02) {
                t.sleep(pause.1);
            }
            let ok = matches!(quiet(|| v.step(e.e, (e.y, e.x))), Ok(Ok(_)));
            t.m(1, "step", vec![V::s(e.e), (e.y, e.x).v()], panics(!ok));
            if !ok {
                break;
            }
            ctx.ev("steps", 1);
            if ctx.rng.chance(0.05) {
                put(&mut t, 1, facts_live(&v));
                t.get(1, "game_board_state", Some(gstate(v.game_board_state).v()));
                if ctx.rng.chance(0.2) {
                    describe(ctx, &mut t, &mut v);
                    // too late for the cell size, which Python does not say
                    if matches!(v.game_board_state, GameBoardState::Playing | GameBoardState::PreFlaging) && v.set_pix_size(9).is_err() {
                        t.set(1, "pix_size", 9usize.v(), Some(V::N));
                        ctx.ev("cell_sizes_refused", 1);
                    }
                }
                if r * c <= 36 && v.game_board_state == GameBoardState::Playing {
                    t.get(1, "game_board_poss", Some(lib_v(|| v.get_game_board_poss())));
                    ctx.ev("probability_tables", 1);
                }
            }
        }
        t.get(1, "game_board_state", Some(gstate(v.game_board_state).v()));
        put(&mut t, 1, facts_live(&v));
        t.get(1, "board", Some(V::O("SafeBoard".into())));
        t.m(99, "into_vec_vec", vec![], Some(b.v()));
        events!(ctx, t, v, 5);
        let over = matches!(v.game_board_state, GameBoardState::Win | GameBoardState::Loss);
        if over {
            ctx.ev(if v.game_board_state == GameBoardState::Win { "wins" } else { "losses" }, 1);
            if ctx.rng.chance(0.5) {
                v.win_then_flag_all_mine();
                t.m(1, "win_then_flag_all_mine", vec![], Some(V::N));
            }
            if ctx.rng.chance(0.5) {
                v.loss_then_open_all_mine();
                t.m(1, "loss_then_open_all_mine", vec![], Some(V::N));
            }
            t.get(1, "game_board", Some(v.get_game_board().v()));
        }
        describe(ctx, &mut t, &mut v);
        put(&mut t, 1, facts_live(&v));
        if over {
            // the clock of the Python game
            let at = t.len();
            for n in RATES {
                t.get(1, n, None);
            }
            for k in 0..evs.len() {
                t.m(1, "events_time", vec![k.v()], None);
            }
            let ok = quiet(|| v.generate_evf_v0_raw_data()).is_ok();
            t.m(1, "generate_evf_v0_raw_data", vec![], panics(!ok));
            if !ok {
                break;
            }
            let sum: Option<[u8; 32]> = if ctx.rng.chance(0.5) { Some(std::array::from_fn(|_| ctx.rng.below(256) as u8)) } else { None };
            if let Some(s) = sum {
                let bad = v.set_checksum(s).is_err();
                t.set(1, "checksum", s.v(), panics(bad));
                if !bad {
                    t.get(1, "checksum", Some(s.v()));
                    ctx.ev("checksums", 1);
                }
            }
            let at_raw = t.len();
            t.get(1, "raw_data", None);
            let out = Scratch::new("");
            let saved = Scratch(format!("{}.evf", out.0));
            t.m(1, "save_to_evf_file", vec![out.0.v()], Some(V::N));
            saves.push((saved, at_raw));
            post.push((at, at_raw, v.get_raw_data().unwrap_or_default(), b.clone(), evs.clone()));
        }
        all.push(format!("{} on {}", fmt_evs(&evs), fmt_board(&b)));
    }
    let inp = || format!("pixel size {pix} {}", all.join("; then "));
    let Some(ans) = t.run(ctx, inp) else { return };
    for (s, at) in &saves {
        let got = std::fs::read(&s.0).unwrap_or_default();
        if !ctx.check(got == ans[*at].bytes(), "saved file", || format!("{} bytes saved instead of {}: {}", got.len(), ans[*at].list().len(), inp())) {
            return;
        }
        ctx.ev("files_saved", 1);
    }
    for (at, at_raw, raw, b, evs) in &post {
        if !clock(ctx, &ans, *at, *at_raw, raw, b, evs, &inp) {
            return;
        }
    }
    ctx.ev("games", 1);
    ctx.seen(mix(hash_board(&board), hash_bytes(inp().as_bytes())));
    ctx.sample(inp);
}

const RATES: [&str; 15] = ["rtime", "rtime_ms", "time", "etime", "bbbv_s", "stnb", "rqp", "left_s", "right_s", "double_s", "cl_s", "flag_s", "ce_s", "start_time", "end_time"];

fn clock(ctx: &mut Ctx, ans: &[V], at: usize, at_raw: usize, lib: &[u8], b: &B, evs: &[Ev], inp: &dyn Fn() -> String) -> bool {
    let raw = ans[at_raw].bytes();
    let (mine, theirs) = match (decode_evf(lib), decode_evf(&raw)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => {
            ctx.fail("recording", format!("not a recording: {:?} {:?}: {}", a.err(), b.err(), inp()));
            return false;
        }
    };
    // the same recording apart from the clock
    let same = theirs.board == *b
        && theirs.evs.len() == evs.len()
        && theirs.evs.iter().zip(evs).all(|(x, y)| (x.e, x.x, x.y) == (y.e, y.x, y.y))
        && (mine.completed, mine.official, mine.fair, mine.mines, mine.pix, mine.mode, mine.bbbv) == (theirs.completed, theirs.official, theirs.fair, theirs.mines, theirs.pix, theirs.mode, theirs.bbbv)
        && [0, 1, 2, 3, 6, 7].iter().all(|k| mine.text[*k] == theirs.text[*k]);
    if !ctx.check(same, "recording", || format!("recorded {} events, mode {} software {:?} player {:?} instead of {}, {} {:?} {:?}: {}", theirs.evs.len(), theirs.mode, theirs.text[0], theirs.text[1], evs.len(), mine.mode, mine.text[0], mine.text[1], inp())) {
        return false;
    }
    let get = |n: &str| ans[at + RATES.iter().position(|x| *x == n).unwrap()].clone();
    let rt = get("rtime").num();
    let times: Vec<f64> = (0..evs.len()).map(|k| ans[at + RATES.len() + k].num()).collect();
    let ok = get("rtime_ms") == V::I(theirs.rtime as i128) && (rt - theirs.rtime as f64 / 1000.0).abs() < 1e-9 && get("time").num() == rt && times.iter().zip(&theirs.evs).all(|(t, e)| (t * 1000.0 - e.t as f64).abs() < 1e-3) && times.windows(2).all(|w| w[0] <= w[1]);
    if !ctx.check(ok, "clock", || format!("time {rt} ms {} shown {} recorded {}; events at {times:?}: {}", get("rtime_ms").brief(), get("time").brief(), theirs.rtime, inp())) {
        return false;
    }
    if !ctx.check(get("start_time").bytes() == theirs.text[4] && get("end_time").bytes() == theirs.text[5], "clock", || format!("started {} ended {} and recorded {:?}: {}", get("start_time").brief(), get("end_time").brief(), &theirs.text[4..6], inp())) {
        return false;
    }
    if rt >= 0.001 {
        let rp = replay(b, mine.pix, evs);
        let g = &rp.game;
        let cl = g.left + g.right + g.double;
        let k = match (b.len(), b[0].len(), mine_count(b)) {
            (8, 8, 10) => 47.299,
            (16, 16, 40) => 153.73,
            (16, 30, 99) => 435.001,
            _ => 0.0,
        };
        let (b3, solved) = (bbbv(b) as f64, g.bbbv as f64);
        let want = [
            ("etime", if g.bbbv == 0 { 0.0 } else { rt * b3 / solved }),
            ("bbbv_s", solved / rt),
            ("stnb", if k == 0.0 { 0.0 } else { k * b3 / rt.powf(1.7) * (solved / b3).sqrt() }),
            ("rqp", if g.bbbv == 0 { 0.0 } else { rt * rt / solved }),
            ("left_s", g.left as f64 / rt),
            ("right_s", g.right as f64 / rt),
            ("double_s", g.double as f64 / rt),
            ("cl_s", cl as f64 / rt),
            ("flag_s", g.flag as f64 / rt),
            ("ce_s", g.ce as f64 / rt),
        ];
        for (n, w) in want {
            let a = get(n).num();
            if !ctx.check((a - w).abs() <= 1e-9 * (1.0 + w.abs()), &format!("rate:{n}"), || format!("{n} is {a} instead of {w} after {rt} s: {}", inp())) {
                return false;
            }
            ctx.ev("rates", 1);
        }
    }
    true
}

fn main() {
    engine::main(Spec {
        id: "C31",
        rule: "random recordings read and played back, and random games played and recorded, by the library and in Python; distinct by file content or game",
        stages: vec![
            Stage { name: "evf", quick: 700, thorough: 30000, f: evf },
            Stage { name: "avf", quick: 500, thorough: 20000, f: avf },
            Stage { name: "rmv", quick: 500, thorough: 20000, f: rmv },
            Stage { name: "mvf", quick: 500, thorough: 20000, f: mvf },
            Stage { name: "live", quick: 900, thorough: 40000, f: live },
        ],
        finish: None,
        assumptions: &["the library's own answers are judged by C15 to C26", "the Python module is built with the settings of the harness (overflow checks on)", "the clock of a live game is compared with its own recording, since the two games run at different times"],
        must_see: &["answers_agreed", "exceptions_agreed", "files_refused", "reviews", "events_chosen", "seeks", "probability_tables", "events_compared", "positions_of_events", "files_saved", "evf_files", "avf_files", "rmv_files", "mvf_files", "games", "wins", "losses", "steps", "descriptions", "descriptions_refused", "boards_set_late", "resets", "checksums", "rates", "cell_sizes_set", "cell_sizes_refused"],
    })
}
