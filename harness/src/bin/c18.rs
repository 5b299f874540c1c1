//! C18: EVF bytes follow the published format (version 0), in both directions, checksum included.
use harness::*;
use ms_toollib::EvfVideo;
use oracle::game::*;
use oracle::video::*;
use oracle::*;

fn read_back(ctx: &mut Ctx, f: &Evf, raw: &[u8]) -> Option<Parsed> {
    let file = Scratch::with(".evf", raw);
    let mut w = EvfVideo::new(&file.0);
    let inp = || format!("{} bytes: {:?}", raw.len(), &raw[..raw.len().min(120)]);
    let x = ctx.guard("EvfVideo::parse_video", inp, || w.parse_video())?;
    if !ctx.check(x.is_ok(), "conforming file refused", || format!("{x:?}: {}", inp())) {
        return None;
    }
    let w = w.data;
    let txt = [&w.software, &w.player_designator, &w.race_designator, &w.uniqueness_designator, &w.start_time, &w.end_time, &w.country, &w.device_uuid];
    for (k, name) in ["software", "player", "race", "uniqueness", "start time", "end time", "country", "device"].iter().enumerate() {
        if !ctx.check(*txt[k] == f.text[k], &format!("parsed {name}"), || format!("{:?} instead of {:?}", txt[k], f.text[k])) {
            return None;
        }
    }
    let (h, wd) = (f.board.len(), f.board[0].len());
    let level = match (h, wd, f.mines) { (8, 8, 10) => 3, (16, 16, 40) => 4, (16, 30, 99) => 5, _ => 6 };
    let got = (w.height, w.width, w.mine_num, w.level, w.cell_pixel_size as usize, w.mode as usize, w.static_params.bbbv, (w.is_completed, w.is_offical, w.is_fair), w.get_rtime_ms().unwrap() as usize);
    let exp = (h, wd, f.mines, level, f.pix, f.mode, f.bbbv, (f.completed, f.official, f.fair), f.rtime);
    if !ctx.check(got == exp, "parsed facts", || format!("(h, w, mines, level, pixel, mode, 3bv, flags, ms) = {got:?} instead of {exp:?}: {}", inp()))
        || !ctx.check(w.board == f.board, "parsed layout", || format!("{} instead of {}", fmt_board(&w.board), fmt_board(&f.board)))
        || !ctx.check((w.get_rtime().unwrap() - f.rtime as f64 / 1000.0).abs() < 1e-9, "parsed result time", || format!("{:?} for {} ms", w.get_rtime(), f.rtime))
    {
        return None;
    }
    let sum = f.sum.clone().unwrap_or(vec![0; 32]);
    if !ctx.check(w.get_checksum().unwrap()[..] == sum[..], "parsed checksum", || format!("{:?} instead of {sum:?}", w.get_checksum())) {
        return None;
    }
    if !ctx.check(w.video_action_state_recorder.len() == f.evs.len(), "parsed number of events", || format!("{} instead of {}", w.video_action_state_recorder.len(), f.evs.len())) {
        return None;
    }
    for (k, (a, e)) in w.video_action_state_recorder.iter().zip(&f.evs).enumerate() {
        let ok = a.mouse == e.e && (a.y as usize, a.x as usize) == (e.y, e.x) && (a.time - e.t as f64 / 1000.0).abs() < 1e-9;
        if !ctx.check(ok, "parsed event", || format!("event {k}: {} ({},{}) {} instead of {e:?}", a.mouse, a.y, a.x, a.time)) {
            return None;
        }
    }
    ctx.ev("events_parsed", f.evs.len() as u64);
    Some(w)
}

/// any conforming file is read as written and encoded again as read
fn parse(ctx: &mut Ctx) {
    let big = ctx.rng.chance(0.03);
    let (r, c, n) = if big { (ctx.rng.range(1, 255), ctx.rng.range(1, 255), 0) } else { random_field(&mut ctx.rng, 255) };
    let n = if big { ctx.rng.below(r * c + 1) } else if ctx.rng.chance(0.1) { ctx.rng.below(r * c + 1) } else { n };
    let board = random_board(&mut ctx.rng, r, c, n);
    let pix = *ctx.rng.pick(&[16usize, 16, 20, 1, 7, 48, 255]);
    let plausible = ctx.rng.chance(0.5) && n < r * c && !big;
    let mut evs;
    if plausible {
        let p = player(&mut ctx.rng);
        let pf = if ctx.rng.chance(0.4) { ctx.rng.below(5) } else { 0 };
        let plan = Plan { pix, max_steps: *ctx.rng.pick(&[0, 60, 250]), tick: *ctx.rng.pick(&[0u32, 5, 300]), player: p, pf, unfinished: ctx.rng.chance(0.3) };
        evs = script(&mut ctx.rng, &board, plan).0;
    } else {
        let t0 = *ctx.rng.pick(&[100usize, 70000, 1 << 24]);
        let k = ctx.rng.below(60);
        evs = (0..k).map(|_| Ev { e: ctx.rng.pick(&EVENTS), t: ctx.rng.below(t0) as u32, y: ctx.rng.below(65536), x: ctx.rng.below(65536) }).collect();
        ctx.ev("arbitrary_event_files", 1);
    }
    if evs.iter().any(|e| e.t >= 1 << 24) {
        evs.retain(|e| e.t < 1 << 24);
    }
    let mut text: [Vec<u8>; 8] = Default::default();
    for t in text.iter_mut() {
        *t = random_text(&mut ctx.rng);
    }
    let sum = if ctx.rng.chance(0.5) { Some((0..32).map(|_| ctx.rng.below(256) as u8).collect()) } else { None };
    let f = Evf {
        completed: ctx.rng.chance(0.5),
        official: ctx.rng.chance(0.5),
        fair: ctx.rng.chance(0.5),
        mines: n,
        pix,
        mode: if ctx.rng.chance(0.5) { ctx.rng.below(11) } else { ctx.rng.below(65536) },
        bbbv: if ctx.rng.chance(0.8) { bbbv(&board) } else { ctx.rng.below(65536) },
        rtime: if ctx.rng.chance(0.5) { ctx.rng.below(1 << 24) } else { ctx.rng.below(300_000) },
        text,
        board,
        evs,
        sum,
    };
    let raw = encode_evf(&f);
    let Some(mut w) = read_back(ctx, &f, &raw) else { return };
    w.generate_evf_v0_raw_data();
    let again = w.get_raw_data().unwrap();
    match decode_evf(&again) {
        Ok(d) => {
            let mut f2 = f.clone();
            f2.sum = d.sum.clone();
            if d.sum.is_some() && f.sum != d.sum || d != f2 {
                let k = again.iter().zip(&raw).position(|(a, b)| a != b);
                ctx.fail("encoded again", format!("first differing byte {k:?} of {} and {}", again.len(), raw.len()));
                return;
            }
        }
        Err(e) => {
            ctx.fail("encoded again", format!("not conforming: {e}"));
            return;
        }
    }
    ctx.seen(hash_bytes(&raw));
    ctx.ev("files_parsed", 1);
    ctx.ev("bytes", raw.len() as u64);
    ctx.sample(|| format!("{r}x{c}/{n} {} events {} bytes checksum {}", f.evs.len(), raw.len(), f.sum.is_some()));
}

/// what a finished live game writes, step by step, under setters, checksums and new games
fn write(ctx: &mut Ctx) {
    let (r, c, n) = random_field(&mut ctx.rng, 40);
    let pix = *ctx.rng.pick(&[16usize, 16, 20, 1, 48, 255]);
    let mut board = random_board(&mut ctx.rng, r, c, n);
    let mut v = Live::new_before_game(board.clone(), pix as u8);
    let games = ctx.rng.range(1, 3);
    let mut text: [Vec<u8>; 8] = Default::default();
    let (mut mode, mut official, mut fair) = (0usize, false, false);
    for g in 0..games {
        if g > 0 {
            v.reset(r, c, pix as u8);
            board = random_board(&mut ctx.rng, r, c, n);
            v.set_board(board.clone()).unwrap();
            ctx.ev("new_games", 1);
        }
        let p = player(&mut ctx.rng);
        let plan = Plan { pix, max_steps: *ctx.rng.pick(&[0, 20, 120]), tick: *ctx.rng.pick(&[0u32, 20, 2000]), player: p, pf: 0, unfinished: false };
        let (evs, _) = script(&mut ctx.rng, &board, plan);
        if !play(ctx, &mut v, &evs) {
            return;
        }
        let rp = replay(&board, pix, &evs);
        text[4] = v.start_time.clone();
        text[5] = v.end_time.clone();
        let times: Vec<u32> = v.video_action_state_recorder.iter().map(|e| (e.time * 1000.0).round() as u32).collect();
        if times.len() != evs.len() {
            ctx.fail("number of events", format!("{} instead of {}", times.len(), evs.len()));
            return;
        }
        let mut sum: Option<[u8; 32]> = None;
        let mut gen = false;
        let mut log: Vec<String> = vec![];
        for _ in 0..ctx.rng.range(2, 12) {
            let what = ctx.rng.below(10);
            match what {
                0..=2 => {
                    let s: [u8; 32] = std::array::from_fn(|_| ctx.rng.below(256) as u8);
                    log.push("set_checksum".into());
                    let l = log.join(" ");
                    let Some(x) = ctx.guard("set_checksum", || l.clone(), || v.set_checksum(s)) else { return };
                    if !ctx.check(x.is_ok(), "set_checksum refused", || l.clone()) {
                        return;
                    }
                    sum = Some(s);
                    ctx.ev(if gen { "checksum_after_data" } else { "checksum_before_data" }, 1);
                    if gen && !expect(ctx, &v, &board, &evs, &times, &rp, pix, mode, official, fair, &text, &sum, &log) {
                        return;
                    }
                }
                3..=5 => {
                    log.push("generate".into());
                    let l = log.join(" ");
                    let Some(_) = ctx.guard("generate_evf_v0_raw_data", || l.clone(), || v.generate_evf_v0_raw_data()) else { return };
                    gen = true;
                    if !expect(ctx, &v, &board, &evs, &times, &rp, pix, mode, official, fair, &text, &sum, &log) {
                        return;
                    }
                }
                6 => {
                    let want = sum.unwrap_or([0; 32]);
                    log.push("get_checksum".into());
                    if !ctx.check(v.get_checksum() == Ok(want), "get_checksum", || format!("{:?} instead of {want:?} after {}", v.get_checksum(), log.join(" "))) {
                        return;
                    }
                    continue;
                }
                7 => {
                    (mode, official, fair) = (ctx.rng.below(65536), ctx.rng.chance(0.5), ctx.rng.chance(0.5));
                    v.set_mode(mode as u16).ok();
                    v.set_is_offical(official).ok();
                    v.set_is_fair(fair).ok();
                    log.push("set flags".into());
                    gen = false;
                }
                _ => {
                    let k = *ctx.rng.pick(&[0usize, 1, 2, 3, 6, 7]);
                    text[k] = random_text(&mut ctx.rng);
                    let t = text[k].clone();
                    let _ = match k {
                        0 => v.set_software(t),
                        1 => v.set_player_designator(t),
                        2 => v.set_race_designator(t),
                        3 => v.set_uniqueness_designator(t),
                        6 => v.set_country(t),
                        _ => v.set_device_uuid(t),
                    };
                    log.push(format!("set text {k}"));
                    gen = false;
                }
            }
        }
        ctx.seen(mix(hash_board(&board), hash_bytes(log.join(" ").as_bytes())));
        ctx.ev("games_written", 1);
    }
}

#[allow(clippy::too_many_arguments)]
fn expect(ctx: &mut Ctx, v: &Live, board: &B, evs: &[Ev], times: &[u32], rp: &Replay, pix: usize, mode: usize, official: bool, fair: bool, text: &[Vec<u8>; 8], sum: &Option<[u8; 32]>, log: &[String]) -> bool {
    let raw = v.get_raw_data().unwrap_or_default();
    let inp = || format!("after {} {} on {}", log.join(" "), fmt_evs(evs), fmt_board(board));
    let d = match decode_evf(&raw) {
        Ok(d) => d,
        Err(e) => {
            ctx.fail("not conforming", format!("{e} {}", inp()));
            return false;
        }
    };
    let want = Evf {
        completed: rp.game.st == St::Win,
        official,
        fair,
        mines: mine_count(board),
        pix,
        mode,
        bbbv: bbbv(board),
        rtime: (times[evs.len() - 1] - times[rp.start.unwrap()]) as usize,
        text: text.clone(),
        board: board.clone(),
        evs: evs.iter().zip(times).map(|(e, t)| Ev { t: *t, ..e.clone() }).collect(),
        sum: sum.map(|s| s.to_vec()),
    };
    if d != want {
        let names = [(d.completed == want.completed, "completed"), (d.official == want.official && d.fair == want.fair, "flags"), (d.mines == want.mines && d.pix == want.pix && d.mode == want.mode && d.bbbv == want.bbbv, "numbers"), (d.rtime == want.rtime, "result time"), (d.text == want.text, "texts"), (d.board == want.board, "layout"), (d.evs == want.evs, "events"), (d.sum == want.sum, "checksum")];
        let bad: Vec<_> = names.iter().filter(|x| !x.0).map(|x| x.1).collect();
        ctx.fail(format!("written {}", bad.join(", ")), format!("checksum {:?} wanted {:?}; ms {} wanted {}; {}", d.sum, want.sum, d.rtime, want.rtime, inp()));
        return false;
    }
    ctx.ev("data_checked", 1);
    true
}

fn main() {
    engine::main(Spec {
        id: "C18",
        rule: "files made by an independent encoder and read by the library; data written by the library and read by an independent decoder; distinct by content",
        stages: vec![Stage { name: "parse", quick: 15000, thorough: 400000, f: parse }, Stage { name: "write", quick: 8000, thorough: 200000, f: write }],
        finish: None,
        assumptions: &["version 0 of the format, the one the code implements", "texts hold no NUL byte"],
        must_see: &["files_parsed", "arbitrary_event_files", "games_written", "checksum_after_data", "checksum_before_data", "new_games"],
    })
}
