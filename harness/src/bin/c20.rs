//! C20: foreign recordings (AVF, RMV, MVF) are read as they were written and analysed by the rules.
use harness::*;
use ms_toollib::{AvfVideo, MvfVideo, RmvVideo};
use oracle::game::*;
use oracle::video::*;
use oracle::*;

fn level_of(b: &B) -> u8 {
    match (b.len(), b[0].len(), mine_count(b)) { (8, 8, 10) => 3, (16, 16, 40) => 4, (16, 30, 99) => 5, _ => 6 }
}
fn safe_byte(rng: &mut Rng, avoid: &[u8]) -> u8 {
    loop {
        let b = rng.range(1, 255) as u8;
        if !avoid.contains(&b) {
            return b;
        }
    }
}

/// common part: events and layout, analysis, conversion to EVF
fn rest(ctx: &mut Ctx, w: &mut Parsed, board: &B, want: &[Ev], what: &str, inp: &dyn Fn() -> String) -> bool {
    if !ctx.check(w.board == *board && (w.height, w.width, w.mine_num) == (board.len(), board[0].len(), mine_count(board)) && w.cell_pixel_size == 16, &format!("{what} layout"), || format!("{}x{} {} mines {}: {}", w.height, w.width, w.mine_num, fmt_board(&w.board), inp())) {
        return false;
    }
    let rec = &w.video_action_state_recorder;
    for k in 0..rec.len().max(want.len()) {
        let ok = match (rec.get(k), want.get(k)) {
            (Some(a), Some(e)) => a.mouse == e.e && (a.y as usize, a.x as usize) == (e.y, e.x) && (a.time - e.t as f64 / 1000.0).abs() < 1e-6,
            _ => false,
        };
        if !ctx.check(ok, &format!("{what} events"), || format!("event {k} of {}: {:?} instead of {:?}: {}", rec.len(), rec.get(k).map(|a| (a.mouse.clone(), a.time, a.y, a.x)), want.get(k), inp())) {
            return false;
        }
    }
    ctx.ev("events_parsed", want.len() as u64);
    let rp = replay(board, 16, want);
    let Some(_) = ctx.guard("analyse", inp, || w.analyse()) else { return false };
    if let Some(d) = differs(w, &rp, want) {
        ctx.fail(format!("{what} analysed"), format!("{d}: {}", inp()));
        return false;
    }
    let s = &w.static_params;
    let cells = [s.cell0, s.cell1, s.cell2, s.cell3, s.cell4, s.cell5, s.cell6, s.cell7, s.cell8];
    if !ctx.check(w.is_completed == (rp.game.st == St::Win) && cells == cell_nums(board) && (s.op, s.isl) == (openings(board), islands(board)), &format!("{what} facts"), || format!("completed {} but {:?}; cells {cells:?} op {} isl {}: {}", w.is_completed, rp.game.st, s.op, s.isl, inp())) {
        return false;
    }
    if let Some(st) = rp.start {
        let (a, b) = (w.get_video_start_time().unwrap(), w.get_video_end_time().unwrap());
        let (t0, t1) = (want[st].t as f64 / 1000.0, want[want.len() - 1].t as f64 / 1000.0);
        if !ctx.check((a + t0).abs() < 1e-6 && (b - (t1 - t0)).abs() < 1e-6, &format!("{what} clock"), || format!("{a}..{b} but starts at {t0} and ends at {t1}: {}", inp())) {
            return false;
        }
        ctx.ev(match rp.game.st { St::Win => "wins", St::Loss => "losses", _ => "unfinished" }, 1);
    }
    // conversion to EVF keeps the game (of the length EVF allows)
    if w.get_rtime_ms().unwrap() >= 1 << 24 || want.iter().any(|e| e.t >= 1 << 24) {
        ctx.ev("too_long_for_evf", 1);
        return true;
    }
    let Some(_) = ctx.guard("generate_evf_v0_raw_data", inp, || w.generate_evf_v0_raw_data()) else { return false };
    match decode_evf(&w.get_raw_data().unwrap()) {
        Ok(d) => {
            let ok = d.board == *board && d.evs == want && d.completed == w.is_completed && d.text[0] == w.software && d.text[1] == w.player_designator && d.bbbv == w.static_params.bbbv && d.rtime == w.get_rtime_ms().unwrap() as usize && d.mode == w.mode as usize && d.text[4] == w.start_time && d.text[6] == w.country;
            if !ctx.check(ok, &format!("{what} to EVF"), inp) {
                return false;
            }
        }
        Err(e) => {
            ctx.fail(format!("{what} to EVF"), format!("{e}: {}", inp()));
            return false;
        }
    }
    ctx.ev("converted", 1);
    true
}

fn plan(ctx: &mut Ctx, tick: u32) -> Plan {
    let mut p = player(&mut ctx.rng);
    p.cc = false;
    Plan { pix: 16, max_steps: *ctx.rng.pick(&[0, 60, 200, 350]), tick, player: p, pf: 0, unfinished: ctx.rng.chance(0.2) }
}

fn avf(ctx: &mut Ctx) {
    let (r, c, n) = random_field(&mut ctx.rng, 60);
    let board = random_board(&mut ctx.rng, r, c, n);
    let tick = *ctx.rng.pick(&[0u32, 10, 200, 3000]);
    let pl = plan(ctx, tick);
    let (mut evs, _) = script(&mut ctx.rng, &board, pl);
    // hundredths; the first within the first second and recognisable
    let t0 = ctx.rng.below(100) as u32 * 10;
    for e in evs.iter_mut() {
        e.t = e.t / 10 * 10 + t0;
        if e.t >= 65_000_000 {
            return;
        }
    }
    if evs.is_empty() || evs[0].x >= 512 || evs[0].e == "mv" {
        return;
    }
    let lv = level_of(&board);
    let text = |ctx: &mut Ctx| -> Vec<u8> { (0..ctx.rng.below(25)).map(|_| safe_byte(&mut ctx.rng, b"|\r")).collect() };
    let f = Avf { level: if ctx.rng.chance(0.8) { lv } else { 6 }, bbbv: bbbv(&board), rtime: if ctx.rng.chance(0.5) { ctx.rng.below(100000) as u32 } else { ctx.rng.below(10_000_000) as u32 }, start: text(ctx), end: text(ctx), player: text(ctx), evs, board };
    let raw = encode_avf(&mut ctx.rng, &f);
    let file = Scratch::with(".avf", &raw);
    let inp = || format!("{r}x{c} {} on {}", fmt_evs(&f.evs), fmt_board(&f.board));
    let mut w = AvfVideo::new(&file.0);
    let Some(x) = ctx.guard("AvfVideo::parse_video", inp, || w.parse_video()) else { return };
    if !ctx.check(x.is_ok(), "avf refused", || format!("{x:?} {}", inp())) {
        return;
    }
    let w = &mut w.data;
    let ok = w.level == f.level && w.static_params.bbbv == f.bbbv && (w.get_rtime().unwrap() - f.rtime as f64 / 100.0).abs() < 1e-6 && w.get_rtime_ms().unwrap() == f.rtime * 10 && w.start_time == f.start && w.end_time == f.end && w.player_designator == f.player && w.software == b"Arbiter";
    if !ctx.check(ok, "avf fields", || format!("level {} 3bv {} time {:?} ms {:?} start {:?} end {:?} player {:?} instead of {:?}", w.level, w.static_params.bbbv, w.get_rtime(), w.get_rtime_ms(), w.start_time, w.end_time, w.player_designator, Avf { board: vec![], evs: vec![], ..f.clone() })) {
        return;
    }
    if rest(ctx, w, &f.board, &f.evs, "avf", &inp) {
        ctx.ev("avf_files", 1);
        ctx.seen(hash_bytes(&raw));
        ctx.sample(|| format!("avf {} bytes: {}", raw.len(), inp()));
    }
}

fn rmv(ctx: &mut Ctx) {
    let (r, c, n) = random_field(&mut ctx.rng, 60);
    let board = random_board(&mut ctx.rng, r, c, n);
    let tick = *ctx.rng.pick(&[0u32, 10, 200, 3000]);
    let mut pl = plan(ctx, tick);
    pl.player.preflags = false;
    pl.player.wild = 0.0;
    pl.pf = if ctx.rng.chance(0.4) { ctx.rng.below(5) } else { 0 };
    let (evs, _) = script(&mut ctx.rng, &board, pl);
    let pre: Vec<Ev> = evs.iter().filter(|e| e.e == "pf").cloned().collect();
    let mut body: Vec<Ev> = evs[pre.len()..].to_vec();
    if evs[..pre.len()].iter().any(|e| e.e != "pf") {
        return;
    }
    while body.first().map(|e| e.e == "mv") == Some(true) {
        body.remove(0);
    }
    if body.len() < 2 || body[0].e != "lc" {
        return;
    }
    body.remove(0);
    if body.last().unwrap().t >= 1 << 24 {
        return;
    }
    let first = Ev { e: "lc", ..body[0].clone() };
    let mut want: Vec<Ev> = pre.iter().map(|e| Ev { t: 0, y: e.y / 16 * 16, x: e.x / 16 * 16, e: "pf" }).collect();
    want.push(first);
    want.extend(body.iter().cloned());
    let text = |ctx: &mut Ctx| -> Vec<u8> { (0..ctx.rng.below(25)).map(|_| ctx.rng.range(1, 255) as u8).collect() };
    let b3 = bbbv(&board);
    let f = Rmv {
        level: level_of(&board),
        mode: ctx.rng.below(4) as u8,
        nf: ctx.rng.chance(0.5),
        result: if b3 < 1000 && ctx.rng.chance(0.8) { Some((b3, (0..10).map(|_| b'0' + ctx.rng.below(10) as u8).collect())) } else { None },
        info: (0..ctx.rng.below(5)).map(|_| text(ctx)).collect(),
        pre: pre.iter().map(|e| (e.y / 16, e.x / 16)).collect(),
        evs: body,
        board,
    };
    let raw = encode_rmv(&mut ctx.rng, &f);
    let file = Scratch::with(".rmv", &raw);
    let inp = || format!("{r}x{c} {} on {}", fmt_evs(&want), fmt_board(&f.board));
    let mut w = RmvVideo::new(&file.0);
    let Some(x) = ctx.guard("RmvVideo::parse_video", inp, || w.parse_video()) else { return };
    if !ctx.check(x.is_ok(), "rmv refused", || format!("{x:?} {}", inp())) {
        return;
    }
    let w = &mut w.data;
    let (b3, stamp) = f.result.clone().unwrap_or((0, vec![]));
    let last = f.evs.last().unwrap().t;
    let nth = |k: usize| f.info.get(k).cloned().unwrap_or_default();
    let got = (w.level, w.mode, w.nf, w.static_params.bbbv, w.start_time.clone(), w.player_designator.clone(), w.country.clone(), w.get_rtime_ms().unwrap());
    let exp = (f.level, f.mode as u16, f.nf, b3, stamp, nth(0), nth(2), last);
    if !ctx.check(got == exp && w.software == b"Viennasweeper", "rmv fields", || format!("{got:?} instead of {exp:?}")) {
        return;
    }
    if rest(ctx, w, &f.board, &want, "rmv", &inp) {
        ctx.ev("rmv_files", 1);
        if !f.pre.is_empty() {
            ctx.ev("rmv_with_pre_flags", 1);
        }
        ctx.seen(hash_bytes(&raw));
        ctx.sample(|| format!("rmv {} bytes: {}", raw.len(), inp()));
    }
}

fn mvf(ctx: &mut Ctx) {
    let (mut r, mut c, mut n) = random_field(&mut ctx.rng, 31);
    if r > 31 || c > 31 {
        (r, c, n) = (5, 31, 20);
    }
    let board = random_board(&mut ctx.rng, r, c, n);
    let tick = *ctx.rng.pick(&[0u32, 10, 200, 2000]);
    let pl = plan(ctx, tick);
    let (evs, _) = script(&mut ctx.rng, &board, pl);
    if evs.is_empty() || evs.last().unwrap().t >= 1_024_000 {
        return;
    }
    let mut st = (false, false, false);
    let mut samples = vec![];
    let mut want: Vec<Ev> = vec![];
    for e in &evs {
        match e.e {
            "lc" => st.0 = true,
            "lr" => st.0 = false,
            "rc" => st.1 = true,
            "rr" => st.1 = false,
            "mc" => st.2 = true,
            "mr" => st.2 = false,
            _ => (),
        }
        let t = e.t / 10 * 10;
        samples.push((st.0, st.1, st.2, t, e.y, e.x));
        if let Some(p) = want.last() {
            if (p.y, p.x) != (e.y, e.x) {
                want.push(Ev { e: "mv", t, y: e.y, x: e.x });
            }
        }
        if e.e != "mv" {
            want.push(Ev { t, ..e.clone() });
        }
    }
    let f = Mvf { level: level_of(&board), mode: ctx.rng.range(1, 4) as u8, rtime: ctx.rng.below(6_000_000) as u32 * 10, bbbv: bbbv(&board), player: (0..ctx.rng.below(25)).map(|_| ctx.rng.range(1, 255) as u8).collect(), samples, board };
    let raw = encode_mvf(&mut ctx.rng, &f);
    let file = Scratch::with(".mvf", &raw);
    let inp = || format!("{r}x{c} {} on {}", fmt_evs(&want), fmt_board(&f.board));
    let mut w = MvfVideo::new(&file.0);
    let Some(x) = ctx.guard("MvfVideo::parse_video", inp, || w.parse_video()) else { return };
    if !ctx.check(x.is_ok(), "mvf refused", || format!("{x:?} {}", inp())) {
        return;
    }
    let w = &mut w.data;
    let mode = [0u16, 3, 1, 2][f.mode as usize - 1];
    let got = (w.level, w.mode, w.static_params.bbbv, w.player_designator.clone(), w.get_rtime_ms().unwrap());
    let exp = (f.level, mode, f.bbbv, f.player.clone(), f.rtime);
    if !ctx.check(got == exp && w.software == b"0.97 beta", "mvf fields", || format!("{got:?} instead of {exp:?}")) {
        return;
    }
    // moves over no distance carry no information and may be there or not
    let mut k = 1;
    while k < w.video_action_state_recorder.len() {
        let (a, b) = (&w.video_action_state_recorder[k - 1], &w.video_action_state_recorder[k]);
        if b.mouse == "mv" && (a.x, a.y) == (b.x, b.y) {
            w.video_action_state_recorder.remove(k);
        } else {
            k += 1;
        }
    }
    if rest(ctx, w, &f.board, &want, "mvf", &inp) {
        ctx.ev("mvf_files", 1);
        ctx.seen(hash_bytes(&raw));
        ctx.sample(|| format!("mvf {} bytes: {}", raw.len(), inp()));
    }
}

fn main() {
    engine::main(Spec {
        id: "C20",
        rule: "games written as AVF, RMV and MVF by independent encoders, read, analysed and converted; distinct by file content",
        stages: vec![Stage { name: "avf", quick: 10000, thorough: 300000, f: avf }, Stage { name: "rmv", quick: 10000, thorough: 300000, f: rmv }, Stage { name: "mvf", quick: 8000, thorough: 200000, f: mvf }],
        finish: None,
        assumptions: &["the layouts of the formats are those their parsers document; AVF shift clicks are not driven", "an AVF recording begins within its first second"],
        must_see: &["avf_files", "rmv_files", "rmv_with_pre_flags", "mvf_files", "wins", "losses", "unfinished", "converted"],
    })
}
