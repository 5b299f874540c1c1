//! C22: playback shows, at any time and however one got there, the state of the recording then.
use harness::*;
use ms_toollib::GameBoard;
use oracle::game::*;
use oracle::video::*;
use oracle::*;

fn shown(v: &Parsed) -> (usize, (usize, usize, usize, usize, usize), Result<usize, ()>, Result<usize, ()>, usize, B, f64, f64) {
    (v.current_event_id, (v.get_left(), v.get_right(), v.get_double(), v.get_cl(), v.get_flag()), v.get_ce(), v.get_bbbv_solved(), v.get_mouse_state(), v.get_game_board(), v.get_path(), v.get_time())
}

fn playback(ctx: &mut Ctx) {
    let probs = ctx.rng.chance(0.15);
    let (mut r, mut c, mut n) = random_field(&mut ctx.rng, 30);
    if probs && r * c > 64 {
        (r, c, n) = (ctx.rng.range(2, 8), ctx.rng.range(2, 8), 0);
        n += r * c / 6;
    }
    let board = random_board(&mut ctx.rng, r, c, n);
    let pix = *ctx.rng.pick(&[16usize, 16, 20, 1, 7, 255]);
    let p = player(&mut ctx.rng);
    let pf = if ctx.rng.chance(0.2) { ctx.rng.below(4) } else { 0 };
    let tick = *ctx.rng.pick(&[0u32, 3, 200]);
    let plan = Plan { pix, max_steps: *ctx.rng.pick(&[0, 40, 200]), tick, player: p, pf, unfinished: ctx.rng.chance(0.2) };
    let (mut evs, _) = script(&mut ctx.rng, &board, plan);
    if evs.is_empty() || evs.last().unwrap().t >= 1 << 24 {
        return;
    }
    if ctx.rng.chance(0.2) {
        // the recording begins with the mouse outside the board
        let t = evs[0].t;
        for _ in 0..ctx.rng.range(1, 3) {
            evs.insert(0, Ev { t, e: "mv", x: c * pix, y: r * pix });
        }
    }
    let Some((mut v, rp)) = parsed(ctx, &board, pix, &evs, 5000) else { return };
    let Some(start) = rp.start else { return };
    let d = evs[start].t as f64 / 1000.0;
    let end = evs.last().unwrap().t as f64 / 1000.0 - d;
    let inp = || format!("pixel size {pix} {} on {}", fmt_evs(&evs), fmt_board(&board));
    if !ctx.check((v.get_video_start_time().unwrap() + d).abs() < 1e-9 && (v.get_video_end_time().unwrap() - end).abs() < 1e-9, "range", || format!("{:?}..{:?} instead of {}..{end}: {}", v.get_video_start_time(), v.get_video_end_time(), -d, inp())) {
        return;
    }
    if !ctx.check(v.get_pix_size() == Ok(pix as u8), "pixel size", || format!("{:?}", v.get_pix_size())) {
        return;
    }
    let mut k = 1.0;
    let mut log: Vec<String> = vec![];
    let mut seen_at: std::collections::HashMap<u64, usize> = Default::default();
    for _ in 0..ctx.rng.range(4, 40) {
        // allowed range of current events
        let (lo, hi, now);
        let what = ctx.rng.below(10);
        if what < 2 && ctx.rng.chance(0.1) {
            // an event that is not there
            let id = evs.len() + *ctx.rng.pick(&[0usize, 0, 1, 7, 1 << 40]);
            log.push(format!("event {id}"));
            let was = (shown(&v), v.current_time);
            let inp = || format!("{} in {}", log.join(" "), fmt_evs(&evs));
            let Some(x) = ctx.guard("set_current_event_id", inp, || v.set_current_event_id(id)) else { return };
            ctx.ev("events_not_there", 1);
            if !ctx.check(x.is_err() && (shown(&v), v.current_time) == was, "event that is not there", || format!("{x:?}, {} events: {}", evs.len(), inp())) {
                return;
            }
            continue;
        }
        if what < 2 {
            let id = ctx.rng.below(evs.len());
            log.push(format!("event {id}"));
            let x = v.set_current_event_id(id);
            if !ctx.check(x.is_ok(), "set_current_event_id", || "refused".into()) {
                return;
            }
            (lo, hi, now) = (id, id, evs[id].t as f64 / 1000.0 - d);
        } else if what < 3 {
            let q = *ctx.rng.pick(&[16u8, 20, 32, 5, 255]);
            v.set_video_playing_pix_size(q);
            k = q as f64 / pix as f64;
            log.push(format!("zoom {q}"));
            continue;
        } else {
            let t = match ctx.rng.below(6) {
                0 => evs[ctx.rng.below(evs.len())].t as f64 / 1000.0 - d,
                1 => -d - ctx.rng.f64() * 3.0,
                2 => end + ctx.rng.f64() * 3.0,
                3 => v.current_time,
                4 => v.current_time + (ctx.rng.f64() - 0.5) * 0.05,
                _ => -d + ctx.rng.f64() * (end + d),
            };
            log.push(format!("time {t}"));
            let inp = || format!("{} in pixel size {pix} {} on {}", log.join(" "), fmt_evs(&evs), fmt_board(&board));
            let Some(_) = ctx.guard("set_current_time", inp, || v.set_current_time(t)) else { return };
            let at = |x: f64| (0..evs.len()).rev().find(|i| evs[*i].t as f64 / 1000.0 <= x).unwrap_or(0);
            if start == 0 || d == 0.0 {
                lo = at(t);
                hi = lo;
            } else {
                lo = at(t + d - 1e-9);
                hi = at(t + d + 1e-9);
            }
            now = t.max(-d).min(end);
            // the same time always shows the same event
            let was = *seen_at.entry(t.to_bits()).or_insert(v.current_event_id);
            if !ctx.check(was == v.current_event_id, "depends on history", || format!("event {} at {t} shown earlier, now {}: {}", was, v.current_event_id, inp())) {
                return;
            }
            let id = v.current_event_id;
            v.set_current_time(t);
            if !ctx.check(id == v.current_event_id, "time set twice", || format!("event {id} then {} at {t}: {}", v.current_event_id, inp())) {
                return;
            }
            ctx.ev("seeks", 1);
            if lo < hi || d == 0.0 && evs.iter().any(|e| e.t as f64 / 1000.0 == t) {
                ctx.ev("seeks_to_an_event", 1);
            }
        }
        let inp = || format!("{} in pixel size {pix} {} on {}", log.join(" "), fmt_evs(&evs), fmt_board(&board));
        let id = v.current_event_id;
        if !ctx.check((lo..=hi).contains(&id), "wrong event", || format!("event {id} of {} shown, expected {lo}..{hi}: {}", evs.len(), inp())) {
            return;
        }
        let s = &rp.snaps[id];
        let got = shown(&v);
        let base = v.video_action_state_recorder[start].path;
        let path = if id >= start { s.path + base } else { s.path };
        let ok = got.1 == (s.left, s.right, s.double, s.left + s.right + s.double, s.flag) && got.2 == Ok(s.ce) && got.3 == Ok(s.bbbv) && (matches!(s.st, St::Win | St::Loss) || got.4 == s.mouse) && got.5 == rp.boards[s.next] && (got.6 - path).abs() < 1e-6 * (1.0 + path);
        if !ctx.check(ok, "wrong state", || format!("event {id}: {:?} ce {:?} 3bv {:?} mouse {} path {} board {} instead of left {} right {} double {} flag {} ce {} 3bv {} mouse {} path {path} board {}: {}", got.1, got.2, got.3, got.4, got.6, fmt_board(&got.5), s.left, s.right, s.double, s.flag, s.ce, s.bbbv, s.mouse, fmt_board(&rp.boards[s.next]), inp())) {
            return;
        }
        if !ctx.check((got.7 - now).abs() < 1e-9 && (v.current_time - now).abs() < 1e-9, "current time", || format!("{} instead of {now}: {}", got.7, inp())) {
            return;
        }
        // mouse position: outside events keep the last position on the field
        let e = evs[..=id].iter().rev().find(|e| e.x < c * pix && e.y < r * pix);
        let Some(xy) = ctx.guard("get_x_y", inp, || v.get_x_y()) else { return };
        if e.is_none() {
            ctx.ev("positions_never_inside", 1);
        }
        if let Some(e) = e {
            let ok = match xy {
                Ok((x, y)) => (x as f64 - e.x as f64 * k).abs() < 1.0001 && (y as f64 - e.y as f64 * k).abs() < 1.0001,
                Err(_) => false,
            };
            if !ctx.check(ok, "mouse position", || format!("{xy:?} at event {id} instead of {} {} times {k}: {}", e.x, e.y, inp())) {
                return;
            }
            if evs[id].x >= c * pix {
                ctx.ev("positions_outside", 1);
            }
        }
        if probs && ctx.rng.chance(0.3) {
            let opened = rp.snaps[..=id].iter().any(|s| s.level >= 2);
            let lost = s.st == St::Loss;
            let Some(got) = ctx.guard("get_game_board_poss", inp, || v.get_game_board_poss()) else { return };
            if !lost {
                let want = if opened {
                    let mut g = GameBoard::new(n);
                    g.set_game_board(&rp.boards[s.next]);
                    g.get_poss().to_vec()
                } else {
                    vec![vec![n as f64 / (r * c) as f64; c]; r]
                };
                let ok = got.len() == r && got.iter().zip(&want).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-9));
                if !ctx.check(ok, "probabilities", || format!("event {id} (opened {opened}): {got:?} instead of {want:?}: {}", inp())) {
                    return;
                }
                ctx.ev(if opened { "probability_tables" } else { "tables_before_the_start" }, 1);
            }
        }
        ctx.seen(mix(hash_board(&board), mix(id as u64, evs.len() as u64)));
    }
    ctx.ev("recordings", 1);
    ctx.sample(|| format!("{} in {}", log.join(" "), inp()));
}

fn main() {
    engine::main(Spec {
        id: "C22",
        rule: "random seeks, by time and by event, in analysed recordings; distinct by recording and event shown",
        stages: vec![Stage { name: "playback", quick: 20000, thorough: 500000, f: playback }],
        finish: None,
        assumptions: &["event numbers within the recording", "probabilities compared with those of a fresh position object (C03, C08)"],
        must_see: &["seeks", "seeks_to_an_event", "positions_outside", "positions_never_inside", "probability_tables", "tables_before_the_start", "recordings"],
    })
}
