//! C23: derived metrics follow from the counters and the clock by their formulas.
use harness::*;
use oracle::game::*;
use oracle::video::*;
use oracle::*;
use std::time::Instant;

struct Facts {
    r: usize,
    c: usize,
    n: usize,
    bbbv: usize,
    solved: usize,
    ce: usize,
    left: usize,
    right: usize,
    double: usize,
    flag: usize,
}

fn same(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

macro_rules! metrics {
    ($v:expr) => {
        vec![
            ("ce", $v.get_ce().map(|x| x as f64)),
            ("bbbv_solved", $v.get_bbbv_solved().map(|x| x as f64)),
            ("corr", $v.get_corr()),
            ("thrp", $v.get_thrp()),
            ("ioe", $v.get_ioe()),
            ("etime", $v.get_etime()),
            ("rqp", $v.get_rqp()),
            ("qg", $v.get_qg()),
            ("bbbv_s", $v.get_bbbv_s()),
            ("ce_s", $v.get_ce_s()),
            ("stnb", $v.get_stnb()),
            ("cl", Ok($v.get_cl() as f64)),
            ("left_s", Ok($v.get_left_s())),
            ("right_s", Ok($v.get_right_s())),
            ("double_s", Ok($v.get_double_s())),
            ("cl_s", Ok($v.get_cl_s())),
            ("flag_s", Ok($v.get_flag_s())),
        ]
    };
}

/// what the formulas give; rates exist from the first millisecond on
fn want(f: &Facts, t: f64, shown: bool) -> Vec<(&'static str, Option<f64>)> {
    let cl = f.left + f.right + f.double;
    let div = |a: usize, b: usize| if b == 0 { 0.0 } else { a as f64 / b as f64 };
    let rate = |x: usize| {
        if t >= 0.00099 {
            Some(x as f64 / t)
        } else if shown {
            Some(0.0)
        } else {
            None
        }
    };
    let k = match (f.r, f.c, f.n) {
        (8, 8, 10) => 47.299,
        (16, 16, 40) => 153.73,
        (16, 30, 99) => 435.001,
        _ => 0.0,
    };
    let per = |p: f64| if f.solved == 0 { 0.0 } else { t.powf(p) / f.solved as f64 };
    let stnb = if k == 0.0 || shown && t < 0.00099 {
        Some(0.0)
    } else if t < 0.00099 {
        None
    } else {
        Some(k * f.bbbv as f64 / t.powf(1.7) * (f.solved as f64 / f.bbbv as f64).sqrt())
    };
    vec![
        ("ce", Some(f.ce as f64)),
        ("bbbv_solved", Some(f.solved as f64)),
        ("corr", Some(div(f.ce, cl))),
        ("thrp", Some(div(f.solved, f.ce))),
        ("ioe", Some(div(f.solved, cl))),
        ("etime", Some(if f.solved == 0 { 0.0 } else { t * f.bbbv as f64 / f.solved as f64 })),
        ("rqp", Some(per(2.0))),
        ("qg", Some(per(1.7))),
        ("bbbv_s", rate(f.solved)),
        ("ce_s", rate(f.ce)),
        ("stnb", stnb),
        ("cl", Some(cl as f64)),
        ("left_s", rate(f.left)),
        ("right_s", rate(f.right)),
        ("double_s", rate(f.double)),
        ("cl_s", rate(cl)),
        ("flag_s", rate(f.flag)),
    ]
}

fn compare(ctx: &mut Ctx, place: &str, got: Vec<(&'static str, Result<f64, ()>)>, exp: Vec<(&'static str, Option<f64>)>, inp: impl Fn() -> String) -> bool {
    for ((name, a), (_, b)) in got.into_iter().zip(exp) {
        let Some(b) = b else { continue };
        ctx.ev("metrics", 1);
        if b != 0.0 {
            ctx.ev("nonzero_metrics", 1);
        }
        let ok = matches!(a, Ok(a) if same(a, b));
        if !ctx.check(ok, &format!("{place}:{name}"), || format!("{name} is {a:?} instead of {b} {place}: {}", inp())) {
            return false;
        }
    }
    true
}

fn field(ctx: &mut Ctx) -> B {
    let (r, c, n) = if ctx.rng.chance(0.5) { *ctx.rng.pick(&[(8, 8, 10), (8, 8, 10), (16, 16, 40), (16, 30, 99), (8, 8, 9), (16, 16, 41), (30, 16, 99)]) } else { random_field(&mut ctx.rng, 30) };
    random_board(&mut ctx.rng, r, c, n)
}

fn live(ctx: &mut Ctx) {
    let board = field(ctx);
    let (r, c, n) = (board.len(), board[0].len(), mine_count(&board));
    let pix = *ctx.rng.pick(&[16usize, 16, 20, 1, 7]);
    let p = player(&mut ctx.rng);
    let tick = *ctx.rng.pick(&[0u32, 3, 40, 400]);
    let plan = Plan { pix, max_steps: *ctx.rng.pick(&[3, 40, 200]), tick, player: p, pf: 0, unfinished: false };
    let (evs, _) = script(&mut ctx.rng, &board, plan);
    let inp = || format!("{} on {}", fmt_evs(&evs), fmt_board(&board));
    if evs.is_empty() {
        return;
    }
    let mut v: Live = Parsed::new_before_game(board.clone(), pix as u8);
    let mut g = Game::new(&board);
    let mut t = 0;
    let mut start: Option<(Instant, Instant)> = None;
    for e in &evs {
        if e.t > t {
            pass(&mut v, (e.t - t) as u64);
            let d = std::time::Duration::from_millis((e.t - t) as u64);
            start = start.and_then(|s| Some((s.0.checked_sub(d)?, s.1.checked_sub(d)?)));
        }
        t = e.t;
        let was = g.st;
        let t0 = Instant::now();
        let Some(x) = ctx.guard("BaseVideo::step", inp, || v.step(e.e, (e.y, e.x))) else { return };
        if !ctx.check(x.is_ok(), "refused", inp) {
            return;
        }
        g.step(e.e, (e.y / pix, e.x / pix));
        if matches!(was, St::Ready | St::Pre) && !matches!(g.st, St::Ready | St::Pre) {
            start = Some((t0, Instant::now()));
        }
        if g.st == St::Playing && ctx.rng.chance(0.2) {
            // the rates follow the running clock; the elapsed time is known within the measurement
            let Some(s) = start else { continue };
            let a = Instant::now();
            let q = [v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s()];
            let b = Instant::now();
            let lo = a.duration_since(s.1).as_secs_f64() - 0.0045;
            let hi = b.duration_since(s.0).as_secs_f64() + 0.0045;
            let cnt = [g.left, g.right, g.double, g.left + g.right + g.double, g.flag];
            if lo >= 0.004 {
                for (k, x) in q.iter().enumerate() {
                    let w = cnt[k] as f64;
                    if !ctx.check(*x >= w / hi - 1e-9 && *x <= w / lo + 1e-9, "live rate", || format!("rate {k} of left, right, double, cl, flag is {x} with {w} after {lo} to {hi} s: {}", inp())) {
                        return;
                    }
                }
                ctx.ev("running_rates", 5);
            }
        }
    }
    if !g.over() {
        return;
    }
    let time = v.get_rtime().unwrap_or(f64::NAN);
    let f = Facts { r, c, n, bbbv: bbbv(&board), solved: g.bbbv, ce: g.ce, left: g.left, right: g.right, double: g.double, flag: g.flag };
    let Some(got) = ctx.guard("metrics", inp, || metrics!(v)) else { return };
    if !compare(ctx, "after a game", got, want(&f, time, false), || format!("time {time} {}", inp())) {
        return;
    }
    ctx.ev(if g.st == St::Win { "wins" } else { "losses" }, 1);
    if f.ce > 0 && time > 0.0 {
        ctx.seen(mix(hash_board(&board), mix(evs.len() as u64, 1)));
    }
    ctx.sample(|| format!("time {time} 3bv {}/{} ce {}: {}", f.solved, f.bbbv, f.ce, inp()));
}

fn shown(ctx: &mut Ctx) {
    let board = field(ctx);
    let (r, c, n) = (board.len(), board[0].len(), mine_count(&board));
    let pix = *ctx.rng.pick(&[16usize, 16, 20, 1, 7]);
    let p = player(&mut ctx.rng);
    let pf = if ctx.rng.chance(0.2) { ctx.rng.below(4) } else { 0 };
    let tick = *ctx.rng.pick(&[0u32, 3, 200, 3000]);
    let plan = Plan { pix, max_steps: *ctx.rng.pick(&[0, 40, 200]), tick, player: p, pf, unfinished: ctx.rng.chance(0.2) };
    let (evs, _) = script(&mut ctx.rng, &board, plan);
    if evs.is_empty() || evs.last().unwrap().t >= 1 << 24 {
        return;
    }
    // the stated result differs from the clock: what is shown follows the clock
    let stated = ctx.rng.below(1 << 20);
    let Some((mut v, rp)) = parsed(ctx, &board, pix, &evs, stated) else { return };
    let inp = || format!("pixel size {pix} {} on {}", fmt_evs(&evs), fmt_board(&board));
    if rp.start.is_none() {
        return;
    }
    let all = bbbv(&board);
    let (from, to) = (v.get_video_start_time().unwrap(), v.get_video_end_time().unwrap());
    for k in 0..ctx.rng.range(3, 20) {
        if k % 3 == 0 {
            let _ = v.set_current_event_id(ctx.rng.below(evs.len()));
        } else {
            let t = match ctx.rng.below(5) {
                0 => [0.0, 0.0005, 0.00099, 0.001, from, to][ctx.rng.below(6)],
                _ => from + ctx.rng.f64() * (to - from) * 1.1,
            };
            let Some(_) = ctx.guard("set_current_time", inp, || v.set_current_time(t)) else { return };
        }
        let (t, s) = (v.current_time, &rp.snaps[v.current_event_id]);
        if t < 0.0 && s.bbbv > 0 {
            continue;
        }
        let f = Facts { r, c, n, bbbv: all, solved: s.bbbv, ce: s.ce, left: s.left, right: s.right, double: s.double, flag: s.flag };
        let Some(got) = ctx.guard("metrics", inp, || metrics!(v)) else { return };
        if !compare(ctx, "in playback", got, want(&f, t, true), || format!("time {t} event {} {}", v.current_event_id, inp())) {
            return;
        }
        ctx.ev(if t < 0.00099 { "before_the_first_millisecond" } else { "later_moments" }, 1);
        if f.ce > 0 && t > 0.001 {
            ctx.seen(mix(hash_board(&board), mix(t.to_bits(), 2)));
        }
    }
    ctx.sample(inp);
}

fn main() {
    engine::main(Spec {
        id: "C23",
        rule: "metrics after played games and at random moments of recordings, on standard and other boards; non-trivial when effective clicks and time are positive; distinct by board, moment and history",
        stages: vec![
            Stage { name: "live", quick: 12000, thorough: 300000, f: live },
            Stage { name: "shown", quick: 12000, thorough: 300000, f: shown },
        ],
        finish: None,
        assumptions: &["rates of a live game over in less than a millisecond are not claimed", "running rates are compared within the time the measurement took, from 4 ms on"],
        must_see: &["metrics", "nonzero_metrics", "running_rates", "wins", "losses", "before_the_first_millisecond", "later_moments"],
    })
}
