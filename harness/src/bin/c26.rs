//! C26: the review comments on a recording state facts about it.
use harness::*;
use ms_toollib::GameBoard;
use oracle::game::*;
use oracle::solver::*;
use oracle::video::*;
use oracle::*;
use std::collections::BTreeMap;

const CAP: usize = 4000;

/// what can be known about a position: hidden cells' mine probability, and which are decided at which level
struct Known {
    poss: Vec<Vec<f64>>,
    basic_safe: Vec<(usize, usize)>,
    basic_mine: Vec<(usize, usize)>,
    safe: Vec<(usize, usize)>,
    mine: Vec<(usize, usize)>,
}

fn know(g: &B, mines: usize) -> Option<Known> {
    let clean: B = g.iter().map(|r| r.iter().map(|x| if *x > 9 { 10 } else { *x }).collect()).collect();
    let m = model(&clean);
    if !affordable(&m, 55, CAP) {
        return None;
    }
    let po = posterior(&clean, mines, 55, CAP)??;
    let poss = (0..g.len())
        .map(|i| (0..g[0].len()).map(|j| if clean[i][j] != 10 { 0.0 } else { po.frontier.get(&(i, j)).cloned().unwrap_or(po.inner) }).collect())
        .collect();
    let f = Analysis::new(&clean, CAP)?.forced();
    let mut b = GameBoard::new(mines);
    b.set_game_board(g);
    let (bs, bm) = (b.get_basic_not_mine().clone(), b.get_basic_is_mine().clone());
    Some(Known {
        poss,
        basic_safe: bs,
        basic_mine: bm,
        safe: f.iter().filter(|x| matches!(x.1, Forced::Safe)).map(|x| *x.0).collect(),
        mine: f.iter().filter(|x| matches!(x.1, Forced::Mine)).map(|x| *x.0).collect(),
    })
}

type Notes = BTreeMap<(usize, String), Vec<f64>>;

/// (event, text without numbers) -> numbers in it
fn notes(v: &Parsed) -> Notes {
    let mut out = Notes::new();
    for (k, e) in v.video_action_state_recorder.iter().enumerate() {
        for t in e.comments.split(';').filter(|t| !t.is_empty()) {
            let mut text = String::new();
            let mut num = String::new();
            let mut nums = vec![];
            for ch in t.replace("inf", "9e99").chars().chain(" ".chars()) {
                if ch.is_ascii_digit() || ch == '.' || ch == 'e' && !num.is_empty() {
                    num.push(ch);
                } else {
                    if !num.is_empty() {
                        nums.push(num.parse().unwrap_or(f64::NAN));
                        num.clear();
                        text.push('#');
                    }
                    text.push(ch);
                }
            }
            if text.starts_with("luck") {
                text = "luck".into();
            }
            out.entry((k, text.trim().to_string())).or_default().extend(nums);
        }
    }
    out
}

struct Case<'a> {
    evs: &'a [Ev],
    rp: &'a Replay,
    pix: usize,
    r: usize,
    c: usize,
    known: BTreeMap<usize, Known>,
}

impl Case<'_> {
    fn at(&self, k: usize) -> (usize, usize) {
        (self.evs[k].y / self.pix, self.evs[k].x / self.pix)
    }
}

const HIGH: &str = "error: 危险的猜雷(猜对概率#)";
const JUMP_L: &str = "feature: 高难度的判雷(左键)";
const JUMP_R: &str = "feature: 高难度的判雷(标雷)";
const NEEDLESS: &str = "warning: 可以判雷时选择猜雷";
const BENT: &str = "error: 过于弯曲的鼠标轨迹(#%)";
const CURVED: &str = "warning: 弯曲的鼠标轨迹(#%)";
const VISION: &str = "warning: 可以判雷时视野的转移";
const FL: &str = "feature: 教科书式的FL局部(步数#)";

/// the notes that the definitions ask for; near-ties go to `either`
fn expected(c: &Case, which: &[&str], either: &mut Vec<(usize, String)>) -> Notes {
    let mut out = Notes::new();
    let mut put = |k: usize, t: &str, x: Vec<f64>| out.entry((k, t.to_string())).or_default().extend(x);
    let s = &c.rp.snaps;
    for w in which {
        match *w {
            "high_risk_guess" => {
                for k in 2..s.len() {
                    if s[k].level >= 2 {
                        let p = c.known[&s[k].prior].poss[c.at(k).0][c.at(k).1];
                        if (p - 0.51).abs() < 1e-7 {
                            either.push((k, HIGH.into()));
                        } else if p > 0.51 {
                            put(k, HIGH, vec![1.0 - p]);
                        }
                    }
                }
            }
            "jump_judge" => {
                for k in 2..s.len() {
                    if s[k].level >= 2 && c.evs[k].e == "lr" {
                        let n = &c.known[&s[k].prior];
                        if n.safe.contains(&c.at(k)) && !n.basic_safe.contains(&c.at(k)) {
                            put(k, JUMP_L, vec![]);
                        }
                    } else if s[k].level == 1 && c.evs[k].e == "rc" {
                        let n = &c.known[&s[k].prior];
                        let q = c.at(k);
                        if c.rp.boards[s[k].prior][q.0][q.1] == 10 && n.mine.contains(&q) && !n.basic_mine.contains(&q) {
                            put(k, JUMP_R, vec![]);
                        }
                    }
                }
            }
            "needless_guess" => {
                for k in 2..s.len() {
                    if s[k].level >= 2 && c.evs[k].e == "lr" {
                        let n = &c.known[&s[k].prior];
                        let p = n.poss[c.at(k).0][c.at(k).1];
                        if !n.safe.is_empty() && p > 0.0 && !n.safe.contains(&c.at(k)) {
                            put(k, NEEDLESS, vec![]);
                        }
                    }
                }
            }
            "mouse_trace" => {
                let (mut last, mut prev, mut path) = (0, 0, 0.0);
                let d = |a: usize, b: usize| ((c.evs[a].x as f64 - c.evs[b].x as f64).powi(2) + (c.evs[a].y as f64 - c.evs[b].y as f64).powi(2)).sqrt();
                for k in 0..s.len() {
                    path += d(prev, k);
                    prev = k;
                    if ["lr", "rc", "rr"].contains(&c.evs[k].e) {
                        let q = path / d(last, k);
                        let name = if q > 7.0 { BENT } else { CURVED };
                        if (q - 7.0).abs() < 1e-9 || (q - 3.5).abs() < 1e-9 {
                            either.push((last, BENT.into()));
                            either.push((last, CURVED.into()));
                        } else if q > 3.5 {
                            put(last, name, vec![if q.is_infinite() { 9e99 } else { q * 100.0 }]);
                        }
                        last = k;
                        path = 0.0;
                    }
                }
            }
            "vision_transfer" => {
                let mut last = 0;
                for k in 0..s.len() {
                    if s[k].level >= 2 {
                        let d2 = (c.evs[k].x as i64 - c.evs[last].x as i64).pow(2) + (c.evs[k].y as i64 - c.evs[last].y as i64).pow(2);
                        if d2 >= 112 * 112 {
                            let (a, b) = c.at(last);
                            if c.known[&s[k].prior].safe.iter().chain(&c.known[&s[k].prior].basic_safe).any(|q| q.0.abs_diff(a) <= 3 && q.1.abs_diff(b) <= 3) {
                                put(last, VISION, vec![]);
                            }
                        }
                        last = k;
                    }
                }
            }
            "survive_poss" => {
                let mut x = vec![];
                let mut all = 1.0;
                for k in (0..s.len()).filter(|k| c.evs[*k].e == "lr" && s[*k].level > 0).skip(1) {
                    let p = c.known[&s[k].prior].poss[c.at(k).0][c.at(k).1];
                    if p > 1e-12 && p < 1.0 - 1e-12 {
                        all *= 1.0 - p;
                        x.push(1.0 - p);
                    }
                }
                x.push(all);
                put(s.len() - 1, "luck", x);
            }
            _ => {}
        }
    }
    out
}

/// unopened cells a chord on p would open, if it is a legal chord
fn gain(g: &B, p: (usize, usize)) -> Option<usize> {
    let v = g[p.0][p.1];
    let n = neighbours(g.len(), g[0].len(), p.0, p.1);
    let flags = n.iter().filter(|q| g[q.0][q.1] == 11).count();
    ((1..=8).contains(&v) && flags as i32 == v).then(|| n.iter().filter(|q| g[q.0][q.1] == 10).count())
}

/// Textbook spots: at least five flags and chords in a row, beginning with a flag and ending with a chord,
/// each chord the best one around, each event near the one before, and no other click among them.
fn spots(ctx: &mut Ctx, c: &Case, fl: &[(usize, Vec<f64>)], inp: &dyn Fn() -> String) -> bool {
    let s = &c.rp.snaps;
    let ids: Vec<usize> = (0..s.len()).filter(|k| *k == 0 || c.evs[*k].e != "mv").collect();
    let flag = |k: usize| c.evs[k].e == "rc" && s[k].level == 1 && c.rp.boards[s[k].prior][c.at(k).0][c.at(k).1] == 10;
    let chord = |k: usize| s[k].level == 3;
    let step = |k: usize| flag(k) || chord(k);
    // a click or a chord that opened nothing as a chord
    let other = |i: usize| i > 0 && !step(ids[i]) && (c.evs[ids[i]].e == "lr" && [4, 5].contains(&s[ids[i - 1]].mouse) || c.evs[ids[i]].e == "rr" && s[ids[i - 1]].mouse == 5);
    let far = |i: usize| {
        let (a, b) = (c.at(ids[i - 1]), c.at(ids[i]));
        a.0.abs_diff(b.0).pow(2) + a.1.abs_diff(b.1).pow(2) > 16
    };
    let good = |k: usize| {
        let (g, p) = (&c.rp.boards[s[k].prior], c.at(k));
        let own = gain(g, p).unwrap_or(0);
        own > 0 && neighbours(c.r, c.c, p.0, p.1).iter().filter(|q| q.0 == p.0 || q.1 == p.1).all(|q| gain(g, *q).unwrap_or(0) <= own)
    };
    for (k, nums) in fl {
        for n in nums {
            let n = *n as usize;
            let at: Vec<usize> = (1..ids.len()).filter(|i| ids[*i] >= *k && step(ids[*i])).take(n).collect();
            let (first, last) = (*at.first().unwrap_or(&0), *at.last().unwrap_or(&0));
            let fit = n >= 5 && at.len() == n && ids[first] == *k && flag(*k) && chord(ids[last]);
            let fit = fit && at.iter().all(|i| flag(ids[*i]) || good(ids[*i])) && !(first + 1..last).any(|i| other(i));
            // the last step may lead away from the spot once it is one
            let fit = fit && !(at[1]..=last).any(|i| far(i) && !(i == last && n > 5));
            if !ctx.check(fit, "textbook spot:unfounded", || format!("event {k} does not begin {n} steps of flags and good chords close together: {}", inp())) {
                return false;
            }
            ctx.ev("textbook_spots", 1);
        }
    }
    // between two other clicks: a run without a flaw is reported at its first flag
    let ends: Vec<usize> = std::iter::once(0).chain((1..ids.len()).filter(|i| other(*i))).collect();
    for w in ends.windows(2) {
        let Some(first) = (w[0] + 1..w[1]).find(|i| flag(ids[*i])) else { continue };
        let Some(last) = (first..w[1]).rev().find(|i| chord(ids[*i])) else { continue };
        if (first + 1..w[1]).any(far) || (first..=last).any(|i| chord(ids[i]) && !good(ids[i])) {
            ctx.ev("flawed_runs", 1);
            continue;
        }
        let n = (first..=last).filter(|i| step(ids[*i])).count();
        let got: Vec<f64> = fl.iter().filter(|x| x.0 > ids[w[0]] && x.0 < ids[w[1]]).flat_map(|x| x.1.clone()).collect();
        let at = fl.iter().any(|x| x.0 == ids[first]);
        let fit = if n >= 5 { at && got == vec![n as f64] } else { got.is_empty() };
        ctx.ev(if n >= 5 { "flawless_spots" } else { "short_runs" }, 1);
        if !ctx.check(fit, "textbook spot:run", || format!("events {}..{} are {n} flags and good chords close together, reported {fl:?}: {}", ids[first], ids[last], inp())) {
            return false;
        }
    }
    true
}

fn review(ctx: &mut Ctx) {
    run(ctx, false)
}
/// only the textbook spots, no need to know the probabilities
fn local(ctx: &mut Ctx) {
    run(ctx, true)
}
fn run(ctx: &mut Ctx, local: bool) {
    let (r, c) = if local { *ctx.rng.pick(&[(8, 8), (9, 9), (16, 16), (16, 30), (12, 9)]) } else { *ctx.rng.pick(&[(8, 8), (6, 10), (5, 12), (9, 9), (3, 14), (4, 4)]) };
    let n = r * c * ctx.rng.range(8, 26) / 100;
    let board = random_board(&mut ctx.rng, r, c, n.max(1));
    let n = n.max(1);
    let pix = *ctx.rng.pick(&[16usize, 16, 20, 30, 7]);
    let mut p = player(&mut ctx.rng);
    if local || ctx.rng.chance(0.4) {
        p.local = *ctx.rng.pick(&[0.7, 0.9, 0.97]);
        p.wild = 0.0;
    }
    let steps = *ctx.rng.pick(&[30, 80, 200, 400]);
    let plan = Plan { pix, max_steps: steps, tick: 20, player: p, pf: 0, unfinished: ctx.rng.chance(0.2) };
    let (mut evs, _) = script(&mut ctx.rng, &board, plan);
    if evs.is_empty() {
        return;
    }
    // wandering between clicks
    for _ in 0..ctx.rng.below(8) {
        let k = if ctx.rng.chance(0.1) { 1 } else { ctx.rng.range(1, evs.len()) };
        let t = evs[k - 1].t;
        let e = Ev { e: "mv", t, y: ctx.rng.below(r * pix), x: ctx.rng.below(c * pix) };
        evs.insert(k, e);
    }
    let Some((mut v, rp)) = parsed(ctx, &board, pix, &evs, 1000) else { return };
    let inp = || format!("pixel size {pix} {} on {}", evs.iter().map(|e| format!("{}({},{})", e.e, e.y, e.x)).collect::<Vec<_>>().join(" "), fmt_board(&board));
    let mut case = Case { evs: &evs, rp: &rp, pix, r, c, known: BTreeMap::new() };
    for (k, s) in rp.snaps.iter().enumerate() {
        if !local && s.level >= 1 && !case.known.contains_key(&s.prior) && (s.level >= 2 || evs[k].e == "rc") {
            match know(&rp.boards[s.prior], n) {
                Some(x) => {
                    case.known.insert(s.prior, x);
                }
                None => return ctx.ev("skipped_large", 1),
            }
        }
    }
    let all = ["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local"];
    let mut which: Vec<&str> = if ctx.rng.chance(0.6) { all.to_vec() } else { all.iter().filter(|_| ctx.rng.chance(0.4)).cloned().collect() };
    ctx.rng.shuffle(&mut which);
    if local {
        which = vec!["super_fl_local"];
    }
    // all at once, or one after the other
    let split = ctx.rng.chance(0.3);
    let Some(_) = ctx.guard("analyse_for_features", || format!("{which:?} {}", inp()), || {
        if split {
            for w in &which {
                v.analyse_for_features(vec![*w]);
            }
        } else {
            v.analyse_for_features(which.clone())
        }
    }) else {
        return;
    };
    let mut got = notes(&v);
    let mut either = vec![];
    let want = expected(&case, &which, &mut either);
    let fl: Vec<_> = got.iter().filter(|x| x.0 .1 == FL).map(|(k, x)| (k.0, x.clone())).collect();
    for (k, _) in &fl {
        got.remove(&(*k, FL.to_string()));
    }
    if !ctx.check(fl.is_empty() || which.contains(&"super_fl_local"), "textbook spot:unasked", inp) || which.contains(&"super_fl_local") && !spots(ctx, &case, &fl, &inp) {
        return;
    }
    got.retain(|k, _| !either.contains(k));
    let mut want = want;
    want.retain(|k, _| !either.contains(k));
    for (k, x) in &want {
        let name = [(HIGH, "dangerous_guesses"), (JUMP_L, "hard_openings"), (JUMP_R, "hard_flags"), (NEEDLESS, "needless_guesses"), (BENT, "bent_traces"), (CURVED, "curved_traces"), (VISION, "vision_transfers"), ("luck", "luck_lines")].iter().find(|q| q.0 == k.1).map(|q| q.1).unwrap_or("other");
        ctx.ev(name, 1);
        if k.1 == "luck" && x.len() > 1 {
            ctx.ev("luck_lines_with_guesses", 1);
        }
    }
    let keys = |n: &Notes| n.keys().cloned().collect::<Vec<_>>();
    if keys(&got) != keys(&want) {
        let (g, w) = (keys(&got), keys(&want));
        let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).collect();
        let missing: Vec<_> = w.iter().filter(|x| !g.contains(x)).collect();
        let sig = extra.first().map(|x| format!("unfounded:{}", x.1)).unwrap_or_else(|| format!("missing:{}", missing[0].1));
        return ctx.fail(sig, format!("reviews {which:?} (one by one: {split}): unfounded {extra:?} missing {missing:?}: {}", inp()));
    }
    for (k, x) in &got {
        let w = &want[k];
        let tol = |a: f64, b: f64| if k.1.contains('%') { (a - b).abs() <= 0.5001 + 1e-9 * b || a > 1e90 && b > 1e90 } else { (a - b).abs() <= 0.000501 };
        let ok = x.len() == w.len() && x.iter().zip(w).all(|(a, b)| tol(*a, *b)) && (k.1 != "luck" || x.len() == 1 || (x[x.len() - 1] - w[w.len() - 1]).abs() < 1e-6);
        if !ctx.check(ok, &format!("numbers:{}", k.1), || format!("event {} {}: {x:?} instead of {w:?}: {}", k.0, k.1, inp())) {
            return;
        }
    }
    if got.len() > 1 || local && !fl.is_empty() {
        ctx.seen(mix(hash_board(&board), mix(evs.len() as u64, got.len() as u64)));
    }
    ctx.ev("recordings", 1);
    let _ = (case.r, case.c);
    ctx.sample(|| format!("{which:?} {got:?}: {}", inp()));
}

fn main() {
    engine::main(Spec {
        id: "C26",
        rule: "analysed recordings of small boards played well and badly, reviewed by any choice of methods in any order; non-trivial with more than one comment; distinct by recording",
        stages: vec![Stage { name: "review", quick: 9000, thorough: 300000, f: review }, Stage { name: "local", quick: 8000, thorough: 300000, f: local }],
        finish: None,
        assumptions: &["positions whose enumeration is large are skipped (cost)", "the basic level is what a fresh position object reports (C03, C06)", "values at a threshold within rounding may go either way"],
        must_see: &["dangerous_guesses", "hard_openings", "hard_flags", "needless_guesses", "bent_traces", "curved_traces", "vision_transfers", "luck_lines_with_guesses", "textbook_spots", "flawless_spots", "short_runs", "flawed_runs", "recordings"],
    })
}
