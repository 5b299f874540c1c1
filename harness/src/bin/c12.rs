//! C12: no-guess generators: a success is really clearable without guessing, and successes are not lost.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;

const CAP: usize = 6000;

struct Layout<'a> {
    who: &'a str,
    r: usize,
    c: usize,
    n: usize,
    x: usize,
    y: usize,
}

fn validate(ctx: &mut Ctx, l: &Layout, b: &B, flag: bool, must_open: bool) {
    let d = || format!("{} {}x{} mines {} start ({},{}) flag {flag}: {}", l.who, l.r, l.c, l.n, l.x, l.y, fmt_board(b));
    let who = l.who;
    if b.len() != l.r || b.iter().any(|x| x.len() != l.c) {
        return ctx.fail(format!("{who}:size"), d());
    }
    ctx.check(mine_count(b) == l.n, &format!("{who}:mines"), || format!("{} mines instead of {}: {}", mine_count(b), l.n, d()));
    ctx.check(consistent(b), &format!("{who}:numbers"), || format!("numbers do not match the mines: {}", d()));
    ctx.check(b[l.x][l.y] >= 0, &format!("{who}:start"), || format!("mine at the start: {}", d()));
    if must_open {
        ctx.check(b[l.x][l.y] == 0, &format!("{who}:opening"), || format!("no opening at the start: {}", d()));
    }
    ctx.ev("layouts", 1);
    if !ctx.fails.is_empty() {
        return;
    }
    if flag {
        ctx.ev("successes", 1);
        match walk(b, (l.x, l.y), CAP) {
            None => ctx.ev("skipped_large", 1),
            Some(w) => {
                ctx.check(w.solved, &format!("{who}:guess"), || format!("called guess-free but needs a guess: {}", d()));
                ctx.ev("successes_replayed", 1);
                if w.deep_steps > 0 {
                    ctx.seen(hash_board(b));
                }
            }
        }
    } else {
        ctx.ev("reported_failures", 1);
    }
    ctx.sample(d);
}

fn size(ctx: &mut Ctx) -> (usize, usize) {
    match ctx.rng.below(4) {
        0 => (8, 8),
        1 => (ctx.rng.range(5, 9), ctx.rng.range(5, 9)),
        2 => (ctx.rng.range(5, 12), ctx.rng.range(5, 14)),
        _ => (16, 16),
    }
}
fn start(ctx: &mut Ctx, r: usize, c: usize) -> (usize, usize) {
    let e = |ctx: &mut Ctx, n: usize| match ctx.rng.below(4) {
        0 => 0,
        1 => n - 1,
        _ => ctx.rng.below(n),
    };
    (e(ctx, r), e(ctx, c))
}

fn single(ctx: &mut Ctx) {
    let (r, c) = size(ctx);
    let (x, y) = start(ctx, r, c);
    let n = r * c * ctx.rng.range(2, 18) / 100;
    let max = if ctx.rng.chance(0.05) { 0 } else { ctx.rng.range(1, 40) };
    let l = Layout { who: "single", r, c, n, x, y };
    if let Some((b, f)) = ctx.guard("laymine_solvable", || format!("{r} {c} {n} {x} {y} {max}"), || laymine_solvable(r, c, n, x, y, max)) {
        validate(ctx, &l, &b, f, true);
        ctx.check(!(f && max == 0), "single:zero", || "success after no attempt".into());
    }
}
fn threads(ctx: &mut Ctx) {
    let (r, c) = size(ctx);
    let (x, y) = start(ctx, r, c);
    let n = r * c * ctx.rng.range(2, 20) / 100;
    let max = if ctx.rng.chance(0.05) { 0 } else { ctx.rng.range(1, 200) };
    let l = Layout { who: "thread", r, c, n, x, y };
    if let Some((b, f)) = ctx.guard("laymine_solvable_thread", || format!("{r} {c} {n} {x} {y} {max}"), || laymine_solvable_thread(r, c, n, x, y, max)) {
        validate(ctx, &l, &b, f, true);
        ctx.check(!(f && max == 0), "thread:zero", || "success after no attempt".into());
    }
}
fn adjust(ctx: &mut Ctx) {
    let (r, c) = match ctx.rng.below(4) {
        0 => (8, 8),
        1 => (ctx.rng.range(5, 9), ctx.rng.range(5, 9)),
        2 => (ctx.rng.range(5, 11), ctx.rng.range(5, 11)),
        _ => (ctx.rng.range(5, 7), ctx.rng.range(8, 14)),
    };
    let (x, y) = start(ctx, r, c);
    let area = r * c;
    let op = (r.min(x + 2) - x.max(1) + 1) * (c.min(y + 2) - y.max(1) + 1);
    let n = match ctx.rng.below(20) {
        0 => area - op,
        1 => area - 1,
        2 => ctx.rng.range(area - op + 1, area - 1),
        3 => 1,
        _ => area * ctx.rng.range(3, 36) / 100,
    };
    let n = n.min(area - 1);
    let l = Layout { who: "adjust", r, c, n, x, y };
    if let Some((b, f)) = ctx.guard("laymine_solvable_adjust", || format!("{r} {c} {n} {x} {y}"), || laymine_solvable_adjust(r, c, n, x, y)) {
        validate(ctx, &l, &b, f, n <= area - op);
        ctx.ev("adjusted", 1);
    }
}
/// how often each generator succeeds with K attempts, against the share of solvable layouts
const RATE: [(usize, usize, usize, usize, usize); 3] = [(8, 8, 12, 3, 4), (9, 7, 14, 0, 3), (8, 8, 18, 4, 3)];
const RATE_K: [usize; 7] = [1, 2, 5, 8, 12, 19, 40];
fn rate(ctx: &mut Ctx) {
    for (w, (r, c, n, x, y)) in RATE.iter().cloned().enumerate() {
        let b = laymine_op(r, c, n, x, y);
        ctx.add(&format!("p{w}"), is_solvable(&b, x, y) as usize, 1.0);
        let k = *ctx.rng.pick(&RATE_K);
        let (_, f) = laymine_solvable_thread(r, c, n, x, y, k);
        ctx.add(&format!("thread{w}:{k}"), f as usize, 1.0);
        let (_, f) = laymine_solvable(r, c, n, x, y, k);
        ctx.add(&format!("single{w}:{k}"), f as usize, 1.0);
        ctx.ev("rate_samples", 1);
    }
}

/// the adjusting generator is documented to succeed very likely: it does, far beyond the densities at which random layouts are solvable
const LIKELY: [(usize, usize, usize, usize, usize); 6] = [(9, 9, 32, 0, 0), (8, 8, 26, 0, 4), (6, 7, 15, 5, 6), (16, 16, 60, 8, 8), (16, 30, 99, 3, 20), (8, 8, 20, 3, 3)];
fn likely(ctx: &mut Ctx) {
    let w = ctx.rng.below(LIKELY.len());
    let (r, c, n, x, y) = LIKELY[w];
    let (b, f) = laymine_solvable_adjust(r, c, n, x, y);
    ctx.add(&format!("likely{w}"), f as usize, 1.0);
    ctx.seen(hash_board(&b));
    ctx.ev("adjusted_for_the_rate", 1);
}

fn finish(a: &Agg, ctx: &mut Ctx) {
    for w in 0..LIKELY.len() {
        let v = a.sums.get(&format!("likely{w}")).cloned().unwrap_or_default();
        let (f, t) = (v.get(0).cloned().unwrap_or(0.0), v.get(1).cloned().unwrap_or(0.0));
        ctx.sample(|| format!("the adjusting generator succeeds {t} times of {} on {:?}", f + t, LIKELY[w]));
        ctx.check(f <= 5.0 + 0.1 * (f + t), "adjust:lost", || format!("the adjusting generator succeeds in only {t} of {} calls on {:?}", f + t, LIKELY[w]));
    }
    let g = |k: &str| {
        let v = a.sums.get(k).cloned().unwrap_or_default();
        (v.get(0).cloned().unwrap_or(0.0), v.get(1).cloned().unwrap_or(0.0))
    };
    for w in 0..RATE.len() {
        let (p0, p1) = g(&format!("p{w}"));
        let n = p0 + p1;
        if n < 300.0 {
            return;
        }
        let p = p1 / n;
        let q = 1.0 - p;
        for who in ["thread", "single"] {
            for k in RATE_K {
                let want = 1.0 - q.powi(k as i32);
                // delta method: spread of the prediction plus spread of the observation
                let dp = k as f64 * q.powi(k as i32 - 1);
                let (f, t) = g(&format!("{who}{w}:{k}"));
                let m = f + t;
                if m < 60.0 {
                    continue;
                }
                let got = t / m;
                // never more certain than a handful of counts allows
                let sd = (dp * dp * p * q / n + want * (1.0 - want) / m).sqrt().max(1.0 / m);
                let z = (got - want) / sd;
                ctx.sample(|| format!("share of solvable layouts {p:.4}; {who} succeeds with {k} attempts {got:.4}, expected {want:.4}, {z:.1} standard deviations"));
                ctx.check(z > -7.5, &format!("{who}:lost"), || format!("{who}: {got:.4} of the calls with {k} attempts on {:?} succeed; {p:.4} of the layouts are solvable, so {want:.4} should ({z:.1} standard deviations)", RATE[w]));
                ctx.check(z < 7.5, &format!("{who}:more"), || format!("{who}: {got:.4} of the calls with {k} attempts on {:?} succeed, expected {want:.4} ({z:.1} standard deviations)", RATE[w]));
            }
        }
    }
}

fn main() {
    engine::main(Spec {
        id: "C12",
        rule: "generator calls over sizes 5x5 to 16x16, start cells in corners, edges and inside, densities up to full; non-trivial when the replay of a success needs more than single numbers; distinct by layout",
        stages: vec![
            Stage { name: "single", quick: 6000, thorough: 200000, f: single },
            Stage { name: "threads", quick: 1500, thorough: 40000, f: threads },
            Stage { name: "adjust", quick: 8000, thorough: 200000, f: adjust },
            Stage { name: "likely", quick: 400, thorough: 8000, f: likely },
            Stage { name: "rate", quick: 2500, thorough: 30000, f: rate },
        ],
        finish: Some(finish),
        assumptions: &["boards larger than 4x4", "success rates are compared with the share of solvable layouts at 7.5 standard deviations"],
        must_see: &["successes_replayed", "reported_failures", "adjusted", "adjusted_for_the_rate", "rate_samples"],
    })
}
