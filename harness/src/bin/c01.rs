//! C01: mine layout engines.
use ms_toollib::{laymine, laymine_op};
use oracle::stat::*;
use oracle::*;

fn window(r: usize, c: usize, x: usize, y: usize) -> Vec<(usize, usize)> {
    let mut v = neighbours(r, c, x, y);
    v.push((x, y));
    v
}

fn dims(rng: &mut Rng) -> (usize, usize) {
    match rng.below(6) {
        0 => (rng.range(1, 4), rng.range(1, 4)),
        1 => (1, rng.range(1, 40)),
        2 => (rng.range(1, 40), 1),
        3 => *rng.pick(&[(8, 8), (16, 16), (16, 30), (9, 9), (24, 30), (30, 16), (2, 2), (2, 30)]),
        _ => (rng.range(2, 26), rng.range(2, 26)),
    }
}

fn start(rng: &mut Rng, r: usize, c: usize) -> (usize, usize) {
    let x = *rng.pick(&[0, r - 1, rng.clone().below(r)]);
    let y = *rng.pick(&[0, c - 1, rng.clone().below(c)]);
    if rng.chance(0.5) {
        (x, y)
    } else {
        (rng.below(r), rng.below(c))
    }
}

fn count(rng: &mut Rng, max: usize) -> usize {
    match rng.below(5) {
        0 => 0,
        1 => max,
        2 => max.min(1),
        3 => max - max.min(rng.clone().below(3)),
        _ => rng.below(max + 1),
    }
}

fn shape(ctx: &mut Ctx, b: &B, r: usize, c: usize, n: usize, what: &str, inp: &str) {
    ctx.ev("layouts_checked", 1);
    ctx.ev("cells_checked", (r * c) as u64);
    ctx.check(b.len() == r && b.iter().all(|x| x.len() == c), &format!("{what}:dims"), || format!("{inp}: wrong size {}", fmt_board(b)));
    if b.len() != r || b.iter().any(|x| x.len() != c) {
        return;
    }
    ctx.check(mine_count(b) == n, &format!("{what}:count"), || format!("{inp}: {} mines in {}", mine_count(b), fmt_board(b)));
    ctx.check(consistent(b), &format!("{what}:numbers"), || format!("{inp}: a number differs from its adjacent mines in {}", fmt_board(b)));
}

fn standard(ctx: &mut Ctx) {
    let (r, c) = dims(&mut ctx.rng);
    let (x, y) = start(&mut ctx.rng, r, c);
    let n = count(&mut ctx.rng, r * c - 1);
    let inp = format!("laymine({r},{c},{n},{x},{y})");
    if let Some(b) = ctx.guard("laymine", || inp.clone(), || laymine(r, c, n, x, y)) {
        shape(ctx, &b, r, c, n, "laymine", &inp);
        if b.len() == r && b[0].len() == c {
            ctx.check(b[x][y] != -1, "laymine:start", || format!("{inp}: mine at the start in {}", fmt_board(&b)));
        }
        ctx.sample(|| format!("{inp} -> {}", fmt_board(&b)));
        if n > 0 && n < r * c - 1 {
            ctx.seen(mix(hash_board(&b), (x * c + y) as u64));
        }
    }
}

fn opening(ctx: &mut Ctx) {
    let (r, c) = dims(&mut ctx.rng);
    let (x, y) = start(&mut ctx.rng, r, c);
    let w = window(r, c, x, y);
    let n = count(&mut ctx.rng, r * c - w.len());
    let inp = format!("laymine_op({r},{c},{n},{x},{y})");
    if let Some(b) = ctx.guard("laymine_op", || inp.clone(), || laymine_op(r, c, n, x, y)) {
        shape(ctx, &b, r, c, n, "laymine_op", &inp);
        if b.len() == r && b[0].len() == c {
            ctx.check(b[x][y] == 0 && w.iter().all(|p| b[p.0][p.1] != -1), "laymine_op:start", || format!("{inp}: the start is not an opening in {}", fmt_board(&b)));
        }
        ctx.sample(|| format!("{inp} -> {}", fmt_board(&b)));
        if n > 0 && n < r * c - w.len() {
            ctx.seen(mix(hash_board(&b), (x * c + y) as u64 | 1 << 40));
        }
    }
}

/// every layout of a small configuration equally likely
fn uniform_small(ctx: &mut Ctx) {
    let op = ctx.rng.chance(0.5);
    loop {
        let (r, c) = (ctx.rng.range(1, 6), ctx.rng.range(1, 6));
        let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
        let free: Vec<(usize, usize)> = {
            let w = if op { window(r, c, x, y) } else { vec![(x, y)] };
            (0..r * c).map(|k| (k / c, k % c)).filter(|p| !w.contains(p)).collect()
        };
        if free.len() < 2 || free.len() > 12 || (op && (r < 2 || c < 2) && false) {
            continue;
        }
        let n = ctx.rng.range(1, free.len() - 1);
        let l = binom(free.len(), n);
        if l > 130.0 {
            continue;
        }
        let subs = subsets(free.len(), n);
        let draws = 60 * subs.len();
        let mut obs = vec![0.0; subs.len()];
        let inp = format!("{}({r},{c},{n},{x},{y})", if op { "laymine_op" } else { "laymine" });
        for _ in 0..draws {
            let b = if op { laymine_op(r, c, n, x, y) } else { laymine(r, c, n, x, y) };
            let mut bits = 0u32;
            for (k, p) in free.iter().enumerate() {
                if b[p.0][p.1] == -1 {
                    bits |= 1 << k;
                }
            }
            match subs.iter().position(|s| *s == bits) {
                Some(k) => obs[k] += 1.0,
                None => {
                    ctx.fail("support", format!("{inp}: layout outside the allowed set: {}", fmt_board(&b)));
                    return;
                }
            }
        }
        ctx.ev("uniformity_draws", draws as u64);
        ctx.ev("distribution_tests", 1);
        let exp = vec![60.0; subs.len()];
        let x2 = chi2(&obs, &exp);
        let z = chi2_z(x2, (subs.len() - 1).max(1) as f64);
        ctx.add("z", 0, z);
        ctx.add("z", 1, 1.0);
        ctx.check(z < Z_LIMIT, "uniform:layouts", || format!("{inp}: {} layouts drawn {draws} times are not equally likely: chi2 {x2:.1}, z {z:.1}, counts {obs:?}", subs.len()));
        ctx.seen(hash_bytes(inp.as_bytes()));
        ctx.sample(|| format!("{inp}: {} layouts, {draws} draws, z {z:.2}, counts {:?}", subs.len(), &obs[..obs.len().min(12)]));
        return;
    }
}

/// marginal and pairwise mine frequencies of a full-size configuration
fn uniform_marginal(ctx: &mut Ctx) {
    let op = ctx.rng.chance(0.5);
    let (r, c) = match ctx.rng.below(3) {
        0 => (8, 8),
        1 => (ctx.rng.range(4, 16), ctx.rng.range(4, 16)),
        _ => (ctx.rng.range(5, 12), ctx.rng.range(13, 24)),
    };
    let (x, y) = start(&mut ctx.rng, r, c);
    let w = if op { window(r, c, x, y) } else { vec![(x, y)] };
    let free: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| !w.contains(p)).collect();
    let f = free.len();
    let d = 0.1 + 0.5 * ctx.rng.f64();
    let n = ((f as f64 * d) as usize).clamp(1, f - 1);
    let draws = 1500;
    let mut single = vec![0.0; f];
    // pairs at several distances in scan order, both ways round
    let lags: Vec<usize> = vec![1, c.min(f / 2), c.saturating_sub(1).max(1).min(f / 2), r.min(f / 2), f / 2];
    let mut pair = vec![0.0; lags.len()];
    let mut pair_n = vec![0.0; lags.len()];
    let inp = format!("{}({r},{c},{n},{x},{y})", if op { "laymine_op" } else { "laymine" });
    for _ in 0..draws {
        let b = if op { laymine_op(r, c, n, x, y) } else { laymine(r, c, n, x, y) };
        let v: Vec<bool> = free.iter().map(|p| b[p.0][p.1] == -1).collect();
        for k in 0..f {
            if v[k] {
                single[k] += 1.0;
            }
        }
        for (q, l) in lags.iter().enumerate() {
            for k in 0..f - l {
                pair_n[q] += 1.0;
                if v[k] && v[k + l] {
                    pair[q] += 1.0;
                }
            }
        }
    }
    ctx.ev("uniformity_draws", draws);
    ctx.ev("distribution_tests", 1 + lags.len() as u64);
    let p = n as f64 / f as f64;
    let e = draws as f64 * p;
    // hypergeometric marginals: sum (o-e)^2 / (draws p (1-p)) * (f-1)/f is chi-square with f-1 degrees
    let x2: f64 = single.iter().map(|o| (o - e) * (o - e) / (draws as f64 * p * (1.0 - p))).sum::<f64>() * (f - 1) as f64 / f as f64;
    let z = chi2_z(x2, (f - 1) as f64);
    ctx.check(z < Z_LIMIT, "uniform:cells", || format!("{inp}: cells are not equally likely over {draws} draws: z {z:.1}; frequencies {single:?}"));
    let p2 = n as f64 * (n as f64 - 1.0) / (f as f64 * (f as f64 - 1.0));
    for q in 0..lags.len() {
        let e = pair_n[q] * p2;
        // pairs within one draw are weakly (negatively) dependent; a generous bound on the deviation
        let sd = (pair_n[q] * p2 * (1.0 - p2)).sqrt() * 2.5 + 1.0;
        let z = (pair[q] - e) / sd;
        ctx.check(z.abs() < Z_LIMIT, "uniform:pairs", || format!("{inp}: pairs at distance {} are mines together {} times, expected {e:.0}", lags[q], pair[q]));
    }
    ctx.seen(hash_bytes(inp.as_bytes()));
    ctx.sample(|| format!("{inp}: {draws} draws, marginal z {z:.2}"));
}

fn main() {
    oracle::engine::main(Spec {
        id: "C01",
        rule: "random and extreme (1-wide, corner/edge start, zero/maximal mine count) parameters; a case is non-trivial when the mine count is neither 0 nor maximal; distribution cases are distinct by parameters",
        stages: vec![
            Stage { name: "standard", quick: 30000, thorough: 600000, f: standard },
            Stage { name: "opening", quick: 30000, thorough: 600000, f: opening },
            Stage { name: "uniform_small", quick: 1200, thorough: 30000, f: uniform_small },
            Stage { name: "uniform_marginal", quick: 250, thorough: 6000, f: uniform_marginal },
        ],
        finish: Some(|agg, ctx| {
            if let Some(z) = agg.sums.get("z") {
                let mean = z[0] / z[1];
                ctx.check(mean.abs() < 8.0 / z[1].sqrt() + 0.05, "uniform:mean", || format!("the mean z score of {} uniformity tests is {mean:.3}", z[1]));
            }
        }),
        assumptions: &["randomness of the operating system seeded generator is sampled, not controlled; rejection thresholds are z > 7"],
        must_see: &["layouts_checked", "uniformity_draws", "distribution_tests"],
    })
}
