//! C08: mine probabilities are exact.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;
use std::collections::{BTreeSet, HashMap};

const CAP: usize = 20000;
const LIMIT: usize = 55;

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 || (a.is_nan() && b.is_nan())
}

fn one(ctx: &mut Ctx, g: &B, arg: f64, total: usize, m: &Model, po: &Posterior) {
    let inp = || format!("mines {arg} on {}", fmt_board(g));
    let Some(r) = ctx.guard("cal_possibility", inp, || cal_possibility(g, arg)) else { return };
    let (p, inner, range, len) = match r {
        Ok(x) => x,
        Err(e) => return ctx.fail("error", format!("error {e} although {total} mines are possible: {}", inp())),
    };
    ctx.ev("positions", 1);
    // every border cell exactly once
    let mut got: HashMap<(usize, usize), f64> = HashMap::new();
    for (q, v) in &p {
        if got.insert(*q, *v).is_some() {
            ctx.fail("twice", format!("{q:?} listed twice: {}", inp()));
        }
    }
    let a: BTreeSet<_> = got.keys().collect();
    let b: BTreeSet<_> = po.frontier.keys().collect();
    ctx.check(a == b, "cells", || format!("border cells {a:?} instead of {b:?}: {}", inp()));
    for (q, v) in &po.frontier {
        let g0 = got.get(q).cloned().unwrap_or(f64::NAN);
        ctx.ev("probabilities", 1);
        if *v > 1e-12 && *v < 1.0 - 1e-12 {
            ctx.ev("uncertain_cells", 1);
        }
        if !near(g0, *v) {
            ctx.fail("border", format!("{q:?} has probability {g0}, exactly {v}: {}", inp()));
        }
    }
    if po.inner_cells > 0 {
        ctx.ev("inner_probabilities", 1);
        ctx.check(near(inner, po.inner), "inner", || format!("inner probability {inner}, exactly {}: {}", po.inner, inp()));
    } else {
        ctx.check(inner.is_nan(), "inner:nan", || format!("inner probability {inner} without inner cells (documented NaN): {}", inp()));
    }
    ctx.check(range == [po.min_mines, total, po.max_mines], "range", || format!("mine range {range:?} instead of {:?}: {}", [po.min_mines, total, po.max_mines], inp()));
    let longest = m.comps.iter().map(|c| c.cells.len()).max().unwrap_or(0);
    ctx.check(len == longest, "length", || format!("enumeration length {len} instead of {longest}: {}", inp()));
    if !po.oversized.is_empty() {
        ctx.ev("oversized_segments", 1);
    }
    // on the board
    let Some(r) = ctx.guard("cal_possibility_onboard", inp, || cal_possibility_onboard(g, arg)) else { return };
    match r {
        Err(e) => ctx.fail("onboard:error", format!("error {e}: {}", inp())),
        Ok((pb, rb)) => {
            ctx.check(rb == [range[0], range[1], range[2]], "onboard:range", || format!("range {rb:?} instead of {range:?}: {}", inp()));
            let mut sum = 0.0;
            for i in 0..g.len() {
                for j in 0..g[0].len() {
                    let want = match g[i][j] {
                        11 => 1.0,
                        10 => po.frontier.get(&(i, j)).cloned().unwrap_or(po.inner),
                        _ => 0.0,
                    };
                    sum += pb[i][j];
                    if !near(pb[i][j], want) {
                        ctx.fail("onboard", format!("{:?} has probability {}, exactly {want}: {}", (i, j), pb[i][j], inp()));
                    }
                }
            }
            ctx.check((sum - total as f64).abs() < 1e-6, "onboard:sum", || format!("probabilities add up to {sum}, mines {total}: {}", inp()));
        }
    }
    ctx.sample(|| format!("inner {inner} range {range:?} length {len}: {}", inp()));
    if po.frontier.values().any(|v| *v > 1e-12 && *v < 1.0 - 1e-12) {
        ctx.seen(mix(hash_board(g), arg.to_bits()));
    }
}

fn check(ctx: &mut Ctx, g: &B, mines: usize) {
    let m = model(g);
    if !affordable(&m, LIMIT, CAP) {
        return ctx.ev("skipped_large", 1);
    }
    check_model(ctx, g, mines, m)
}
fn check_model(ctx: &mut Ctx, g: &B, mines: usize, m: Model) {
    // the true number of mines, other feasible numbers, the extremes
    let Some(base) = posterior(g, mines, LIMIT, CAP) else { return ctx.ev("skipped_large", 1) };
    let Some(base) = base else { return ctx.fail("harness", "illegal board") };
    let mut totals = vec![mines];
    for _ in 0..2 {
        totals.push(match ctx.rng.below(4) {
            0 => base.min_mines,
            1 => base.max_mines,
            _ => ctx.rng.range(base.min_mines, base.max_mines),
        });
    }
    totals.sort();
    totals.dedup();
    let with_count: Vec<usize> = totals;
    for t in with_count {
        if t == 0 {
            continue; // an argument below 1 is a density
        }
        if let Some(Some(po)) = posterior(g, t, LIMIT, CAP) {
            one(ctx, g, t as f64, t, &m, &po);
            ctx.ev("by_count", 1);
        }
        if !ctx.fails.is_empty() {
            return;
        }
    }
    // density: the number of mines is that share of the board, moved into the possible range
    let d = match ctx.rng.below(5) {
        0 => 0.0,
        1 => 0.9999,
        2 => mines as f64 / (g.len() * g[0].len()) as f64,
        _ => ctx.rng.f64(),
    };
    if d < 1.0 {
        let t = ((g.len() * g[0].len()) as f64 * d) as usize;
        let t = t.max(base.min_mines).min(base.max_mines);
        if let Some(Some(po)) = posterior(g, t, LIMIT, CAP) {
            one(ctx, g, d, t, &m, &po);
            ctx.ev("by_density", 1);
        }
    }
}

fn opened(ctx: &mut Ctx) {
    let marks = ctx.rng.chance(0.5);
    let g = gen_visible(&mut ctx.rng, 12, 14, marks);
    check(ctx, &g.game, g.mines);
}
/// the documented use: mark first, then compute
fn marked(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[(16usize, 16usize, 40usize), (16, 30, 99), (8, 8, 10), (24, 20, 80)]);
    let b = random_board(&mut ctx.rng, n.0, n.1, n.2);
    let mut g = gen_visible_from(&mut ctx.rng, b, false);
    let r = ctx.guard("mark_board", || String::new(), || mark_board(&mut g.game).is_ok());
    if r == Some(true) {
        check(ctx, &g.game, g.mines);
    }
}
/// a segment beyond the documented limit counts as ordinary unknown ground
fn oversized(ctx: &mut Ctx) {
    let c = ctx.rng.range(58, 80);
    let r = ctx.rng.range(3, 5);
    let n = r * c * ctx.rng.range(15, 30) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let mut g = vec![vec![10; c]; r];
    // open the safe cells of one line, so that its numbers form long segments
    let line = ctx.rng.below(r);
    let gap = if ctx.rng.chance(0.5) { c } else { ctx.rng.range(5, c - 1) };
    for j in 0..c {
        if b[line][j] > 0 && j != gap {
            g[line][j] = b[line][j];
        }
    }
    check(ctx, &g, n);
}
/// one segment around the documented limit of 55 cells: a long wall above a row of numbers without gaps
fn long(ctx: &mut Ctx) {
    let len = ctx.rng.range(51, 58);
    let right = ctx.rng.below(3);
    let r = ctx.rng.range(2, 4);
    let c = len + right;
    let mut mine = vec![vec![false; c]; r];
    let mut j = ctx.rng.below(2);
    while j < c {
        mine[0][j] = true;
        j += ctx.rng.range(1, 3);
    }
    for i in 2..r {
        for j in 0..c {
            // the row below the numbers belongs to the segment: all mines, all marked
            mine[i][j] = true;
        }
    }
    let mut g = vec![vec![10; c]; r];
    for i in 2..r {
        g[i] = vec![11; c];
    }
    let to = if right == 0 { c } else { len - 1 };
    for j in 0..to {
        let mut k = 0;
        for m in 0..r.min(3) {
            for n in j.saturating_sub(1)..=(j + 1).min(c - 1) {
                k += (mine[m][n]) as i32;
            }
        }
        g[1][j] = k;
    }
    let n = mine.iter().flatten().filter(|x| **x).count();
    let turn = ctx.rng.chance(0.5);
    let g = if turn { (0..c).map(|j| (0..r).map(|i| g[i][j]).collect()).collect() } else { g };
    let longest = model(&g).comps.iter().map(|c| c.cells.len()).max().unwrap_or(0);
    if longest == LIMIT {
        ctx.ev("segments_at_the_limit", 1);
    }
    // a chain: cheap for an enumeration along the wall
    let m = model(&g);
    check_model(ctx, &g, n, m);
}
/// many small segments: the number of combinations of their mine counts is astronomic
fn islands(ctx: &mut Ctx) {
    let v = gen_islands(&mut ctx.rng);
    let n = model(&v.game).comps.len();
    if n >= 12 {
        ctx.ev("boards_with_12_or_more_segments", 1);
    }
    check(ctx, &v.game, v.mines);
}
/// against all layouts, one by one
fn brute(ctx: &mut Ctx) {
    let mut g = gen_visible(&mut ctx.rng, 5, 5, true);
    let mut k = 0;
    while g.game.iter().flatten().filter(|x| **x == 10).count() > 13 || g.mines == 0 {
        g = gen_visible(&mut ctx.rng, 5, 5, true);
        k += 1;
        if k > 50 {
            return;
        }
    }
    let all = brute_layouts(&g.game);
    let n = all.iter().filter(|m| m.iter().flatten().filter(|x| **x).count() == g.mines).count();
    let gm = g.game.clone();
    if let Some(Ok((p, _))) = ctx.guard("cal_possibility_onboard", || fmt_board(&gm), || cal_possibility_onboard(&gm, g.mines as f64)) {
        ctx.ev("enumerated_layouts", n as u64);
        for i in 0..gm.len() {
            for j in 0..gm[0].len() {
                let k = all.iter().filter(|m| m.iter().flatten().filter(|x| **x).count() == g.mines && m[i][j]).count();
                let want = k as f64 / n as f64;
                if !near(p[i][j], want) {
                    ctx.fail("brute", format!("{:?} has probability {}, but {k} of {n} layouts with {} mines: {}", (i, j), p[i][j], g.mines, fmt_board(&gm)));
                }
            }
        }
        ctx.seen(hash_board(&gm));
    } else {
        ctx.fail("brute:error", fmt_board(&gm));
    }
}

fn main() {
    engine::main(Spec {
        id: "C08",
        rule: "legal visible boards with the true, extreme and random feasible mine counts and random densities; non-trivial when some border cell is neither certain mine nor certain safe; distinct by board and argument",
        stages: vec![
            Stage { name: "opened", quick: 20000, thorough: 500000, f: opened },
            Stage { name: "marked", quick: 2500, thorough: 60000, f: marked },
            Stage { name: "oversized", quick: 600, thorough: 10000, f: oversized },
            Stage { name: "long", quick: 600, thorough: 10000, f: long },
            Stage { name: "islands", quick: 3000, thorough: 80000, f: islands },
            Stage { name: "brute", quick: 12000, thorough: 200000, f: brute },
        ],
        finish: None,
        assumptions: &["all layouts with the given total that match the board are equally likely", "border segments up to 55 cells are exact, longer ones count as unconstrained ground (documented)", "positions with a segment whose enumeration is expensive are skipped (cost)", "agreement within 1e-9"],
        must_see: &["by_count", "by_density", "uncertain_cells", "inner_probabilities", "oversized_segments", "segments_at_the_limit", "boards_with_12_or_more_segments", "enumerated_layouts"],
    })
}
