//! C09: positions without any matching layout are answered with an error, never with a crash or a non-number.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;

const CAP: usize = 20000;

fn check(ctx: &mut Ctx, g: &B, mines: usize) {
    let inp = || format!("mines {mines} on {}", fmt_board(g));
    let m = model(g);
    if !affordable(&m, 55, CAP) || m.comps.iter().any(|c| c.cells.len() > 55) {
        return ctx.ev("skipped_large", 1);
    }
    let Some(po) = posterior(g, mines, 55, CAP) else { return };
    let legal_local = m.comps.iter().all(|c| c.counts(CAP).map_or(false, |k| k.total.iter().any(|x| *x > 0)));
    ctx.ev(if po.is_some() { "possible_positions" } else if legal_local { "impossible_by_count" } else { "impossible_by_numbers" }, 1);
    if mines >= 1 {
        for which in 0..2 {
            let r = if which == 0 {
                ctx.guard("cal_possibility", inp, || {
                    cal_possibility(g, mines as f64).map(|x| (x.0.iter().map(|y| y.1).collect::<Vec<f64>>(), if m.inner.is_empty() { 0.0 } else { x.1 }))
                })
            } else {
                ctx.guard("cal_possibility_onboard", inp, || cal_possibility_onboard(g, mines as f64).map(|x| (x.0.into_iter().flatten().collect(), 0.0)))
            };
            let Some(r) = r else { return };
            match (&r, &po) {
                (Ok(_), None) => ctx.fail("accepted", format!("an answer for a position without any layout: {}", inp())),
                (Err(e), Some(_)) => ctx.fail("refused", format!("error {e} for a possible position: {}", inp())),
                (Ok((v, i)), _) => {
                    if v.iter().chain(std::iter::once(i)).any(|x| !(*x >= -1e-9 && *x <= 1.0 + 1e-9)) {
                        ctx.fail("number", format!("a probability outside [0,1] {v:?} {i}: {}", inp()));
                    }
                }
                _ => {}
            }
        }
        // the same position by density: the count is fitted to the range, so only the numbers can be wrong
        if ctx.rng.chance(0.3) {
            let d = ctx.rng.f64() * 0.9999;
            if let Some(r) = ctx.guard("cal_possibility density", inp, || cal_possibility(g, d).map(|x| x.0)) {
                match r {
                    Ok(v) => {
                        ctx.check(legal_local, "density:accepted", || format!("an answer at density {d} for a position without any layout: {}", inp()));
                        ctx.check(v.iter().all(|x| x.1 >= -1e-9 && x.1 <= 1.0 + 1e-9), "density:number", || format!("density {d} gives {v:?}: {}", inp()));
                    }
                    Err(e) => {
                        ctx.check(!legal_local, "density:refused", || format!("error {e} at density {d}: {}", inp()));
                    }
                }
            }
        }
        let cells: Vec<[usize; 2]> = (0..3).map(|_| [ctx.rng.below(g.len()), ctx.rng.below(g[0].len())]).collect();
        if let Some(v) = ctx.guard("cal_is_op_possibility_cells", || format!("{cells:?} {}", inp()), || cal_is_op_possibility_cells(g, mines as f64, &cells)) {
            ctx.check(v.len() == cells.len() && v.iter().all(|x| *x >= -1e-9 && *x <= 1.0 + 1e-9), "opening:number", || format!("opening probabilities {v:?} for {cells:?}: {}", inp()));
        }
    }
    // marking
    let mut b = g.clone();
    if let Some(r) = ctx.guard("mark_board", inp, || mark_board(&mut b)) {
        ctx.check(r.is_ok() || !legal_local, "mark_board:refused", || format!("mark_board gives {r:?} for a possible position: {}", inp()));
        ctx.ev(if r.is_ok() { "mark_ok" } else { "mark_err" }, 1);
        for i in 0..g.len() {
            for j in 0..g[0].len() {
                ctx.check(g[i][j] == b[i][j] || g[i][j] == 10 && (b[i][j] == 11 || b[i][j] == 12), "mark_board:cells", || format!("mark_board turns {:?} from {} into {}: {}", (i, j), g[i][j], b[i][j], inp()));
            }
        }
        // an obvious contradiction: one number whose unopened and marked neighbours cannot add up
        let obvious = m.comps.iter().any(|c| c.cons.iter().any(|k| k.1 < 0 || k.1 as usize > k.2.len()));
        if obvious {
            ctx.ev("obvious_contradictions", 1);
            ctx.check(r.is_err(), "mark_board:accepted", || format!("mark_board accepts a number that cannot be satisfied: {}", inp()));
        }
    }
    let mut b = g.clone();
    if let Some(r) = ctx.guard("engines", inp, || {
        let mut s = refresh_matrixs(&b);
        let a = solve_direct(&mut s.0, &mut s.1, &mut s.2, &mut b).is_ok();
        let c = if a { solve_minus(&mut s.0, &mut s.1, &mut s.2, &mut b).is_ok() } else { false };
        (a, c)
    }) {
        ctx.check(!legal_local || r == (true, true), "engines:refused", || format!("the engines give {r:?} for a possible position: {}", inp()));
    }
    if po.is_none() {
        ctx.seen(mix(hash_board(g), mines as u64));
    }
    ctx.sample(|| format!("possible {}: {}", po.is_some(), inp()));
}

/// arbitrary cells
fn noise(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 7), ctx.rng.range(1, 7));
    let p = ctx.rng.f64();
    let hi = ctx.rng.range(1, 8);
    let mut g = vec![vec![10; c]; r];
    for i in 0..r {
        for j in 0..c {
            if ctx.rng.chance(p) {
                g[i][j] = match ctx.rng.below(8) {
                    0 => 11,
                    1 => 12,
                    _ => ctx.rng.below(hi + 1) as i32,
                };
            }
        }
    }
    let n = ctx.rng.below(r * c + 3);
    check(ctx, &g, n);
}
/// a legal board with one to three numbers or marks changed
fn corrupted(ctx: &mut Ctx) {
    let v = gen_visible(&mut ctx.rng, 10, 10, true);
    let mut g = v.game;
    for _ in 0..ctx.rng.range(1, 3) {
        let (i, j) = (ctx.rng.below(g.len()), ctx.rng.below(g[0].len()));
        g[i][j] = match g[i][j] {
            x if x < 9 => (x + if ctx.rng.chance(0.5) { 1 } else { 7 }) % 9,
            10 => *ctx.rng.pick(&[11, 12, 0, 1, 2, 8]),
            11 => *ctx.rng.pick(&[10, 12]),
            _ => *ctx.rng.pick(&[10, 11]),
        };
    }
    let n = (v.mines as i64 + ctx.rng.irange(-2, 2)).max(0) as usize;
    check(ctx, &g, n);
}
/// a legal board with an impossible number of mines
fn miscounted(ctx: &mut Ctx) {
    let v = gen_visible(&mut ctx.rng, 9, 9, true);
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(v.mines + 1),
        1 => v.game.len() * v.game[0].len() + ctx.rng.below(3),
        2 => v.mines + ctx.rng.below(20),
        _ => ctx.rng.below(v.game.len() * v.game[0].len() + 1),
    };
    check(ctx, &v.game, n);
}

/// many small segments, with a number changed or a mine count at the edge of what is possible
fn islands(ctx: &mut Ctx) {
    let v = gen_islands(&mut ctx.rng);
    let mut g = v.game;
    let m = model(&g);
    let least: usize = m.comps.iter().filter_map(|c| c.counts(CAP)).map(|k| k.total.iter().position(|x| *x > 0).unwrap_or(0)).sum();
    let n = match ctx.rng.below(4) {
        0 => least,
        1 => least.saturating_sub(1),
        2 => v.mines,
        _ => {
            let p: Vec<(usize, usize)> = (0..g.len()).flat_map(|i| (0..g[0].len()).map(move |j| (i, j))).filter(|p| g[p.0][p.1] < 10).collect();
            if let Some(p) = p.get(ctx.rng.below(p.len().max(1))) {
                g[p.0][p.1] = *ctx.rng.pick(&[6, 7, 8]);
            }
            v.mines
        }
    };
    if m.comps.len() >= 12 {
        ctx.ev("boards_with_12_or_more_segments", 1);
    }
    check(ctx, &g, n);
}

fn main() {
    engine::main(Spec {
        id: "C09",
        rule: "boards of arbitrary cells, legal boards with changed numbers or marks, legal boards with wrong mine counts; non-trivial when no layout with that count matches; distinct by board and count",
        stages: vec![
            Stage { name: "noise", quick: 60000, thorough: 1500000, f: noise },
            Stage { name: "corrupted", quick: 20000, thorough: 500000, f: corrupted },
            Stage { name: "miscounted", quick: 20000, thorough: 500000, f: miscounted },
            Stage { name: "islands", quick: 4000, thorough: 100000, f: islands },
        ],
        finish: None,
        assumptions: &["numbers without unopened neighbours are not examined (documented limitation)", "border segments up to 55 cells"],
        must_see: &["possible_positions", "impossible_by_count", "impossible_by_numbers", "obvious_contradictions", "mark_err", "mark_ok", "boards_with_12_or_more_segments"],
    })
}
