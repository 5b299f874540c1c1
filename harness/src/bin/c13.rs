//! C13: judging a guess: forced, needless, necessary; the verdict follows from the visible numbers alone.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;
use std::collections::HashMap;

type P = (usize, usize);
const CAP: usize = 20000;

fn find(p: &mut Vec<usize>, x: usize) -> usize {
    let mut r = x;
    while p[r] != r {
        r = p[r];
    }
    let mut y = x;
    while p[y] != r {
        let n = p[y];
        p[y] = r;
        y = n;
    }
    r
}

/// region of each unopened cell: unopened cells that touch, or that share a number's segment
fn regions(g: &B, an: &Analysis) -> Vec<usize> {
    let (r, c) = (g.len(), g[0].len());
    let mut par: Vec<usize> = (0..r * c).collect();
    for i in 0..r {
        for j in 0..c {
            if g[i][j] < 10 {
                continue;
            }
            for n in neighbours(r, c, i, j) {
                if g[n.0][n.1] >= 10 {
                    let (a, b) = (find(&mut par, i * c + j), find(&mut par, n.0 * c + n.1));
                    par[a] = b;
                }
            }
        }
    }
    for s in &an.model.comps {
        for p in &s.cells[1..] {
            let (a, b) = (find(&mut par, p.0 * c + p.1), find(&mut par, s.cells[0].0 * c + s.cells[0].1));
            par[a] = b;
        }
    }
    (0..r * c).map(|i| find(&mut par, i)).collect()
}

/// what the statement says about opening cell p of the cleaned board g
fn expect(g: &B, forced: &HashMap<P, Forced>, reg: &[usize], p: P) -> i32 {
    let c = g[0].len();
    if g[p.0][p.1] < 10 {
        return 5;
    }
    let mine = reg[p.0 * c + p.1];
    let safe_here = forced.iter().any(|(q, f)| *f == Forced::Safe && reg[q.0 * c + q.1] == mine);
    match forced.get(&p) {
        Some(Forced::Safe) => 1,
        Some(Forced::Mine) => 4,
        _ if safe_here => 3,
        _ => 2,
    }
}

fn check(ctx: &mut Ctx, g: &B) {
    let (r, c) = (g.len(), g[0].len());
    let mut clean = g.clone();
    clean.iter_mut().flatten().for_each(|x| {
        if *x > 10 {
            *x = 10
        }
    });
    let Some(an) = Analysis::new(&clean, CAP) else { return ctx.ev("skipped_large", 1) };
    if !an.consistent() {
        return ctx.fail("harness", format!("generator made an illegal board {}", fmt_board(g)));
    }
    if an.max_segment() > 55 || !an.model.comps.iter().all(|c| c.merged_leaves(8000).map_or(false, |l| l < 20000)) {
        return ctx.ev("skipped_beyond_enumeration_limit", 1);
    }
    let forced = an.forced();
    let reg = regions(&clean, &an);
    let mut cells: Vec<P> = (0..r * c).map(|i| (i / c, i % c)).collect();
    ctx.rng.shuffle(&mut cells);
    let k = ctx.rng.range(1, 12);
    let mut open = 0;
    let mut verdicts = [0usize; 6];
    for p in cells {
        if clean[p.0][p.1] < 10 {
            open += 1;
            if open > 1 {
                continue;
            }
        }
        if verdicts.iter().sum::<usize>() >= k {
            break;
        }
        let inp = || format!("{p:?} on {}", fmt_board(g));
        let mut b = g.clone();
        let Some(v) = ctx.guard("is_guess_while_needless", inp, || is_guess_while_needless(&mut b, &p)) else { return };
        let want = expect(&clean, &forced, &reg, p);
        verdicts[want as usize] += 1;
        let kind = if clean[p.0][p.1] < 10 { "opened" } else if forced.contains_key(&p) { "border" } else { "inner" };
        ctx.check(v == want, &format!("verdict:{kind}:{want}:{v}"), || format!("verdict {v} instead of {want} for {kind} {}", inp()));
        ctx.ev(&format!("verdict_{want}_{kind}"), 1);
        marks(ctx, "guess", g, &clean, &b, &forced);
        let mut b = g.clone();
        let Some(v) = ctx.guard("is_able_to_solve", inp, || is_able_to_solve(&mut b, &p)) else { return };
        let want = matches!(forced.get(&p), Some(Forced::Safe) | Some(Forced::Mine));
        ctx.check(v == want, &format!("able:{kind}:{want}"), || format!("decidable {v} instead of {want} for {kind} {}", inp()));
        ctx.ev(if want { "decidable" } else { "undecidable" }, 1);
        marks(ctx, "able", g, &clean, &b, &forced);
    }
    ctx.ev("boards", 1);
    if verdicts.iter().filter(|x| **x > 0).count() > 2 {
        ctx.seen(hash_board(g));
    }
    ctx.sample(|| format!("verdict counts {verdicts:?}: {}", fmt_board(g)));
}

/// the board handed in keeps its numbers, loses the player's marks and gains only proven ones
fn marks(ctx: &mut Ctx, who: &str, g: &B, clean: &B, b: &B, forced: &HashMap<P, Forced>) {
    for i in 0..g.len() {
        for j in 0..g[0].len() {
            let ok = b[i][j] == clean[i][j]
                || clean[i][j] == 10
                    && match b[i][j] {
                        11 => forced.get(&(i, j)) == Some(&Forced::Mine),
                        12 => forced.get(&(i, j)) == Some(&Forced::Safe),
                        _ => false,
                    };
            ctx.check(ok, &format!("{who}:marks"), || format!("{who} leaves {} at ({i},{j}): {}", b[i][j], fmt_board(g)));
        }
    }
}

fn player_marks(ctx: &mut Ctx, g: &mut B, t: &B) {
    let (p, wrong) = (ctx.rng.f64() * 0.7, ctx.rng.f64());
    for i in 0..g.len() {
        for j in 0..g[0].len() {
            if g[i][j] >= 10 {
                g[i][j] = 10;
                if ctx.rng.chance(p) && (t[i][j] == -1 || ctx.rng.chance(wrong)) {
                    g[i][j] = if ctx.rng.chance(0.8) { 11 } else { *ctx.rng.pick(&[12, 14, 15, 16, 18]) };
                }
            }
        }
    }
}

fn opened(ctx: &mut Ctx) {
    let mut g = gen_visible(&mut ctx.rng, 12, 14, false);
    if ctx.rng.chance(0.5) {
        player_marks(ctx, &mut g.game, &g.board);
    }
    check(ctx, &g.game);
}
fn large(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[(16usize, 16usize, 40usize), (16, 30, 99), (8, 8, 10), (24, 20, 80)]);
    let b = random_board(&mut ctx.rng, n.0, n.1, n.2);
    let mut g = gen_visible_from(&mut ctx.rng, b, false);
    if ctx.rng.chance(0.5) {
        player_marks(ctx, &mut g.game, &g.board);
    }
    check(ctx, &g.game);
}
/// single opened cells in unopened land: many regions, interior cells, borders of one number
fn scattered(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(2, 8), ctx.rng.range(2, 9));
    let n = (r * c) * ctx.rng.range(5, 60) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let p = ctx.rng.f64() * ctx.rng.f64();
    let mut g = vec![vec![10; c]; r];
    for i in 0..r {
        for j in 0..c {
            if b[i][j] >= 0 && ctx.rng.chance(p) {
                g[i][j] = b[i][j];
            }
        }
    }
    check(ctx, &g);
}

fn main() {
    engine::main(Spec {
        id: "C13",
        rule: "visible boards consistent with a layout, with and without (right and wrong) player marks; each board is judged at up to 12 cells; non-trivial when at least three different verdicts occur on it; distinct by board",
        stages: vec![
            Stage { name: "opened", quick: 14000, thorough: 1200000, f: opened },
            Stage { name: "large", quick: 2500, thorough: 200000, f: large },
            Stage { name: "scattered", quick: 14000, thorough: 1200000, f: scattered },
        ],
        finish: None,
        assumptions: &["boards are consistent with some layout (a player's board always is)", "segments up to 55 cells (documented enumeration limit)", "the number of mines left is not used (documented)"],
        must_see: &["verdict_1_border", "verdict_2_border", "verdict_3_border", "verdict_4_border", "verdict_2_inner", "verdict_3_inner", "verdict_5_opened", "decidable", "undecidable"],
    })
}
