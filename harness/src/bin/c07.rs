//! C07: full deduction is complete: exactly the cells that every matching layout agrees on.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;
use std::collections::BTreeSet;

type P = (usize, usize);
const CAP: usize = 20000;

fn check(ctx: &mut Ctx, g: &B) {
    let an = match Analysis::new(g, CAP) {
        Some(a) => a,
        None => return ctx.ev("skipped_large", 1),
    };
    if !an.consistent() {
        return ctx.fail("harness", format!("generator made an illegal board {}", fmt_board(g)));
    }
    if an.max_segment() > 55 || !an.model.comps.iter().all(|c| c.merged_leaves(8000).map_or(false, |l| l < 40000)) {
        return ctx.ev("skipped_beyond_enumeration_limit", 1);
    }
    let forced = an.forced();
    let pick = |f: Forced| forced.iter().filter(|x| *x.1 == f).map(|x| *x.0).collect::<BTreeSet<P>>();
    let want = (pick(Forced::Safe), pick(Forced::Mine));
    let inp = || fmt_board(g);
    let cmp = |ctx: &mut Ctx, who: &str, ans: &(Vec<P>, Vec<P>)| {
        let got: (BTreeSet<P>, BTreeSet<P>) = (ans.0.iter().cloned().collect(), ans.1.iter().cloned().collect());
        if got != want {
            let d: Vec<_> = got.0.symmetric_difference(&want.0).chain(got.1.symmetric_difference(&want.1)).collect();
            ctx.fail(format!("{who}:set"), format!("{who} and the numbers disagree about {d:?} (safe {:?} mines {:?}): {}", got.0, got.1, fmt_board(g)));
        }
        if got.0.len() != ans.0.len() || got.1.len() != ans.1.len() {
            ctx.fail(format!("{who}:twice"), format!("{who} reports a cell twice {ans:?}: {}", fmt_board(g)));
        }
    };
    // enumeration on the untouched system
    if let Some(a) = ctx.guard("solve_enumerate", inp, || {
        let s = refresh_matrixs(g);
        solve_enumerate(&s.0, &s.1, &s.2)
    }) {
        cmp(ctx, "enumerate", &a);
    }
    // all engines in a row
    let mut b = g.clone();
    if let Some(a) = ctx.guard("get_all", inp, || {
        let mut s = refresh_matrixs(g);
        get_all_not_and_is_mine_on_board(&mut s.0, &mut s.1, &mut s.2, &mut b)
    }) {
        cmp(ctx, "get_all", &a);
    }
    // the same on the grouped system
    let mut b = g.clone();
    if let Some(a) = ctx.guard("get_all by blocks", inp, || {
        let mut s = refresh_matrixses(g);
        let mut o = (vec![], vec![]);
        for i in 0..s.0.len() {
            let a = get_all_not_and_is_mine_on_board(&mut s.0[i], &mut s.1[i], &mut s.2[i], &mut b);
            o.0.extend(a.0);
            o.1.extend(a.1);
        }
        o
    }) {
        cmp(ctx, "blocks", &a);
    }
    // after putting the answer on the board nothing is left to deduce
    let mut b = g.clone();
    want.0.iter().for_each(|p| b[p.0][p.1] = 12);
    want.1.iter().for_each(|p| b[p.0][p.1] = 11);
    if let Some(a) = ctx.guard("get_all again", || fmt_board(&b), || {
        let mut s = refresh_matrixs(&b);
        let mut b2 = b.clone();
        get_all_not_and_is_mine_on_board(&mut s.0, &mut s.1, &mut s.2, &mut b2)
    }) {
        ctx.check(a.0.is_empty() && a.1.is_empty(), "again", || format!("{a:?} deduced on a board where everything decided is marked: {}", fmt_board(&b)));
    }
    let k = want.0.len() + want.1.len();
    ctx.ev("boards", 1);
    ctx.ev("forced_cells", k as u64);
    ctx.ev("open_cells", (forced.len() - k) as u64);
    // beyond what single numbers and pairs of numbers say
    let mut m = g.clone();
    if mark_board(&mut m).is_ok() {
        let left = want.0.iter().chain(&want.1).filter(|p| m[p.0][p.1] == 10).count();
        if left > 0 {
            ctx.ev("boards_needing_enumeration", 1);
        }
    }
    if k > 0 && k < forced.len() {
        ctx.seen(hash_board(g));
    }
    ctx.sample(|| format!("safe {:?} mines {:?}: {}", want.0, want.1, fmt_board(g)));
}

fn opened(ctx: &mut Ctx) {
    let marks = ctx.rng.chance(0.4);
    let g = gen_visible(&mut ctx.rng, 12, 14, marks);
    check(ctx, &g.game);
}
fn large(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[(16usize, 16usize, 40usize), (16, 30, 99), (8, 8, 10), (24, 20, 80)]);
    let b = random_board(&mut ctx.rng, n.0, n.1, n.2);
    let g = gen_visible_from(&mut ctx.rng, b, true);
    check(ctx, &g.game);
}
fn scattered(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(2, 7), ctx.rng.range(2, 8));
    let n = (r * c) * ctx.rng.range(15, 75) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let p = ctx.rng.f64();
    let pm = if ctx.rng.chance(0.4) { ctx.rng.f64() } else { 0.0 };
    let mut g = vec![vec![10; c]; r];
    for i in 0..r {
        for j in 0..c {
            if b[i][j] > 0 && ctx.rng.chance(p) {
                g[i][j] = b[i][j];
            } else if b[i][j] == -1 && ctx.rng.chance(pm) {
                g[i][j] = 11;
            }
        }
    }
    check(ctx, &g);
}

/// an opened row below closed ones, or a closed frame around: one segment about as long as the limit
fn strip(ctx: &mut Ctx) {
    // the opened row has one more closed row on one or two sides
    let two = ctx.rng.chance(0.5);
    let n = ctx.rng.range(if two { 26 } else { 51 }, if two { 31 } else { 60 });
    let n = if !two && ctx.rng.chance(0.5) { 55 } else { n };
    let whole = ctx.rng.chance(0.6);
    let (h, open) = if two { (3, 1) } else { (2, ctx.rng.below(2)) };
    let p = *ctx.rng.pick(&[0.1, 0.3, 0.6]);
    let mut mines = vec![vec![false; n]; h];
    for i in (0..h).filter(|i| *i != open) {
        for j in 0..n {
            mines[i][j] = ctx.rng.chance(p);
        }
    }
    let b = numbered(&mines);
    let mut g = vec![vec![10; n]; h];
    for j in 0..n {
        if whole || two || j % 2 == 0 || ctx.rng.chance(0.7) {
            g[open][j] = b[open][j];
        }
    }
    let Some(an) = Analysis::new(&g, CAP) else { return ctx.ev("skipped_large", 1) };
    let long = an.max_segment();
    if !(50..=60).contains(&long) || !an.model.comps.iter().all(|c| c.merged_leaves(8000).map_or(false, |l| l < 40000)) {
        return ctx.ev("skipped_beyond_enumeration_limit", 1);
    }
    if long <= 55 {
        ctx.ev(if long == 55 { "segments_of_55" } else { "segments_near_55" }, 1);
        return check(ctx, &g);
    }
    // beyond the limit nothing may be wrong
    let forced = an.forced();
    if let Some(a) = ctx.guard("solve_enumerate beyond the limit", || fmt_board(&g), || {
        let s = refresh_matrixs(&g);
        solve_enumerate(&s.0, &s.1, &s.2)
    }) {
        let bad = a.0.iter().any(|p| !matches!(forced.get(p), Some(Forced::Safe))) || a.1.iter().any(|p| !matches!(forced.get(p), Some(Forced::Mine)));
        ctx.check(!bad, "beyond", || format!("{a:?} on {}", fmt_board(&g)));
        ctx.ev("segments_beyond_55", 1);
    }
}

fn main() {
    engine::main(Spec {
        id: "C07",
        rule: "legal visible boards (legal play, scattered numbers, correct marks), segments of at most 55 cells; non-trivial when some but not all border cells are decided; distinct by content",
        stages: vec![
            Stage { name: "opened", quick: 30000, thorough: 900000, f: opened },
            Stage { name: "large", quick: 1500, thorough: 50000, f: large },
            Stage { name: "strip", quick: 6000, thorough: 200000, f: strip },
            Stage { name: "scattered", quick: 30000, thorough: 900000, f: scattered },
        ],
        finish: None,
        assumptions: &["legal boards with right marks; segments up to the documented 55 cells and bounded enumeration size", "the total number of mines is not used (documented)"],
        must_see: &["forced_cells", "open_cells", "boards_needing_enumeration", "segments_of_55", "segments_beyond_55"],
    })
}
