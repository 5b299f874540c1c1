//! C05: the equation systems represent the visible board (whole, segmented, grouped into blocks).
use ms_toollib::{refresh_matrix, refresh_matrixs, refresh_matrixses};
use oracle::solver::*;
use oracle::*;
use std::collections::{BTreeMap, BTreeSet};

type P = (usize, usize);
type Row = (BTreeSet<P>, i32);

/// equations of a system as a multiset; None when the system is malformed
fn rows(a: &Vec<Vec<i32>>, x: &Vec<P>, b: &Vec<i32>) -> Result<BTreeMap<Row, usize>, String> {
    if a.len() != b.len() {
        return Err(format!("{} equations but {} right-hand sides", a.len(), b.len()));
    }
    if x.iter().collect::<BTreeSet<_>>().len() != x.len() {
        return Err(format!("a cell is listed twice: {x:?}"));
    }
    let mut m = BTreeMap::new();
    for (r, v) in a.iter().zip(b) {
        if r.len() != x.len() {
            return Err(format!("row of {} coefficients for {} cells", r.len(), x.len()));
        }
        let mut s = BTreeSet::new();
        for (k, p) in r.iter().zip(x) {
            match k {
                0 => {}
                1 => {
                    s.insert(*p);
                }
                _ => return Err(format!("coefficient {k}")),
            }
        }
        *m.entry((s, *v)).or_insert(0) += 1;
    }
    Ok(m)
}

fn check(ctx: &mut Ctx, g: &B) {
    let m = model(g);
    let (r, c) = (g.len(), g[0].len());
    let inp = || fmt_board(g);
    let mut want: BTreeMap<Row, usize> = BTreeMap::new();
    let mut want_seg: Vec<(BTreeSet<P>, BTreeMap<Row, usize>)> = vec![];
    for k in &m.comps {
        let mut w: BTreeMap<Row, usize> = BTreeMap::new();
        for (_, b, v) in &k.cons {
            let row: Row = (v.iter().map(|i| k.cells[*i]).collect(), *b);
            *w.entry(row.clone()).or_insert(0) += 1;
            *want.entry(row).or_insert(0) += 1;
        }
        want_seg.push((k.cells.iter().cloned().collect(), w));
    }
    let frontier: BTreeSet<P> = m.comps.iter().flat_map(|k| k.cells.iter().cloned()).collect();
    // whole
    if let Some((a, x, b)) = ctx.guard("refresh_matrix", inp, || refresh_matrix(g)) {
        match rows(&a, &x, &b) {
            Err(e) => ctx.fail("whole:shape", format!("{e}: {}", fmt_board(g))),
            Ok(got) => {
                ctx.check(x.iter().cloned().collect::<BTreeSet<_>>() == frontier, "whole:cells", || format!("cells {x:?} instead of {frontier:?}: {}", fmt_board(g)));
                ctx.check(got == want, "whole:rows", || format!("equations {got:?} instead of {want:?}: {}", fmt_board(g)));
            }
        }
        ctx.ev("systems", 1);
        ctx.ev("equations", b.len() as u64);
    }
    // segments
    let mut want_seg_s = want_seg.clone();
    want_seg_s.sort();
    if let Some((a, x, b, unk, fl)) = ctx.guard("refresh_matrixs", inp, || refresh_matrixs(g)) {
        ctx.check(unk == m.inner.len(), "segments:inner", || format!("{unk} cells away from numbers instead of {}: {}", m.inner.len(), fmt_board(g)));
        ctx.check(fl == m.flagged, "segments:mines", || format!("{fl} marked mines instead of {}: {}", m.flagged, fmt_board(g)));
        let mut got = vec![];
        let mut bad = a.len() != x.len() || x.len() != b.len();
        for i in 0..x.len().min(a.len()).min(b.len()) {
            match rows(&a[i], &x[i], &b[i]) {
                Ok(w) => got.push((x[i].iter().cloned().collect::<BTreeSet<_>>(), w)),
                Err(e) => {
                    ctx.fail("segments:shape", format!("{e}: {}", fmt_board(g)));
                    bad = true;
                }
            }
        }
        got.sort();
        ctx.check(!bad && got == want_seg_s, "segments:split", || format!("segments {got:?} instead of {want_seg_s:?}: {}", fmt_board(g)));
        ctx.ev("segments", x.len() as u64);
    }
    // blocks: unopened cells that touch (8-neighbourhood) hold together, and so do the cells of a segment
    let n = r * c;
    let mut par: Vec<usize> = (0..n).collect();
    fn find(p: &mut Vec<usize>, mut a: usize) -> usize {
        while p[a] != a {
            p[a] = p[p[a]];
            a = p[a];
        }
        a
    }
    for i in 0..r {
        for j in 0..c {
            if g[i][j] == 10 {
                for q in neighbours(r, c, i, j) {
                    if g[q.0][q.1] == 10 {
                        let (a, b) = (find(&mut par, i * c + j), find(&mut par, q.0 * c + q.1));
                        par[a] = b;
                    }
                }
            }
        }
    }
    for (s, _) in &want_seg {
        let v: Vec<_> = s.iter().collect();
        for w in v.windows(2) {
            let (a, b) = (find(&mut par, w[0].0 * c + w[0].1), find(&mut par, w[1].0 * c + w[1].1));
            par[a] = b;
        }
    }
    let mut want_blocks: BTreeMap<usize, BTreeSet<BTreeSet<P>>> = BTreeMap::new();
    for (s, _) in &want_seg {
        let p = s.iter().next().unwrap();
        want_blocks.entry(find(&mut par, p.0 * c + p.1)).or_default().insert(s.clone());
    }
    let want_b: BTreeSet<BTreeSet<BTreeSet<P>>> = want_blocks.into_values().collect();
    if let Some((a, x, b)) = ctx.guard("refresh_matrixses", inp, || refresh_matrixses(g)) {
        let mut got_seg = vec![];
        let mut bad = a.len() != x.len() || x.len() != b.len();
        for i in 0..x.len().min(a.len()).min(b.len()) {
            bad |= a[i].len() != x[i].len() || x[i].len() != b[i].len();
            for k in 0..x[i].len().min(a[i].len()).min(b[i].len()) {
                match rows(&a[i][k], &x[i][k], &b[i][k]) {
                    Ok(w) => got_seg.push((x[i][k].iter().cloned().collect::<BTreeSet<_>>(), w)),
                    Err(e) => {
                        ctx.fail("blocks:shape", format!("{e}: {}", fmt_board(g)));
                        bad = true;
                    }
                }
            }
        }
        got_seg.sort();
        ctx.check(!bad && got_seg == want_seg_s, "blocks:segments", || format!("segments over all blocks {got_seg:?} instead of {want_seg_s:?}: {}", fmt_board(g)));
        // a board without any equation may be one empty block or none
        let got_b: BTreeSet<BTreeSet<BTreeSet<P>>> =
            x.iter().filter(|v| !v.is_empty()).map(|v| v.iter().map(|s| s.iter().cloned().collect()).collect()).collect();
        ctx.check(got_b == want_b, "blocks:grouping", || format!("blocks {got_b:?} instead of {want_b:?}: {}", fmt_board(g)));
        ctx.ev("blocks", want_b.len() as u64);
        if want_b.len() > 1 {
            ctx.ev("boards_with_several_blocks", 1);
        }
        if want_b.iter().any(|v| v.len() > 1) {
            ctx.ev("blocks_with_several_segments", 1);
        }
    }
    ctx.sample(|| format!("{} segments, {} blocks: {}", want_seg.len(), want_b.len(), fmt_board(g)));
    if want_seg.len() > 1 {
        ctx.seen(hash_board(g));
    }
}

fn opened(ctx: &mut Ctx) {
    let marks = ctx.rng.chance(0.5);
    let g = gen_visible(&mut ctx.rng, 16, 20, marks);
    check(ctx, &g.game);
}

fn large(ctx: &mut Ctx) {
    let g = gen_visible(&mut ctx.rng, 24, 36, true);
    check(ctx, &g.game);
}

/// long thin boards and boards cut by openings: many segments, many blocks
fn cut(ctx: &mut Ctx) {
    let (r, c) = if ctx.rng.chance(0.5) { (ctx.rng.range(1, 4), ctx.rng.range(10, 60)) } else { (ctx.rng.range(8, 20), ctx.rng.range(8, 30)) };
    let n = (r * c) * ctx.rng.range(4, 22) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let mut g = vec![vec![10; c]; r];
    let safe: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| b[p.0][p.1] >= 0).collect();
    for _ in 0..ctx.rng.range(1, 12) {
        let p = *ctx.rng.pick(&safe);
        reveal(&b, &mut g, &[p]);
    }
    check(ctx, &g);
}

/// islands: single numbers scattered in unopened ground
fn scattered(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(3, 14), ctx.rng.range(3, 20));
    let n = (r * c) * ctx.rng.range(15, 50) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let p = ctx.rng.f64() * 0.4;
    let pm = if ctx.rng.chance(0.3) { ctx.rng.f64() } else { 0.0 };
    let mut g = vec![vec![10; c]; r];
    for i in 0..r {
        for j in 0..c {
            if b[i][j] > 0 && ctx.rng.chance(p) {
                g[i][j] = b[i][j];
            } else if b[i][j] == -1 && ctx.rng.chance(pm) {
                g[i][j] = 11;
            }
        }
    }
    check(ctx, &g);
}

fn main() {
    engine::main(Spec {
        id: "C05",
        rule: "visible boards reached by legal play (random and thin boards, scattered numbers, correct mine/safe marks); non-trivial when the board has at least two segments; distinct by content",
        stages: vec![
            Stage { name: "opened", quick: 60000, thorough: 1500000, f: opened },
            Stage { name: "large", quick: 3000, thorough: 100000, f: large },
            Stage { name: "cut", quick: 30000, thorough: 600000, f: cut },
            Stage { name: "scattered", quick: 20000, thorough: 500000, f: scattered },
        ],
        finish: None,
        assumptions: &["the visible boards are legal: numbers match some layout, marks are right, zeros have no unopened neighbour"],
        must_see: &["segments", "boards_with_several_blocks", "blocks_with_several_segments"],
    })
}
