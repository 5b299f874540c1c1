//! C29: a chord is judged locally best exactly when no neighbouring legal chord opens more cells.
use ms_toollib::is_good_chording;
use oracle::solver::*;
use oracle::*;

/// unopened cells a chord on p would open, if it is a legal chord
fn gain(g: &B, p: (usize, usize)) -> Option<usize> {
    let v = g[p.0][p.1];
    if !(1..=8).contains(&v) {
        return None;
    }
    let n = neighbours(g.len(), g[0].len(), p.0, p.1);
    let flags = n.iter().filter(|q| g[q.0][q.1] == 11).count();
    let closed = n.iter().filter(|q| g[q.0][q.1] == 10).count();
    (flags as i32 == v).then_some(closed)
}

fn check(ctx: &mut Ctx, g: &B) {
    let (r, c) = (g.len(), g[0].len());
    for i in 0..r {
        for j in 0..c {
            let Some(k) = gain(g, (i, j)) else { continue };
            let sides: Vec<(usize, usize)> = neighbours(r, c, i, j).into_iter().filter(|q| q.0 == i || q.1 == j).collect();
            let best = sides.iter().filter_map(|q| gain(g, *q)).max().unwrap_or(0);
            let want = k > 0 && best <= k;
            let Some(v) = ctx.guard("is_good_chording", || format!("({i},{j}) on {}", fmt_board(g)), || is_good_chording(g, (i, j))) else { return };
            ctx.check(v == want, &format!("verdict:{want}:{}", if i == 0 || j == 0 || i + 1 == r || j + 1 == c { "edge" } else { "inside" }), || format!("verdict {v} for the chord at ({i},{j}) opening {k}, best neighbour {best}: {}", fmt_board(g)));
            ctx.ev(if k == 0 { "empty_chords" } else if want { "good_chords" } else { "improvable_chords" }, 1);
            if j + 1 == c {
                ctx.ev("chords_in_last_column", 1);
            }
            if i + 1 == r {
                ctx.ev("chords_in_last_row", 1);
            }
            if k > 0 && best > 0 {
                ctx.seen(mix(hash_board(g), (i * 100 + j) as u64));
            }
        }
    }
    ctx.ev("boards", 1);
    ctx.sample(|| fmt_board(g));
}

fn opened(ctx: &mut Ctx) {
    let mut g = gen_visible(&mut ctx.rng, 14, 16, true).game;
    g.iter_mut().flatten().for_each(|x| {
        if *x == 12 {
            *x = 10
        }
    });
    check(ctx, &g);
}
/// dense fields of numbers, flags and closed cells: many legal chords side by side
fn arranged(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 6), ctx.rng.range(1, 6));
    let n = (r * c) * ctx.rng.range(10, 60) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let (pf, po) = (ctx.rng.f64(), ctx.rng.f64());
    let mut g = vec![vec![10; c]; r];
    for i in 0..r {
        for j in 0..c {
            if b[i][j] == -1 && ctx.rng.chance(pf.max(0.5)) {
                g[i][j] = 11;
            } else if b[i][j] >= 0 && ctx.rng.chance(po) {
                g[i][j] = b[i][j];
            }
        }
    }
    check(ctx, &g);
}

fn main() {
    engine::main(Spec {
        id: "C29",
        rule: "every legal chord of visible boards with right flags; non-trivial when the chord and a neighbouring chord both open cells; distinct by board and chord",
        stages: vec![
            Stage { name: "opened", quick: 300000, thorough: 4000000, f: opened },
            Stage { name: "arranged", quick: 900000, thorough: 12000000, f: arranged },
        ],
        finish: None,
        assumptions: &["the chord itself is legal and no flag is wrong (documented)"],
        must_see: &["good_chords", "improvable_chords", "empty_chords", "chords_in_last_column", "chords_in_last_row"],
    })
}
