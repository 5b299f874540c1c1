//! C34: clear screenshots are read as the board they show.
use harness::picture::*;
use harness::*;
use ms_toollib::*;
use oracle::*;
use std::sync::Once;

static HERE: Once = Once::new();
/// the parameters of the reader are looked for in the working directory
fn at_parameters() {
    HERE.call_once(|| std::env::set_current_dir("/repo/base").expect("/repo/base"));
}

/// a position: openings of a sparse layout, or scattered cells of a dense one
fn shown(ctx: &mut Ctx) -> B {
    let (r, c) = (ctx.rng.range(9, 24), ctx.rng.range(9, 30));
    let dense = ctx.rng.chance(0.5);
    let n = r * c * if dense { ctx.rng.range(30, 60) } else { ctx.rng.range(10, 25) } / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let mut g = vec![vec![10; c]; r];
    if dense {
        let p = 0.2 + 0.6 * ctx.rng.f64();
        for x in 0..r {
            for y in 0..c {
                if b[x][y] >= 0 && ctx.rng.chance(p) {
                    g[x][y] = b[x][y];
                }
            }
        }
    } else {
        for _ in 0..ctx.rng.range(1, 20) {
            let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
            if b[x][y] >= 0 && g[x][y] == 10 {
                open(&b, &mut g, x, y);
            }
        }
    }
    g
}
fn open(b: &B, g: &mut B, x: usize, y: usize) {
    let mut todo = vec![(x, y)];
    while let Some((x, y)) = todo.pop() {
        if g[x][y] == 10 {
            g[x][y] = b[x][y];
            if b[x][y] == 0 {
                todo.extend(neighbours(b.len(), b[0].len(), x, y));
            }
        }
    }
}
fn closed_around(g: &B, x: usize, y: usize) -> i32 {
    neighbours(g.len(), g[0].len(), x, y).iter().filter(|p| g[p.0][p.1] == 10 || g[p.0][p.1] == 11).count() as i32
}

/// cells as the reader may give them, and no number above its closed neighbours
fn fits(a: &B) -> bool {
    a.iter().enumerate().all(|(x, l)| l.len() == a[0].len() && l.iter().enumerate().all(|(y, v)| matches!(v, 0..=8 | 10 | 11) && (*v > 8 || *v <= closed_around(a, x, y))))
}

/// sizes of a cell at which the digits come out well
const SIZES: [usize; 4] = [28, 30, 31, 32];
/// read as shown; known: a 3 touching the upper edge may be taken for a 4
fn as_shown(a: &B, g: &B) -> bool {
    a.len() == g.len() && a[0].len() == g[0].len() && (0..g.len()).all(|x| (0..g[0].len()).all(|y| a[x][y] == g[x][y] || x == 0 && g[x][y] == 3 && a[x][y] == 4))
}

fn pictures(ctx: &mut Ctx) {
    at_parameters();
    let g = shown(ctx);
    let s = *ctx.rng.pick(&SIZES);
    let m = [ctx.rng.range(8, 40), ctx.rng.range(8, 40), ctx.rng.range(8, 40), ctx.rng.range(8, 40)];
    let dark = [ctx.rng.below(40) as u8, ctx.rng.below(40) as u8, ctx.rng.below(40) as u8];
    let alpha = *ctx.rng.pick(&[0, 1, 64, 128, 254, 255]);
    let (d, h, w) = picture(&g, s, m, dark, alpha);
    let inp = || format!("{}x{} cells of {s} pixels, surround {m:?} {dark:?}: {}", g.len(), g[0].len(), fmt_board(&g));
    ctx.ev("pictures", 1);
    let a = quiet(|| OBR_board(d.clone(), h, w));
    // a picture that is not read exactly counts; how often that happens is judged at the end
    let right = matches!(&a, Ok(Ok(x)) if as_shown(x, &g));
    ctx.ev(&format!("{} {s} pixels", if right {"right at"} else {"not right at"}), 1);
    ctx.ev(if right { "read_exactly" } else { "not_read_exactly" }, 1);
    ctx.seen(hash_board(&g));
    if !right {
        ctx.sample(|| format!("not read exactly: {}", inp()));
    }
    if let Ok(Ok(a)) = &a {
        if a.len() == g.len() && a[0].len() == g[0].len() {
            for (x, y) in g.iter().flatten().zip(a.iter().flatten()).skip(g[0].len()) {
                ctx.ev(&format!("cells showing {x}"), 1);
                if x != y {
                    ctx.ev(&format!("wrong cells showing {x}"), 1);
                }
            }
        }
        if !ctx.check(fits(a), "not a board", || format!("read as {}: {}", fmt_board(a), inp())) {
            return;
        }
        if ctx.rng.chance(0.2) {
            // the fourth number of a pixel means nothing, and reading again gives the same
            let (d, h, w) = picture(&g, s, m, dark, 255 - alpha);
            let again = quiet(|| OBR_board(d, h, w));
            ctx.ev("read_again", 1);
            if !ctx.check(matches!(&again, Ok(Ok(x)) if x == a), "read differently", || inp()) {
                return;
            }
        }
    }
    ctx.sample(inp);
}

/// too small for a board
fn scraps(ctx: &mut Ctx) {
    at_parameters();
    let (h, w) = if ctx.rng.chance(0.5) { (ctx.rng.range(1, 24), ctx.rng.range(1, 200)) } else { (ctx.rng.range(1, 200), ctx.rng.range(1, 24)) };
    let d: Vec<usize> = (0..h * w * 4).map(|_| ctx.rng.below(256)).collect();
    let a = OBR_board(d, h, w);
    ctx.check(a.is_err(), "read a scrap", || format!("a picture of {h} by {w} pixels is read as {a:?}"));
    ctx.ev("scraps_refused", 1);
    ctx.seen(mix(h as u64, w as u64));
}

/// a picture of numbers that cannot be: read as what their closed neighbours allow
fn impossible(ctx: &mut Ctx) {
    at_parameters();
    let (r, c) = (ctx.rng.range(9, 20), ctx.rng.range(9, 20));
    let p = 0.3 + 0.6 * ctx.rng.f64();
    let g: B = (0..r).map(|_| (0..c).map(|_| if ctx.rng.chance(p) { 10 } else { ctx.rng.below(9) as i32 }).collect()).collect();
    let mut want = g.clone();
    for x in 0..r {
        for y in 0..c {
            if g[x][y] < 9 {
                want[x][y] = g[x][y].min(closed_around(&g, x, y));
            }
        }
    }
    let (d, h, w) = picture(&g, *ctx.rng.pick(&SIZES), [ctx.rng.range(8, 40); 4], [20; 3], 0);
    let a = quiet(|| OBR_board(d, h, w));
    let inp = || format!("{} is read as {a:?}", fmt_board(&g));
    ctx.ev("impossible", 1);
    ctx.ev("lowered_cells", g.iter().flatten().zip(want.iter().flatten()).filter(|p| p.0 != p.1).count() as u64);
    if matches!(&a, Ok(Ok(x)) if as_shown(x, &want)) {
        ctx.ev("impossible_as_wanted", 1);
    } else {
        ctx.ev("impossible_otherwise", 1);
    }
    if let Ok(Ok(a)) = &a {
        if !ctx.check(fits(a), "not a board", inp) {
            return;
        }
    }
    ctx.seen(hash_board(&g));
}

fn main() {
    engine::main(Spec {
        id: "C34",
        rule: "pictures of random positions in the classic look (digits of all kinds), drawn in all sizes and surrounds of the family; pictures too small; pictures of numbers that cannot be; distinct by board",
        stages: vec![Stage { name: "pictures", quick: 1200, thorough: 30000, f: pictures }, Stage { name: "scraps", quick: 500, thorough: 5000, f: scraps }, Stage { name: "impossible", quick: 300, thorough: 6000, f: impossible }],
        finish: Some(|agg, ctx| {
            let n = |k: &str| *agg.counters.get(k).unwrap_or(&0) as f64;
            let (all, bad) = (n("pictures"), n("not_read_exactly"));
            ctx.check(bad <= 5.0 + 0.005 * all, "not read", || format!("{bad} of {all} clear pictures are not read exactly"));
            let (all, bad) = (n("impossible"), n("impossible_otherwise"));
            ctx.check(bad <= 5.0 + 0.17 * all, "not lowered", || format!("{bad} of {all} pictures of impossible numbers are not read as what the closed neighbours allow"));
            for v in [0, 1, 2, 3, 4, 5, 6, 7, 8, 10] {
                let (all, bad) = (n(&format!("cells showing {v}")), n(&format!("wrong cells showing {v}")));
                ctx.check(bad <= 20.0 + 0.001 * all, "cells not read", || format!("{bad} of {all} cells showing {v} are not read as that"));
            }
        }),
        assumptions: &["the reader is documented as fallible: judged is the rate over a family of clear pictures (about 998 in 1000 are read exactly on the unchanged tree)", "pictures are drawn, not captured"],
        must_see: &["read_exactly", "read_again", "scraps_refused", "impossible", "lowered_cells", "cells showing 0", "cells showing 1", "cells showing 5", "cells showing 6", "cells showing 7"],
    })
}
