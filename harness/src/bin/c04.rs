//! C04: the protected board is indistinguishable from the plain one, and hides the plain values.
use ms_toollib::{cal_bbbv, is_solvable, refresh_board, SafeBoard, SafeBoardRow};
use oracle::*;

fn roundtrip(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 24), ctx.rng.range(1, 32));
    let arbitrary = ctx.rng.chance(0.5);
    let b: B = if arbitrary {
        // every code the protected board can carry
        (0..r).map(|_| (0..c).map(|_| *ctx.rng.pick(&[-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16])).collect()).collect()
    } else {
        shaped_board(&mut ctx.rng, r, c)
    };
    let inp = || fmt_board(&b);
    let mut s = match ctx.guard("SafeBoard::new", inp, || SafeBoard::new(b.clone())) {
        Some(s) => s,
        None => return,
    };
    if ctx.rng.chance(0.3) {
        // replaced through set, from another content and size
        let (r2, c2) = (ctx.rng.range(1, 9), ctx.rng.range(1, 9));
        let o = shaped_board(&mut ctx.rng, r2, c2);
        s = SafeBoard::new(o);
        let walked = ctx.rng.below(r2 + 2);
        for _ in 0..walked {
            // partly or wholly read through its iterator before
            s.next();
        }
        if walked > 0 {
            ctx.ev("set_after_iterating", 1);
        }
        let bb = b.clone();
        if ctx.guard("SafeBoard::set", inp, || s.set(bb)).is_none() {
            return;
        }
        ctx.ev("set", 1);
    }
    if ctx.rng.chance(0.3) {
        s = s.clone();
    }
    let got = ctx.guard("SafeBoard", inp, || {
        let v = s.into_vec_vec();
        let idx: B = (0..r).map(|i| (0..c).map(|j| s[i][j]).collect()).collect();
        let rows: B = (0..r).map(|i| s[i].into_vec()).collect();
        let iter: B = s.clone().map(|row| row.collect::<Vec<i32>>()).collect();
        let iter_rows: B = s.clone().map(|row| row.into_vec()).collect();
        let row_iter: B = (0..r).map(|i| SafeBoardRow::new(b[i].clone()).collect()).collect();
        let lens: Vec<usize> = (0..r).map(|i| s[i].len()).collect();
        (v, idx, rows, iter, iter_rows, row_iter, lens)
    });
    if let Some(g) = got {
        ctx.ev("cells", (r * c) as u64);
        ctx.check(g.0 == b, "into_vec_vec", || format!("unprotecting gives {} for {}", fmt_board(&g.0), fmt_board(&b)));
        ctx.check(g.1 == b, "index", || format!("indexing gives {} for {}", fmt_board(&g.1), fmt_board(&b)));
        ctx.check(g.2 == b, "row:into_vec", || format!("rows give {} for {}", fmt_board(&g.2), fmt_board(&b)));
        ctx.check(g.3 == b, "iterate", || format!("iterating gives {} for {}", fmt_board(&g.3), fmt_board(&b)));
        ctx.check(g.4 == b, "iterate:rows", || format!("iterating rows gives {} for {}", fmt_board(&g.4), fmt_board(&b)));
        ctx.check(g.5 == b, "row:iterate", || format!("iterating a row gives {} for {}", fmt_board(&g.5), fmt_board(&b)));
        ctx.check(g.6.iter().all(|x| *x == c), "len", || format!("row lengths {:?} for {c} columns", g.6));
        // reading never changes it
        ctx.check(s.into_vec_vec() == b, "stable", || "a second read differs".into());
        ctx.sample(|| fmt_board(&b));
        ctx.seen(hash_board(&b));
    }
}

/// the algorithms accept both representations and give the same results
fn algorithms(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(2, 20), ctx.rng.range(2, 20));
    let n = r * c * ctx.rng.range(0, 35) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let s = SafeBoard::new(b.clone());
    let mut g = vec![vec![10; c]; r];
    for x in g.iter_mut().flatten() {
        if ctx.rng.chance(0.1) {
            *x = *ctx.rng.pick(&[11, 12]);
        }
    }
    let clicks: Vec<(usize, usize)> = (0..ctx.rng.range(1, 5)).map(|_| (ctx.rng.below(r), ctx.rng.below(c))).collect();
    let (mut a, mut d) = (g.clone(), g.clone());
    let out = ctx.guard("algorithms", || fmt_board(&b), || {
        refresh_board(&b, &mut a, clicks.clone());
        refresh_board(&s, &mut d, clicks.clone());
        (cal_bbbv(&b), cal_bbbv(&s))
    });
    if let Some(o) = out {
        ctx.ev("algorithm_pairs", 1);
        ctx.check(a == d, "reveal", || format!("clicks {clicks:?}: plain {} protected {}", fmt_board(&a), fmt_board(&d)));
        ctx.check(o.0 == o.1, "bbbv", || format!("3BV plain {} protected {}", o.0, o.1));
    }
    let _ = is_solvable;
}

/// stored words of one value vary: a memory scan for a fixed pattern finds no mine map
fn hiding(ctx: &mut Ctx) {
    let n = 400;
    let v = ctx.rng.irange(-1, 8) as i32;
    let s = SafeBoard::new(vec![vec![v; n]]);
    let t = format!("{:?}", s);
    // the debug form prints the stored words: value_1: [...], value_2: [...], value_3: [...]
    let mut words: Vec<Vec<i64>> = vec![];
    for part in ["value_1: [", "value_2: [", "value_3: ["] {
        if let Some(i) = t.find(part) {
            let rest = &t[i + part.len()..];
            let e = rest.find(']').unwrap_or(0);
            words.push(rest[..e].split(',').filter_map(|x| x.trim().parse().ok()).collect());
        }
    }
    if words.len() != 3 || words.iter().any(|w| w.len() != n) {
        ctx.ev("hiding_not_observable", 1);
        return;
    }
    ctx.ev("stored_words", 3 * n as u64);
    for (k, w) in words.iter().enumerate() {
        let d: std::collections::HashSet<i64> = w.iter().cloned().collect();
        ctx.check(d.len() > n / 2, "hiding", || format!("word {k} of value {v} takes only {} values over {n} cells", d.len()));
    }
}

fn main() {
    oracle::engine::main(Spec {
        id: "C04",
        rule: "boards over every storable cell code, random sizes; distinct by content; every access path (index, row, iteration, conversion, replacement, clone)",
        stages: vec![
            Stage { name: "roundtrip", quick: 60000, thorough: 1000000, f: roundtrip },
            Stage { name: "algorithms", quick: 20000, thorough: 300000, f: algorithms },
            Stage { name: "hiding", quick: 200, thorough: 2000, f: hiding },
        ],
        finish: None,
        assumptions: &["cell codes -3..=8 and 10..=16"],
        must_see: &["cells", "set", "set_after_iterating", "algorithm_pairs", "stored_words"],
    })
}
