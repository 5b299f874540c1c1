//! C14: revealing cells: numbers, floods, stepped mines and wrong flags, on plain and protected boards.
use ms_toollib::{refresh_board, SafeBoard};
use oracle::*;
use std::collections::BTreeSet;

/// fixpoint definition, independent of any visiting order
fn expect(b: &B, g: &B, clicks: &[(usize, usize)]) -> (B, usize) {
    let (r, c) = (b.len(), b[0].len());
    let mut o: BTreeSet<(usize, usize)> = clicks.iter().cloned().collect();
    loop {
        let mut add = vec![];
        for p in &o {
            if b[p.0][p.1] == 0 {
                for q in neighbours(r, c, p.0, p.1) {
                    if (g[q.0][q.1] == 10 || g[q.0][q.1] == 12) && !o.contains(&q) {
                        add.push(q);
                    }
                }
            }
        }
        if add.is_empty() {
            break;
        }
        o.extend(add);
    }
    let mut out = g.clone();
    let hit = o.iter().any(|p| b[p.0][p.1] == -1);
    for p in &o {
        out[p.0][p.1] = if b[p.0][p.1] == -1 { 15 } else { b[p.0][p.1] };
    }
    if hit {
        for i in 0..r {
            for j in 0..c {
                if out[i][j] == 11 && b[i][j] != -1 {
                    out[i][j] = 14;
                }
            }
        }
    }
    (out, o.len())
}

fn play(ctx: &mut Ctx, b: &B, steps: usize) {
    let (r, c) = (b.len(), b[0].len());
    let sb = SafeBoard::new(b.clone());
    let mut g = vec![vec![10; c]; r];
    let avoid = ctx.rng.chance(0.7);
    let mut hash = hash_board(b);
    for _ in 0..steps {
        // marks change between clicks
        if ctx.rng.chance(0.6) {
            let p = ctx.rng.f64() * 0.3;
            let right = ctx.rng.chance(0.5);
            for i in 0..r {
                for j in 0..c {
                    if ctx.rng.chance(p) {
                        match g[i][j] {
                            10 | 12 if !right || b[i][j] == -1 => g[i][j] = 11,
                            10 if b[i][j] >= 0 && ctx.rng.chance(0.5) => g[i][j] = 12,
                            11 if ctx.rng.chance(0.5) => g[i][j] = 10,
                            _ => (),
                        }
                    }
                }
            }
        }
        let k = *ctx.rng.pick(&[1usize, 1, 1, 2, 3, 8]);
        let mut clicks = vec![];
        for _ in 0..k * 4 {
            let p = (ctx.rng.below(r), ctx.rng.below(c));
            if b[p.0][p.1] == -1 && avoid && !ctx.rng.chance(0.05) {
                continue;
            }
            clicks.push(p);
            if clicks.len() == k {
                break;
            }
        }
        let (want, opened) = expect(b, &g, &clicks);
        let inp = || format!("clicks {clicks:?} on {} of {}", fmt_board(&g), fmt_board(b));
        let (mut a, mut d) = (g.clone(), g.clone());
        if ctx.guard("refresh_board", inp, || {
            refresh_board(b, &mut a, clicks.clone());
            refresh_board(&sb, &mut d, clicks.clone());
        }).is_none() {
            return;
        }
        for (who, x) in [("plain", &a), ("protected", &d)] {
            if x != &want {
                let (i, j) = (0..r * c).map(|t| (t / c, t % c)).find(|p| x[p.0][p.1] != want[p.0][p.1]).unwrap();
                ctx.fail(format!("{who}:{}:{}", want[i][j].clamp(0, 20), x[i][j].clamp(0, 20)), format!("({i},{j}) shows {} instead of {}: {}", x[i][j], want[i][j], inp()));
                return;
            }
        }
        ctx.ev("reveals", 1);
        ctx.ev("cells_opened", opened as u64);
        ctx.ev("mines_stepped_on", clicks.iter().filter(|p| b[p.0][p.1] == -1).count() as u64);
        ctx.ev("wrong_flags_shown", want.iter().flatten().filter(|x| **x == 14).count() as u64);
        if opened > clicks.len() {
            ctx.ev("floods", 1);
            if g.iter().flatten().any(|x| *x == 11) {
                ctx.ev("floods_among_flags", 1);
            }
            hash = mix(hash, hash_board(&want));
            ctx.seen(hash);
        }
        ctx.sample(|| format!("{opened} opened by {inp}", inp = inp()));
        g = want;
    }
}

fn random(ctx: &mut Ctx) {
    let (r, c) = match ctx.rng.below(5) {
        0 => (ctx.rng.range(1, 5), ctx.rng.range(1, 5)),
        1 => (1, ctx.rng.range(1, 60)),
        2 => (ctx.rng.range(1, 60), 1),
        3 => *ctx.rng.pick(&[(8, 8), (16, 16), (16, 30)]),
        _ => (ctx.rng.range(2, 30), ctx.rng.range(2, 40)),
    };
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(r * c + 1),
        _ => (r * c) * ctx.rng.range(2, 25) / 100,
    };
    let b = random_board(&mut ctx.rng, r, c, n);
    let k = ctx.rng.range(1, 12);
    play(ctx, &b, k);
}
fn shaped(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 40), ctx.rng.range(1, 60));
    let b = shaped_board(&mut ctx.rng, r, c);
    let k = ctx.rng.range(1, 12);
    play(ctx, &b, k);
}

fn main() {
    engine::main(Spec {
        id: "C14",
        rule: "sequences of reveals on random and shaped boards while marks come and go; non-trivial when a reveal floods; distinct by board and sequence of visible boards",
        stages: vec![
            Stage { name: "random", quick: 30000, thorough: 900000, f: random },
            Stage { name: "shaped", quick: 9000, thorough: 250000, f: shaped },
        ],
        finish: None,
        assumptions: &["clicked cells lie on the board"],
        must_see: &["floods", "floods_among_flags", "mines_stepped_on", "wrong_flags_shown"],
    })
}
