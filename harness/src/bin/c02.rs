//! C02: board metrics (openings, islands, 3BV, number counts), plain and protected boards.
use ms_toollib::{cal_bbbv, cal_cell_nums, cal_isl, cal_op, SafeBoard};
use oracle::*;

fn check(ctx: &mut Ctx, b: &B) {
    let (op, isl, bv, cn) = (openings(b), islands(b), bbbv(b), cell_nums(b));
    let sb = SafeBoard::new(b.clone());
    let inp = || fmt_board(b);
    let got = ctx.guard("metrics", inp, || {
        (cal_op(b), cal_isl(b), cal_bbbv(b), cal_cell_nums(b), cal_op(&sb), cal_isl(&sb), cal_bbbv(&sb), cal_cell_nums(&sb))
    });
    if let Some(g) = got {
        ctx.ev("boards", 1);
        ctx.ev("cells", (b.len() * b[0].len()) as u64);
        ctx.ev("openings_seen", op as u64);
        ctx.ev("islands_seen", isl as u64);
        ctx.ev("eights_seen", cn[8] as u64);
        ctx.check(g.0 == op, "op", || format!("openings {} expected {op}: {}", g.0, fmt_board(b)));
        ctx.check(g.1 == isl, "isl", || format!("islands {} expected {isl}: {}", g.1, fmt_board(b)));
        ctx.check(g.2 == bv, "bbbv", || format!("3BV {} expected {bv}: {}", g.2, fmt_board(b)));
        ctx.check(g.3 == cn, "cells", || format!("number counts {:?} expected {cn:?}: {}", g.3, fmt_board(b)));
        ctx.check(g.4 == op && g.5 == isl && g.6 == bv && g.7 == cn, "protected", || format!("protected board gives {:?} expected {:?}: {}", (g.4, g.5, g.6, g.7), (op, isl, bv, cn), fmt_board(b)));
        ctx.sample(|| format!("op {op} isl {isl} 3BV {bv} counts {cn:?}: {}", fmt_board(b)));
        if op + isl > 1 {
            ctx.seen(hash_board(b));
        }
    }
}

fn random(ctx: &mut Ctx) {
    let (r, c) = match ctx.rng.below(5) {
        0 => (ctx.rng.range(1, 5), ctx.rng.range(1, 5)),
        1 => (1, ctx.rng.range(1, 50)),
        2 => (ctx.rng.range(1, 50), 1),
        3 => *ctx.rng.pick(&[(8, 8), (16, 16), (16, 30)]),
        _ => (ctx.rng.range(2, 30), ctx.rng.range(2, 40)),
    };
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(r * c + 1),
        _ => (r * c) * ctx.rng.range(2, 30) / 100,
    };
    let b = random_board(&mut ctx.rng, r, c, n);
    check(ctx, &b);
}

fn shaped(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 40), ctx.rng.range(1, 60));
    let b = shaped_board(&mut ctx.rng, r, c);
    check(ctx, &b);
}

/// all boards of small sizes: sizes with at most 12 cells completely
fn exhaustive(ctx: &mut Ctx) {
    let sizes = [(1, 12), (2, 6), (3, 4), (4, 3), (6, 2), (12, 1), (1, 7), (3, 3), (2, 5), (1, 1)];
    let (r, c) = sizes[ctx.rng.below(sizes.len())];
    // a random aligned block of 64 masks of that size
    let total = 1usize << (r * c);
    let blocks = (total + 63) / 64;
    let k = ctx.rng.below(blocks);
    for bits in k * 64..((k + 1) * 64).min(total) {
        let m: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| bits >> (i * c + j) & 1 == 1).collect()).collect();
        check(ctx, &numbered(&m));
    }
}

/// one enormous opening: the computation must terminate normally at any board size in use (files hold
/// up to 256 x 256), on a thread with the stack Rust gives threads by default
fn huge(ctx: &mut Ctx) {
    let (r, c) = match ctx.rng.below(3) {
        0 => (ctx.rng.range(60, 110), ctx.rng.range(60, 110)),
        1 => (ctx.rng.range(110, 256), ctx.rng.range(110, 256)),
        _ => *ctx.rng.pick(&[(256, 256), (255, 255), (256, 100)]),
    };
    let k = if ctx.rng.chance(0.5) { ctx.rng.below(6) } else { r * c * ctx.rng.range(1, 60) / 1000 };
    let mut m = vec![vec![false; c]; r];
    for _ in 0..k {
        m[ctx.rng.below(r)][ctx.rng.below(c)] = true;
    }
    let b = numbered(&m);
    ctx.ev("boards_on_a_small_stack", 1);
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || check(ctx, &b)).unwrap().join().unwrap()
    });
}

fn main() {
    oracle::engine::main(Spec {
        id: "C02",
        rule: "boards of random size and density, hostile shapes (snakes, rings, combs, stripes, empty, full), blocks of all boards of small sizes and huge openings; non-trivial when it has at least two openings/islands in total; distinct by content",
        stages: vec![
            Stage { name: "random", quick: 60000, thorough: 1500000, f: random },
            Stage { name: "shaped", quick: 15000, thorough: 300000, f: shaped },
            Stage { name: "exhaustive", quick: 6000, thorough: 60000, f: exhaustive },
            Stage { name: "huge", quick: 60, thorough: 1000, f: huge },
        ],
        finish: None,
        assumptions: &["the input is a correctly numbered board"],
        must_see: &["boards", "boards_on_a_small_stack", "openings_seen", "islands_seen", "eights_seen"],
    })
}
