//! C10: opening probabilities are exact.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;

const CAP: usize = 20000;

fn affordable(m: &Model) -> bool {
    m.comps.iter().all(|c| {
        c.cells.len() <= 55
            && c.merged_leaves(4000).map_or(false, |l| l < 4000)
            && c.count(&c.order(), &vec![None; c.cells.len()], CAP).is_some()
    })
}

/// probability that the cell and everything around it is free, by successive conditioning on an independent counter
fn exact(g: &B, total: usize, x: usize, y: usize) -> Option<f64> {
    if g[x][y] < 10 {
        return Some(0.0);
    }
    let (r, c) = (g.len(), g[0].len());
    let mut win = neighbours(r, c, x, y);
    win.push((x, y));
    if win.iter().any(|p| g[p.0][p.1] == 11) {
        return Some(0.0);
    }
    let mut b = g.clone();
    let mut p = 1.0;
    for q in win {
        if g[q.0][q.1] != 10 {
            continue;
        }
        let po = posterior(&b, total, 55, CAP)??;
        p *= 1.0 - po.frontier.get(&q).cloned().unwrap_or(po.inner);
        if p < 1e-11 {
            return Some(0.0);
        }
        b[q.0][q.1] = 12;
    }
    Some(p)
}

fn ask(ctx: &mut Ctx, g: &B, arg: f64, cells: &Vec<[usize; 2]>, want: &[f64]) {
    let inp = || format!("mines {arg} cells {cells:?} on {}", fmt_board(g));
    if let Some(v) = ctx.guard("cal_is_op_possibility_cells", inp, || cal_is_op_possibility_cells(g, arg, cells)) {
        ctx.check(v.len() == want.len(), "length", || format!("{} answers for {} cells: {}", v.len(), want.len(), inp()));
        for k in 0..v.len().min(want.len()) {
            ctx.ev("cells", 1);
            if want[k] > 1e-9 && want[k] < 1.0 - 1e-9 {
                ctx.ev("uncertain_openings", 1);
                ctx.seen(mix(hash_board(g), mix(arg.to_bits(), (cells[k][0] * 1000 + cells[k][1]) as u64)));
            }
            if !((v[k] - want[k]).abs() < 1e-8) {
                ctx.fail("value", format!("cell {:?} opens with probability {}, exactly {}: {}", cells[k], v[k], want[k], inp()));
            }
        }
        ctx.sample(|| format!("{v:?} {}", inp()));
    }
}

fn check(ctx: &mut Ctx, v: Gen) {
    let g = v.game;
    if v.mines == 0 || !affordable(&model(&g)) {
        return ctx.ev("skipped_large", 1);
    }
    // prefer unopened cells, with some opened ones
    let mut cells = vec![];
    for _ in 0..ctx.rng.range(1, 3) {
        let mut p = [ctx.rng.below(g.len()), ctx.rng.below(g[0].len())];
        for _ in 0..10 {
            if g[p[0]][p[1]] == 10 {
                break;
            }
            if ctx.rng.chance(0.05) {
                break;
            }
            p = [ctx.rng.below(g.len()), ctx.rng.below(g[0].len())];
        }
        cells.push(p);
    }
    let want: Vec<Option<f64>> = cells.iter().map(|p| exact(&g, v.mines, p[0], p[1])).collect();
    if want.iter().any(|w| w.is_none()) {
        return ctx.ev("skipped_large", 1);
    }
    let want: Vec<f64> = want.into_iter().map(|x| x.unwrap()).collect();
    ask(ctx, &g, v.mines as f64, &cells, &want);
    // the same count given as a share of the board
    let area = (g.len() * g[0].len()) as f64;
    let d = (v.mines as f64 + 0.5) / area;
    if d < 1.0 && want.iter().all(|w| *w > 1e-6) {
        ctx.ev("by_density", 1);
        ask(ctx, &g, d, &cells, &want);
    }
}

fn opened(ctx: &mut Ctx) {
    let marks = ctx.rng.chance(0.5);
    let v = gen_visible(&mut ctx.rng, 9, 10, marks);
    check(ctx, v);
}
fn marked(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[(8usize, 8usize, 10usize), (16, 16, 40), (9, 9, 10)]);
    let b = random_board(&mut ctx.rng, n.0, n.1, n.2);
    let mut v = gen_visible_from(&mut ctx.rng, b, false);
    if ctx.guard("mark_board", || String::new(), || mark_board(&mut v.game).is_ok()) == Some(true) {
        check(ctx, v);
    }
}
/// many small segments
fn islands(ctx: &mut Ctx) {
    let v = gen_islands(&mut ctx.rng);
    if model(&v.game).comps.len() >= 12 {
        ctx.ev("boards_with_12_or_more_segments", 1);
    }
    check(ctx, v);
}
fn brute(ctx: &mut Ctx) {
    let mut v = gen_visible(&mut ctx.rng, 5, 5, true);
    let mut k = 0;
    while v.game.iter().flatten().filter(|x| **x == 10).count() > 13 || v.mines == 0 {
        v = gen_visible(&mut ctx.rng, 5, 5, true);
        k += 1;
        if k > 50 {
            return;
        }
    }
    let g = v.game;
    let (r, c) = (g.len(), g[0].len());
    let all: Vec<_> = brute_layouts(&g).into_iter().filter(|m| m.iter().flatten().filter(|x| **x).count() == v.mines).collect();
    let cells: Vec<[usize; 2]> = (0..r * c).map(|k| [k / c, k % c]).collect();
    let want: Vec<f64> = cells
        .iter()
        .map(|p| {
            if g[p[0]][p[1]] < 10 {
                return 0.0;
            }
            let mut w = neighbours(r, c, p[0], p[1]);
            w.push((p[0], p[1]));
            all.iter().filter(|m| w.iter().all(|q| !m[q.0][q.1])).count() as f64 / all.len() as f64
        })
        .collect();
    ctx.ev("enumerated_layouts", all.len() as u64);
    ask(ctx, &g, v.mines as f64, &cells, &want);
}

fn main() {
    engine::main(Spec {
        id: "C10",
        rule: "legal visible boards with the true mine count, as a count and as a share of the board; non-trivial when the opening is neither certain nor impossible; distinct by board, argument and cell",
        stages: vec![
            Stage { name: "opened", quick: 50000, thorough: 900000, f: opened },
            Stage { name: "marked", quick: 5000, thorough: 90000, f: marked },
            Stage { name: "islands", quick: 600, thorough: 15000, f: islands },
            Stage { name: "brute", quick: 15000, thorough: 300000, f: brute },
        ],
        finish: None,
        assumptions: &["all layouts with the given total that match the board are equally likely", "border segments up to 55 cells; expensive positions are skipped", "agreement within 1e-8"],
        must_see: &["uncertain_openings", "by_density", "boards_with_12_or_more_segments", "enumerated_layouts"],
    })
}
