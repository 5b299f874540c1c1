//! C28: merging interchangeable cells and counting solutions of an equation system are exact.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;

type M = Vec<Vec<i32>>;
type P = (usize, usize);

fn check(ctx: &mut Ctx, a: &M, x: &Vec<P>, b: &Vec<i32>, brute: bool) {
    let n = x.len();
    let inp = || format!("A {a:?} x {x:?} b {b:?}");
    let Some((sa, sx, groups)) = ctx.guard("combine", inp, || combine(a, x)) else { return };
    // groups: cells with equal columns, each cell once, in order of their first cells
    let mut want: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        match want.iter_mut().find(|g| a.iter().all(|r| r[g[0]] == r[i])) {
            Some(g) => g.push(i),
            None => want.push(vec![i]),
        }
    }
    if groups != want {
        return ctx.fail("groups", format!("groups {groups:?} instead of {want:?}: {}", inp()));
    }
    let wa: M = a.iter().map(|r| want.iter().map(|g| r[g[0]] * g.len() as i32).collect()).collect();
    let wx: Vec<P> = want.iter().map(|g| x[g[0]]).collect();
    if sa != wa || sx != wx {
        return ctx.fail("squeezed", format!("squeezed {sa:?} {sx:?} instead of {wa:?} {wx:?}: {}", inp()));
    }
    ctx.ev("systems", 1);
    ctx.ev("merged_cells", (n - want.len()) as u64);
    // exact number of solutions by mines, and of those with a given cell a mine
    let mut tot = vec![0u128; n + 1];
    let mut cell = vec![vec![0u128; n]; n + 1];
    if brute {
        let rows: Vec<u32> = a.iter().map(|r| (0..n).filter(|i| r[*i] == 1).fold(0, |m, i| m | 1 << i)).collect();
        for m in 0u32..1 << n {
            if rows.iter().zip(b).all(|(r, b)| (r & m).count_ones() as i32 == *b) {
                let k = m.count_ones() as usize;
                tot[k] += 1;
                for i in 0..n {
                    cell[k][i] += (m >> i & 1) as u128;
                }
            }
        }
    } else {
        let Ok(cs) = comps_from(&[a.clone()], &[x.clone()], &[b.clone()]) else { return ctx.fail("harness", inp()) };
        let Some(k) = cs[0].counts(6000) else { return ctx.ev("skipped_large", 1) };
        for (s, t) in k.total.iter().enumerate() {
            if s <= n {
                tot[s] = *t;
            }
        }
        for i in 0..n {
            let at = x.iter().position(|p| *p == cs[0].cells[i]).unwrap();
            for (s, t) in k.cell[i].iter().enumerate() {
                if s <= n {
                    cell[s][at] = *t;
                }
            }
        }
        if cs[0].merged_leaves(6000).map_or(true, |l| l > 100000) {
            return ctx.ev("skipped_large", 1);
        }
    }
    let Some(got) = ctx.guard("cal_table_minenum_recursion", inp, || cal_table_minenum_recursion(&sa, &sx, b, &groups)) else { return };
    let some: Vec<usize> = (0..=n).filter(|k| tot[*k] > 0).collect();
    match got {
        Err(e) => {
            ctx.check(some.is_empty(), "missing", || format!("error {e} although {} solutions exist: {}", tot.iter().sum::<u128>(), inp()));
            ctx.ev("systems_without_solution", 1);
        }
        Ok((t, tc)) => {
            if some.is_empty() {
                return ctx.fail("invented", format!("solutions {t:?} of a system without any: {}", inp()));
            }
            let (lo, hi) = (some[0], *some.last().unwrap());
            let wn: Vec<usize> = (lo..=hi).collect();
            let wt: Vec<usize> = (lo..=hi).map(|k| tot[k] as usize).collect();
            ctx.check(t[0] == wn && t[1] == wt, "totals", || format!("mines {:?} solutions {:?} instead of {wn:?} {wt:?}: {}", t[0], t[1], inp()));
            let wc: Vec<Vec<usize>> = (lo..=hi).map(|k| want.iter().map(|g| cell[k][g[0]] as usize).collect()).collect();
            ctx.check(tc == wc, "cells", || format!("solutions per cell {tc:?} instead of {wc:?}: {}", inp()));
            ctx.ev("systems_solved", 1);
            if hi > lo && want.len() < n {
                ctx.ev("systems_with_several_mine_counts", 1);
                ctx.seen(hash_bytes(inp().as_bytes()));
            }
        }
    }
    ctx.sample(|| format!("{} solutions: {}", tot.iter().sum::<u128>(), inp()));
}

fn abstract_system(ctx: &mut Ctx) {
    let n = ctx.rng.range(1, 13);
    let k = ctx.rng.range(1, 7);
    let d = 0.15 + ctx.rng.f64() * 0.7;
    let mut a: M = (0..k).map(|_| (0..n).map(|_| ctx.rng.chance(d) as i32).collect()).collect();
    // copies of columns, so that merging matters
    for _ in 0..ctx.rng.below(n + 1) {
        let (i, j) = (ctx.rng.below(n), ctx.rng.below(n));
        for r in a.iter_mut() {
            r[i] = r[j];
        }
    }
    // every number has a cell and every cell a number, as on a board; a number has at most 8 cells
    for r in a.iter_mut() {
        while r.iter().sum::<i32>() > 8 {
            let i = ctx.rng.below(n);
            r[i] = 0;
        }
        if r.iter().all(|x| *x == 0) {
            let i = ctx.rng.below(n);
            r[i] = 1;
        }
    }
    let keep: Vec<usize> = (0..n).filter(|i| a.iter().any(|r| r[*i] == 1)).collect();
    let a: M = a.iter().map(|r| keep.iter().map(|i| r[*i]).collect()).collect();
    let n = keep.len();
    let mut x: Vec<P> = (0..n).map(|i| (i / 5, i % 5)).collect();
    ctx.rng.shuffle(&mut x);
    let sol: Vec<i32> = (0..n).map(|_| ctx.rng.chance(0.4) as i32).collect();
    let mut b: Vec<i32> = a.iter().map(|r| r.iter().zip(&sol).map(|(p, q)| p * q).sum()).collect();
    if ctx.rng.chance(0.25) {
        let i = ctx.rng.below(k);
        b[i] = (b[i] + *ctx.rng.pick(&[-1, 1, 1, 2])).clamp(0, 8);
    }
    check(ctx, &a, &x, &b, true);
}
fn from_boards(ctx: &mut Ctx) {
    let g = gen_visible(&mut ctx.rng, 10, 12, true);
    let Some(s) = ctx.guard("refresh_matrixs", || fmt_board(&g.game), || refresh_matrixs(&g.game)) else { return };
    for i in 0..s.0.len() {
        if s.1[i].is_empty() || s.1[i].len() > 40 || s.0[i].is_empty() {
            continue;
        }
        check(ctx, &s.0[i], &s.1[i], &s.2[i], false);
    }
}

/// equations added one by one to a table of assignments (0, 1, or 2 for not assigned yet)
fn table_steps(ctx: &mut Ctx) {
    let k = ctx.rng.range(1, 9);
    let hidden: Vec<usize> = (0..k).map(|_| ctx.rng.below(2)).collect();
    let mut table = vec![vec![2; k]];
    let mut done: Vec<(Vec<usize>, i32)> = vec![];
    for _ in 0..ctx.rng.range(1, 6) {
        let mut ids: Vec<usize> = (0..k).collect();
        ctx.rng.shuffle(&mut ids);
        ids.truncate(ctx.rng.range(1, 8.min(k)));
        let b = if ctx.rng.chance(0.85) { ids.iter().map(|i| hidden[*i]).sum::<usize>() as i32 } else { ctx.rng.below(9) as i32 };
        done.push((ids.clone(), b));
        let inp = || format!("cells and sums {done:?}");
        let Some(t) = ctx.guard("enuOneStep", inp, || enuOneStep(table.clone(), ids.clone(), b)) else { return };
        let met: Vec<usize> = (0..k).filter(|i| done.iter().any(|d| d.0.contains(i))).collect();
        let mut want: Vec<Vec<usize>> = vec![];
        for m in 0..1usize << met.len() {
            let mut row = vec![2; k];
            for (n, i) in met.iter().enumerate() {
                row[*i] = m >> n & 1;
            }
            if done.iter().all(|d| d.0.iter().map(|i| row[*i]).sum::<usize>() as i32 == d.1) {
                want.push(row);
            }
        }
        want.sort();
        let mut got = t.clone();
        got.sort();
        if !ctx.check(got == want, "table step", || format!("cells and sums {done:?} give {t:?}, expected {want:?}")) {
            return;
        }
        ctx.ev("table_steps", 1);
        ctx.ev("table_rows", t.len() as u64);
        if t.is_empty() {
            ctx.ev("tables_emptied", 1);
            break;
        }
        table = t;
    }
    ctx.seen(hash_bytes(format!("{done:?}").as_bytes()));
    ctx.sample(|| format!("cells and sums {done:?} give {} rows", table.len()));
}

fn main() {
    engine::main(Spec {
        id: "C28",
        rule: "equation systems of random incidence and of board segments; non-trivial when cells merge and several mine counts occur; distinct by system",
        stages: vec![
            Stage { name: "abstract", quick: 250000, thorough: 3000000, f: abstract_system },
            Stage { name: "boards", quick: 60000, thorough: 800000, f: from_boards },
            Stage { name: "tables", quick: 60000, thorough: 800000, f: table_steps },
        ],
        finish: None,
        assumptions: &["every number has a cell and every cell a number (documented: inputs are never empty)"],
        must_see: &["table_steps", "tables_emptied", "merged_cells", "systems_without_solution", "systems_with_several_mine_counts"],
    })
}
