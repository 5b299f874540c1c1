//! C06: deduction is sound, marks what it reports, and keeps the equation systems equivalent.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;
use std::collections::{BTreeSet, HashMap};

type P = (usize, usize);
type Sys = (Vec<Vec<Vec<i32>>>, Vec<Vec<P>>, Vec<Vec<i32>>);
const CAP: usize = 20000;

/// what single equations say / what pairs of equations say
fn direct_says(s: &Sys) -> (BTreeSet<P>, BTreeSet<P>) {
    let (mut n, mut m) = (BTreeSet::new(), BTreeSet::new());
    for i in 0..s.1.len() {
        for (row, b) in s.0[i].iter().zip(&s.2[i]) {
            let v: Vec<P> = (0..row.len()).filter(|k| row[*k] == 1).map(|k| s.1[i][k]).collect();
            if *b == 0 {
                n.extend(v);
            } else if *b == v.len() as i32 {
                m.extend(v);
            }
        }
    }
    (n, m)
}
fn pairs_say(s: &Sys) -> (BTreeSet<P>, BTreeSet<P>) {
    let (mut n, mut m) = (BTreeSet::new(), BTreeSet::new());
    for i in 0..s.1.len() {
        let rows: Vec<(BTreeSet<P>, i32)> = s.0[i]
            .iter()
            .zip(&s.2[i])
            .map(|(row, b)| ((0..row.len()).filter(|k| row[*k] == 1).map(|k| s.1[i][k]).collect(), *b))
            .collect();
        for p in &rows {
            for q in &rows {
                if p.0.intersection(&q.0).next().is_none() {
                    continue;
                }
                if p.0.difference(&q.0).count() as i32 == p.1 - q.1 {
                    m.extend(p.0.difference(&q.0).cloned());
                    n.extend(q.0.difference(&p.0).cloned());
                }
            }
        }
    }
    (n, m)
}

struct Watch<'a> {
    forced: &'a HashMap<P, Forced>,
    start: &'a B,
}

impl<'a> Watch<'a> {
    /// every reported cell is implied; marks are exactly the reported cells on top of `before`
    fn reported(&self, ctx: &mut Ctx, who: &str, before: &B, after: Option<&B>, ans: &(Vec<P>, Vec<P>)) {
        for (list, f, code) in [(&ans.0, Forced::Safe, 12), (&ans.1, Forced::Mine, 11)] {
            for p in list {
                ctx.ev("deductions", 1);
                let k = self.forced.get(p);
                if k != Some(&f) {
                    ctx.fail(format!("{who}:unsound"), format!("{who} reports {p:?} as {f:?}; the numbers say {k:?}: {}", fmt_board(self.start)));
                }
                let _ = code;
            }
        }
        if let Some(a) = after {
            let mut want = before.clone();
            for p in &ans.0 {
                want[p.0][p.1] = 12;
            }
            for p in &ans.1 {
                want[p.0][p.1] = 11;
            }
            if *a != want {
                ctx.fail(format!("{who}:marks"), format!("{who} leaves {} where its answer {ans:?} asks for {} (start {})", fmt_board(a), fmt_board(&want), fmt_board(self.start)));
            }
        }
    }
    /// after an engine ran, the remaining system plus the reported cells has the solutions of the system before
    fn equivalent(&self, ctx: &mut Ctx, who: &str, before: &Sys, after: &Sys, ans: &(Vec<P>, Vec<P>), board: &B) {
        let c0 = match comps_from(&before.0, &before.1, &before.2) {
            Ok(c) => c,
            Err(e) => return ctx.fail(format!("{who}:input"), e),
        };
        let c1 = match comps_from(&after.0, &after.1, &after.2) {
            Ok(c) => c,
            Err(e) => return ctx.fail(format!("{who}:system"), format!("after {who}: {e}: {}", fmt_board(self.start))),
        };
        let x0: BTreeSet<P> = before.1.iter().flatten().cloned().collect();
        let mut x1: BTreeSet<P> = after.1.iter().flatten().cloned().collect();
        for p in &x1 {
            if board[p.0][p.1] != 10 {
                ctx.fail(format!("{who}:system"), format!("after {who} the marked cell {p:?} is still unknown in the system: {}", fmt_board(self.start)));
            }
        }
        x1.extend(ans.0.iter().cloned());
        x1.extend(ans.1.iter().cloned());
        if x0 != x1 {
            return ctx.fail(format!("{who}:cells"), format!("after {who} the unknown cells are lost or invented: {:?}: {}", x0.symmetric_difference(&x1), fmt_board(self.start)));
        }
        for c in &c1 {
            if !connected(c) {
                ctx.fail(format!("{who}:segments"), format!("after {who} a segment is not in one piece {c:?}: {}", fmt_board(self.start)));
            }
        }
        let mines: BTreeSet<P> = ans.1.iter().cloned().collect();
        if let (Some(a), Some(b)) = (solutions(&c0, 0, CAP), solutions(&c1, mines.len(), CAP)) {
            ctx.ev("systems_compared", 1);
            if a != b {
                ctx.fail(format!("{who}:equivalence"), format!("after {who} the system has solutions {b:?} by mine count, before {a:?}: {}", fmt_board(self.start)));
            }
        } else {
            ctx.ev("systems_too_large_to_count", 1);
        }
    }
}

fn strength(ctx: &mut Ctx, who: &str, want: (BTreeSet<P>, BTreeSet<P>), ans: &(Vec<P>, Vec<P>), g: &B) {
    for p in &want.0 {
        if !ans.0.contains(p) {
            ctx.fail(format!("{who}:missed"), format!("{who} does not report {p:?} as safe: {}", fmt_board(g)));
        }
    }
    for p in &want.1 {
        if !ans.1.contains(p) {
            ctx.fail(format!("{who}:missed"), format!("{who} does not report {p:?} as a mine: {}", fmt_board(g)));
        }
    }
}

fn check(ctx: &mut Ctx, g: &B) {
    let an = match Analysis::new(g, CAP) {
        Some(a) => a,
        None => return ctx.ev("skipped_large", 1),
    };
    if !an.consistent() {
        return ctx.fail("harness", format!("generator made an illegal board {}", fmt_board(g)));
    }
    let forced = an.forced();
    let w = Watch { forced: &forced, start: g };
    let leaves_ok = an.model.comps.iter().all(|c| c.merged_leaves(5000).map_or(false, |l| l < 20000));
    let inp = || fmt_board(g);
    // a random programme of engine calls on one system
    let mut board = g.clone();
    let mut sys: Sys = {
        let Some(s) = ctx.guard("refresh_matrixs", inp, || refresh_matrixs(g)) else { return };
        (s.0, s.1, s.2)
    };
    let mut prog = vec![];
    for _ in 0..ctx.rng.range(1, 6) {
        let before = sys.clone();
        let bb = board.clone();
        let ops: &[usize] = if leaves_ok { &[0, 0, 1, 1, 2, 3] } else { &[0, 1] };
        let op = *ctx.rng.pick(ops);
        prog.push(op);
        let who = ["solve_direct", "solve_minus", "solve_enumerate", "get_all"][op];
        ctx.ev(who, 1);
        // an empty system is a legal input of every engine
        let r = ctx.guard(who, inp, || match op {
            0 => solve_direct(&mut sys.0, &mut sys.1, &mut sys.2, &mut board),
            1 => solve_minus(&mut sys.0, &mut sys.1, &mut sys.2, &mut board),
            2 => Ok(solve_enumerate(&sys.0, &sys.1, &sys.2)),
            _ => Ok(get_all_not_and_is_mine_on_board(&mut sys.0, &mut sys.1, &mut sys.2, &mut board)),
        });
        let Some(r) = r else { return };
        let ans = match r {
            Ok(a) => a,
            Err(e) => return ctx.fail(format!("{who}:error"), format!("{who} gives error {e} on a legal board {} (calls {prog:?})", fmt_board(g))),
        };
        match op {
            2 => {
                w.reported(ctx, who, &bb, Some(&board), &(vec![], vec![]));
                w.reported(ctx, who, &bb, None, &ans);
                ctx.check(sys == before, "enumerate:input", || format!("the enumeration changed its input: {}", fmt_board(g)));
            }
            3 => {
                w.reported(ctx, who, &bb, None, &ans);
                // the marks on the board are a subset of what is reported
                for i in 0..g.len() {
                    for j in 0..g[0].len() {
                        if board[i][j] != bb[i][j] {
                            let ok = bb[i][j] == 10 && (board[i][j] == 12 && ans.0.contains(&(i, j)) || board[i][j] == 11 && ans.1.contains(&(i, j)));
                            ctx.check(ok, "get_all:marks", || format!("{:?} became {} but is not reported so: {}", (i, j), board[i][j], fmt_board(g)));
                        }
                    }
                }
                let on: (Vec<P>, Vec<P>) = {
                    let d = |code| (0..g.len()).flat_map(|i| (0..g[0].len()).map(move |j| (i, j))).filter(|p| board[p.0][p.1] == code && bb[p.0][p.1] == 10).collect();
                    (d(12), d(11))
                };
                w.equivalent(ctx, who, &before, &sys, &on, &board);
            }
            _ => {
                w.reported(ctx, who, &bb, Some(&board), &ans);
                w.equivalent(ctx, who, &before, &sys, &ans, &board);
                let want = if op == 0 { direct_says(&before) } else { pairs_say(&before) };
                strength(ctx, who, want, &ans, g);
            }
        }
        if !ctx.fails.is_empty() {
            return;
        }
    }
    // the marking entry point
    let mut b2 = g.clone();
    if let Some(r) = ctx.guard("mark_board", inp, || mark_board(&mut b2)) {
        ctx.ev("mark_board", 1);
        ctx.check(r.is_ok(), "mark_board:error", || format!("mark_board gives {r:?} on a legal board {}", fmt_board(g)));
        let mut n = 0;
        for i in 0..g.len() {
            for j in 0..g[0].len() {
                if b2[i][j] != g[i][j] {
                    n += 1;
                    let f = forced.get(&(i, j));
                    let ok = g[i][j] == 10 && (b2[i][j] == 12 && f == Some(&Forced::Safe) || b2[i][j] == 11 && f == Some(&Forced::Mine));
                    ctx.check(ok, "mark_board:unsound", || format!("mark_board makes {:?} {} ({f:?}): {}", (i, j), b2[i][j], fmt_board(g)));
                }
            }
        }
        let s0 = refresh_matrixs(g);
        let (n0, m0) = direct_says(&(s0.0, s0.1, s0.2));
        let ok = n0.iter().all(|p| b2[p.0][p.1] == 12) && m0.iter().all(|p| b2[p.0][p.1] == 11);
        ctx.check(ok, "mark_board:missed", || format!("mark_board leaves a cell decided by a single number unmarked: {} -> {}", fmt_board(g), fmt_board(&b2)));
        if n > 0 {
            ctx.seen(hash_board(g));
        }
    }
    ctx.sample(|| format!("calls {prog:?}, {} cells decided by the numbers: {}", forced.values().filter(|f| **f != Forced::Open).count(), fmt_board(g)));
}

fn opened(ctx: &mut Ctx) {
    let marks = ctx.rng.chance(0.5);
    let g = gen_visible(&mut ctx.rng, 12, 14, marks);
    check(ctx, &g.game);
}
fn large(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[(16usize, 16usize, 40usize), (16, 30, 99), (8, 8, 10), (24, 20, 80)]);
    let b = random_board(&mut ctx.rng, n.0, n.1, n.2);
    let g = gen_visible_from(&mut ctx.rng, b, true);
    check(ctx, &g.game);
}
fn scattered(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(2, 9), ctx.rng.range(2, 10));
    let n = (r * c) * ctx.rng.range(10, 70) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    let p = ctx.rng.f64();
    let pm = if ctx.rng.chance(0.4) { ctx.rng.f64() } else { 0.0 };
    let mut g = vec![vec![10; c]; r];
    for i in 0..r {
        for j in 0..c {
            if b[i][j] > 0 && ctx.rng.chance(p) {
                g[i][j] = b[i][j];
            } else if b[i][j] == -1 && ctx.rng.chance(pm) {
                g[i][j] = 11;
            }
        }
    }
    check(ctx, &g);
}

fn main() {
    engine::main(Spec {
        id: "C06",
        rule: "legal visible boards (legal play, scattered numbers, correct marks) under random programmes of up to six engine calls on one system; non-trivial when at least one cell was marked; distinct by content",
        stages: vec![
            Stage { name: "opened", quick: 26000, thorough: 700000, f: opened },
            Stage { name: "large", quick: 1500, thorough: 40000, f: large },
            Stage { name: "scattered", quick: 26000, thorough: 700000, f: scattered },
        ],
        finish: None,
        assumptions: &["the visible boards are legal and their marks are right", "solution counts are compared by a dynamic programme with at most 20000 states per step; larger systems are only checked for soundness"],
        must_see: &["deductions", "systems_compared", "solve_direct", "solve_minus", "solve_enumerate", "get_all", "mark_board"],
    })
}
