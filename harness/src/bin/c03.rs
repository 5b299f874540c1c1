//! C03: caching wrappers answer the same for every query history.
use ms_toollib::{Board, GameBoard};
use oracle::solver::*;
use oracle::*;
use std::collections::{BTreeSet, HashMap};

fn board_hist(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 14), ctx.rng.range(1, 14));
    let b = if ctx.rng.chance(0.5) {
        shaped_board(&mut ctx.rng, r, c)
    } else {
        let n = r * c * ctx.rng.range(3, 50) / 100;
        random_board(&mut ctx.rng, r, c, n)
    };
    let (op, isl, bv, cn) = (openings(&b), islands(&b), bbbv(&b), cell_nums(&b));
    let mut w = Board::new(b.clone());
    let mut hist = vec![];
    let n = ctx.rng.range(1, 30);
    for _ in 0..n {
        let q = ctx.rng.weighted(&[4, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1]);
        let (name, want): (String, usize) = match q {
            0 => ("bbbv".into(), bv),
            1 => ("op".into(), op),
            2 => ("isl".into(), isl),
            k => (format!("cell{}", k - 3), cn[k - 3]),
        };
        hist.push(name.clone());
        if ctx.rng.chance(0.05) {
            hist.push("clone".into());
            w = w.clone();
        }
        let hs = hist.join(",");
        let bb = b.clone();
        let got = ctx.guard("Board", || format!("queries {hs} on {}", fmt_board(&bb)), || match q {
            0 => w.get_bbbv(),
            1 => w.get_op(),
            2 => w.get_isl(),
            3 => w.get_cell0(),
            4 => w.get_cell1(),
            5 => w.get_cell2(),
            6 => w.get_cell3(),
            7 => w.get_cell4(),
            8 => w.get_cell5(),
            9 => w.get_cell6(),
            10 => w.get_cell7(),
            11 => w.get_cell8(),
            _ => unreachable!(),
        }.clone());
        let got = match got {
            Some(g) => g,
            None => return,
        };
        ctx.ev("board_queries", 1);
        if !ctx.check(got == want, &format!("Board:{name}"), || format!("after queries [{hs}] {name} = {got}, expected {want}; board {}", fmt_board(&b))) {
            return;
        }
    }
    ctx.check(w.board == b, "Board:board", || "the wrapped board changed".into());
    ctx.seen(mix(hash_board(&b), hash_bytes(hist.join(",").as_bytes())));
    ctx.sample(|| format!("{} -> 3BV {bv} op {op} isl {isl}, queries {}", fmt_board(&b), hist.join(",")));
}

struct Exp {
    safe: BTreeSet<(usize, usize)>,
    mine: BTreeSet<(usize, usize)>,
    poss: Option<Vec<Vec<f64>>>,
}

fn clean(g: &B) -> B {
    g.iter().map(|r| r.iter().map(|x| if *x > 10 { 10 } else { *x }).collect()).collect()
}

/// what the wrapper must report about a position, from the reference solver
fn expect(g: &B, total: usize) -> Option<Exp> {
    let g = clean(g);
    let an = Analysis::new(&g, 4000)?;
    if !an.consistent() || an.max_segment() > 55 {
        return None;
    }
    for c in &an.model.comps {
        if c.merged_leaves(20000)? > 100_000 {
            return None;
        }
    }
    let mut e = Exp { safe: BTreeSet::new(), mine: BTreeSet::new(), poss: None };
    for (p, f) in an.forced() {
        match f {
            Forced::Mine => {
                e.mine.insert(p);
            }
            Forced::Safe => {
                e.safe.insert(p);
            }
            _ => {}
        }
    }
    let post = posterior(&g, total, 55, 4000)??;
    let mut m = vec![vec![0.0; g[0].len()]; g.len()];
    for i in 0..g.len() {
        for j in 0..g[0].len() {
            if g[i][j] == 10 {
                m[i][j] = post.frontier.get(&(i, j)).cloned().unwrap_or(post.inner);
            }
        }
    }
    // the code under test combines segments by a cartesian product after marking; keep it affordable
    let mut marked = g.to_vec();
    for p in &e.safe {
        marked[p.0][p.1] = 12;
    }
    for p in &e.mine {
        marked[p.0][p.1] = 11;
    }
    let segs = model(&marked).comps.iter().map(|c| c.cells.len().min(6) as f64).product::<f64>();
    let segs0 = an.model.comps.iter().map(|c| (c.cells.len() as f64 / 2.0 + 1.0).min(9.0)).product::<f64>();
    if segs > 20000.0 || segs0 > 300000.0 {
        return None;
    }
    e.poss = Some(m);
    Some(e)
}

/// any order of queries, interleaved with replacing the position
fn game_hist(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(2, 10), ctx.rng.range(2, 10));
    let mines = (r * c * ctx.rng.range(5, 30) / 100).max(1);
    let mut w = GameBoard::new(mines);
    let mut hist: Vec<String> = vec![];
    let mut cur: Option<(B, Exp)> = None;
    let rounds = ctx.rng.range(1, 4);
    let mut memo: HashMap<u64, ()> = HashMap::new();
    for _ in 0..rounds {
        let board = random_board(&mut ctx.rng, r, c, mines);
        let mut g = gen_visible_from(&mut ctx.rng, board, false).game;
        let e = match expect(&g, mines) {
            Some(e) => e,
            None => {
                ctx.ev("skipped_costly", 1);
                return;
            }
        };
        // player marks, possibly wrong: the wrapper must ignore them
        for x in g.iter_mut().flatten() {
            if *x == 10 && ctx.rng.chance(0.15) {
                *x = *ctx.rng.pick(&[11, 12]);
            }
        }
        hist.push(format!("set {}", fmt_board(&g)));
        memo.insert(hash_board(&g), ());
        let gg = g.clone();
        if ctx.guard("GameBoard::set_game_board", || fmt_board(&gg), || w.set_game_board(&gg)).is_none() {
            return;
        }
        cur = Some((g, e));
        for _ in 0..ctx.rng.range(1, 7) {
            let (g, e) = cur.as_ref().unwrap();
            let q = ctx.rng.below(5);
            let name = ["poss", "basic_not_mine", "basic_is_mine", "enum_not_mine", "enum_is_mine"][q];
            hist.push(name.into());
            let hs = hist.join("; ");
            if ctx.rng.chance(0.05) {
                w = w.clone();
            }
            ctx.ev("gameboard_queries", 1);
            if q == 0 {
                let got = match ctx.guard("GameBoard::get_poss", || hs.clone(), || w.get_poss().clone()) {
                    Some(g) => g,
                    None => return,
                };
                let want = e.poss.as_ref().unwrap();
                let ok = got.len() == want.len()
                    && got.iter().zip(want).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-6));
                if !ctx.check(ok, "GameBoard:poss", || format!("after [{hs}] with {mines} mines: probabilities {got:?}, expected {want:?}")) {
                    return;
                }
                continue;
            }
            // all four lists, so that what one misses the other must hold
            let got = match ctx.guard("GameBoard::lists", || hs.clone(), || {
                let first = match q {
                    1 => w.get_basic_not_mine().clone(),
                    2 => w.get_basic_is_mine().clone(),
                    3 => w.get_enum_not_mine().clone(),
                    _ => w.get_enum_is_mine().clone(),
                };
                (first, w.get_basic_not_mine().clone(), w.get_basic_is_mine().clone(), w.get_enum_not_mine().clone(), w.get_enum_is_mine().clone())
            }) {
                Some(g) => g,
                None => return,
            };
            let list = [&got.1, &got.2, &got.3, &got.4][q - 1];
            ctx.check(&got.0 == list, "GameBoard:stable", || format!("after [{hs}] two queries of {name} differ: {:?} {:?}", got.0, list));
            let bs: BTreeSet<_> = got.1.iter().cloned().collect();
            let bm: BTreeSet<_> = got.2.iter().cloned().collect();
            let es: BTreeSet<_> = got.3.iter().cloned().collect();
            let em: BTreeSet<_> = got.4.iter().cloned().collect();
            let safe: BTreeSet<_> = bs.union(&es).cloned().collect();
            let mine: BTreeSet<_> = bm.union(&em).cloned().collect();
            ctx.ev("safe_cells_listed", safe.len() as u64);
            ctx.ev("mine_cells_listed", mine.len() as u64);
            ctx.ev("enum_cells_listed", (es.len() + em.len()) as u64);
            let dup = bs.len() != got.1.len() || bm.len() != got.2.len() || es.len() != got.3.len() || em.len() != got.4.len();
            let ok = ctx.check(safe == e.safe, "GameBoard:safe", || format!("after [{hs}] safe cells {safe:?}, expected {:?}; position {}", e.safe, fmt_board(g)))
                & ctx.check(mine == e.mine, "GameBoard:mine", || format!("after [{hs}] certain mines {mine:?}, expected {:?}; position {}", e.mine, fmt_board(g)))
                & ctx.check(!dup, "GameBoard:dup", || format!("after [{hs}] a cell is listed twice: {got:?}"))
                & ctx.check(bs.is_disjoint(&es) && bm.is_disjoint(&em), "GameBoard:both", || format!("after [{hs}] a cell is in the basic and the enumerated list: {got:?}"));
            if !ok {
                return;
            }
            if !e.safe.is_empty() || !e.mine.is_empty() {
                ctx.seen(mix(hash_board(g), hash_bytes(hs.as_bytes())));
            }
        }
    }
    let _ = cur;
    ctx.sample(|| format!("{mines} mines: {}", hist.join("; ")));
}

fn main() {
    oracle::engine::main(Spec {
        id: "C03",
        rule: "random query histories (order, repetition, cloning, replacement of the position, wrong player marks) on random boards; distinct by board content and history; for positions non-trivial when something is deducible",
        stages: vec![
            Stage { name: "board", quick: 60000, thorough: 1000000, f: board_hist },
            Stage { name: "game", quick: 30000, thorough: 500000, f: game_hist },
        ],
        finish: None,
        assumptions: &["positions are consistent, with at most 55 cells per segment, and bounded enumeration cost"],
        must_see: &["board_queries", "gameboard_queries", "safe_cells_listed", "mine_cells_listed", "enum_cells_listed"],
    })
}
