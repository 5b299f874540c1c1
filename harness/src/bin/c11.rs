//! C11: the solvability verdict equals that of a reference player; structures called unsolvable are.
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;

const CAP: usize = 6000;

fn check(ctx: &mut Ctx, b: &B, x: usize, y: usize) {
    let inp = || format!("from ({x},{y}) on {}", fmt_board(b));
    let Some(w) = walk(b, (x, y), CAP) else { return ctx.ev("skipped_large", 1) };
    let Some(v) = ctx.guard("is_solvable", inp, || is_solvable(b, x, y)) else { return };
    let Some(u) = ctx.guard("unsolvable_structure", inp, || unsolvable_structure(b)) else { return };
    let t = template(b);
    ctx.check(u == t.is_some(), "structure:template", || format!("the structure filter says {u}, there is {}: {}", t.unwrap_or("no template"), fmt_board(b)));
    ctx.ev("boards", 1);
    ctx.ev(if w.solved { "solvable" } else { "unsolvable" }, 1);
    if w.deep_steps > 0 {
        ctx.ev("boards_beyond_single_numbers", 1);
        ctx.seen(mix(hash_board(b), (x * 100 + y) as u64));
    }
    if v {
        ctx.check(w.solved, "claims", || format!("called solvable, but the numbers force a guess: {}", inp()));
        ctx.check(!u, "structure:both", || format!("called solvable and structurally unsolvable: {}", inp()));
    }
    if w.longest > 55 {
        return ctx.ev("skipped_beyond_enumeration_limit", 1);
    }
    // the patterns assume a game that starts with an opening
    if b[x][y] == 0 {
        ctx.check(v || !w.solved, "denies", || format!("called unsolvable, but it can be cleared without a guess (pattern {u}): {}", inp()));
        ctx.check(!u || !w.solved, "structure", || format!("a pattern calls it unsolvable, but it can be cleared without a guess: {}", inp()));
        if u {
            ctx.ev("pattern_hits", 1);
        }
        if !u && !w.solved {
            ctx.ev("unsolvable_without_pattern", 1);
        }
    }
    ctx.sample(|| format!("solvable {v} pattern {u} steps {}: {}", w.steps, inp()));
}

fn start(ctx: &mut Ctx, b: &B) -> Option<(usize, usize)> {
    let z: Vec<(usize, usize)> = (0..b.len()).flat_map(|i| (0..b[0].len()).map(move |j| (i, j))).filter(|p| b[p.0][p.1] == 0).collect();
    if !z.is_empty() && ctx.rng.chance(0.93) {
        return Some(*ctx.rng.pick(&z));
    }
    let s: Vec<(usize, usize)> = (0..b.len()).flat_map(|i| (0..b[0].len()).map(move |j| (i, j))).filter(|p| b[p.0][p.1] >= 0).collect();
    if s.is_empty() {
        return None;
    }
    Some(*ctx.rng.pick(&s))
}

fn random(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(5, 12), ctx.rng.range(5, 14));
    let n = r * c * ctx.rng.range(3, 24) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    if let Some((x, y)) = start(ctx, &b) {
        check(ctx, &b, x, y);
    }
}
fn standard(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[(16usize, 16usize, 40usize), (16, 30, 85), (8, 8, 10), (9, 9, 10), (24, 20, 70)]);
    let b = random_board(&mut ctx.rng, n.0, n.1, n.2);
    if let Some((x, y)) = start(ctx, &b) {
        check(ctx, &b, x, y);
    }
}
/// boards with few mines, one mine moved: near the border between solvable and not
fn sparse(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(5, 8), ctx.rng.range(5, 8));
    let n = ctx.rng.range(2, 9);
    let b = random_board(&mut ctx.rng, r, c, n);
    if let Some((x, y)) = start(ctx, &b) {
        check(ctx, &b, x, y);
    }
}
/// the known dead-guess shapes planted in otherwise open ground, and near misses of them
fn planted(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(7, 12), ctx.rng.range(7, 12));
    let mut m = vec![vec![false; c]; r];
    for _ in 0..ctx.rng.below(4) {
        m[ctx.rng.below(r)][ctx.rng.below(c)] = true;
    }
    // shapes as character maps: # mine, . safe
    let shapes: [&[&str]; 9] = [
        &["#..#", "#.##", "#..#"],
        &["####", "#.##", "#..#"],
        &["###", "#.#", "###"],
        &["#..#", ".#..", "..#.", "#..#"],
        &["##", ".#", "##"],
        &["..#", "#.#", "..#"],
        &["..#", ".#."],
        &["##.", "#..", ".#."],
        &["###", ".#.", "...", "###"],
    ];
    let s = *ctx.rng.pick(&shapes);
    let t = ctx.rng.below(8);
    let (h, w) = (s.len(), s[0].len());
    let mut cells = vec![];
    for (i, l) in s.iter().enumerate() {
        for (j, ch) in l.bytes().enumerate() {
            let (mut a, mut b) = (i, j);
            if t & 1 == 1 {
                a = h - 1 - a;
            }
            if t & 2 == 2 {
                b = w - 1 - b;
            }
            if t & 4 == 4 {
                std::mem::swap(&mut a, &mut b);
            }
            cells.push((a, b, ch == b'#'));
        }
    }
    let (hh, ww) = if t & 4 == 4 { (w, h) } else { (h, w) };
    let oi = *ctx.rng.pick(&[0, r - hh, ctx.rng.clone().below(r - hh + 1)]);
    let oj = *ctx.rng.pick(&[0, c - ww, ctx.rng.clone().below(c - ww + 1)]);
    for (a, b, x) in cells {
        m[oi + a][oj + b] = x;
    }
    if ctx.rng.chance(0.5) {
        let (i, j) = (oi + ctx.rng.below(hh), oj + ctx.rng.below(ww));
        m[i][j] = !m[i][j];
    }
    let b = numbered(&m);
    if let Some((x, y)) = start(ctx, &b) {
        check(ctx, &b, x, y);
    }
}

/// one of the documented templates is there; what lies outside the board counts as mines, and pairs are balanced where they can be seen
fn template(b: &B) -> Option<&'static str> {
    let (r, c) = (b.len() as i32, b[0].len() as i32);
    let wall = |i: i32, j: i32| i < 0 || j < 0 || i >= r || j >= c || b[i as usize][j as usize] == -1;
    let mine = |i: i32, j: i32| (b[i as usize][j as usize] == -1) as i32;
    let one = |i: i32, j: i32, k: i32, l: i32| mine(i, j) + mine(k, l) == 1;
    for i in 0..r {
        for j in 0..c {
            let (right, below) = (j + 1 < c, i + 1 < r);
            if mine(i, j) == 0 && (-1..=1).all(|a| wall(i + a, j - 1) && wall(i + a, j + 1) && (a == 0 || wall(i + a, j))) {
                return Some("ring");
            }
            if right && one(i, j, i, j + 1) && (-1..=1).all(|a| wall(i + a, j - 1) && wall(i + a, j + 2)) {
                return Some("lying bar");
            }
            if below && one(i, j, i + 1, j) && (-1..=1).all(|a| wall(i - 1, j + a) && wall(i + 2, j + a)) {
                return Some("standing bar");
            }
            if right && below && wall(i - 1, j - 1) && wall(i - 1, j + 2) && wall(i + 2, j - 1) && wall(i + 2, j + 2) && (i == 0 || one(i, j, i, j + 1)) && (i + 2 == r || one(i + 1, j, i + 1, j + 1)) && (j == 0 || one(i, j, i + 1, j)) && (j + 2 == c || one(i, j + 1, i + 1, j + 1)) {
                return Some("square");
            }
        }
    }
    None
}
fn filtered(ctx: &mut Ctx, b: &B) {
    let Some(u) = ctx.guard("unsolvable_structure", || fmt_board(b), || unsolvable_structure(b)) else { return };
    let t = template(b);
    ctx.ev(&format!("filter {}", t.unwrap_or("nothing")), 1);
    ctx.check(u == t.is_some(), "structure:template", || format!("the structure filter says {u}, there is {}: {}", t.unwrap_or("no template"), fmt_board(b)));
}
/// the filter alone, on layouts of every density and on templates with one cell changed or none
fn templates(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(5, 11), ctx.rng.range(5, 11));
    let n = r * c * ctx.rng.range(5, 60) / 100;
    let b = random_board(&mut ctx.rng, r, c, n);
    filtered(ctx, &b);
    ctx.seen(hash_board(&b));
    // the mines of one template in an otherwise sparse layout
    let mut m: Vec<Vec<bool>> = vec![vec![false; c]; r];
    for _ in 0..ctx.rng.below(4) {
        m[ctx.rng.below(r)][ctx.rng.below(c)] = true;
    }
    let shapes: [&[&str]; 4] = [&["###", "#.#", "###"], &["#??#", "#12#", "#??#"], &["###", "?1?", "?2?", "###"], &["#??#", "?12?", "?21?", "#??#"]];
    let s = *ctx.rng.pick(&shapes);
    let (h, w) = (s.len() as i32, s[0].len() as i32);
    let (oi, oj) = (ctx.rng.below(r) as i32 - 1, ctx.rng.below(c) as i32 - 1);
    let (oi, oj) = (oi.min(r as i32 - h + 1), oj.min(c as i32 - w + 1));
    let d = ctx.rng.chance(0.5);
    for i in 0..h {
        for j in 0..w {
            let (x, y) = (oi + i, oj + j);
            if x >= 0 && y >= 0 && x < r as i32 && y < c as i32 {
                let v = &mut m[x as usize][y as usize];
                match s[i as usize].as_bytes()[j as usize] {
                    b'#' => *v = true,
                    b'.' => *v = false,
                    b'1' => *v = d,
                    b'2' => *v = !d,
                    _ => (),
                }
            }
        }
    }
    if ctx.rng.chance(0.5) {
        let (x, y) = ((oi + ctx.rng.below(h as usize) as i32).clamp(0, r as i32 - 1) as usize, (oj + ctx.rng.below(w as usize) as i32).clamp(0, c as i32 - 1) as usize);
        m[x][y] = !m[x][y];
        ctx.ev("templates_spoilt", 1);
    }
    let b = numbered(&m);
    filtered(ctx, &b);
    ctx.seen(hash_board(&b));
}

fn main() {
    engine::main(Spec {
        id: "C11",
        rule: "random boards of 5x5 to 24x30, boards with planted dead-guess shapes and near misses; starts mostly on openings; non-trivial when the reference player needs more than single numbers; distinct by board and start",
        stages: vec![
            Stage { name: "random", quick: 30000, thorough: 900000, f: random },
            Stage { name: "standard", quick: 1200, thorough: 60000, f: standard },
            Stage { name: "sparse", quick: 60000, thorough: 1500000, f: sparse },
            Stage { name: "planted", quick: 60000, thorough: 1500000, f: planted },
            Stage { name: "templates", quick: 200000, thorough: 5000000, f: templates },
        ],
        finish: None,
        assumptions: &["the number of mines left is not used (documented)", "boards larger than 4x4 (documented)", "an unsolvable verdict is only judged for games that start with an opening and meet no border segment beyond 55 cells"],
        must_see: &["solvable", "unsolvable", "pattern_hits", "unsolvable_without_pattern", "boards_beyond_single_numbers", "filter ring", "filter lying bar", "filter standing bar", "filter square", "filter nothing", "templates_spoilt"],
    })
}
