//! Reference constraint model of a visible board and exact counting.
//!
//! Codes: 0..=8 numbers, 10 unopened, 11 known mine, 12 known safe (unopened).
//! Counting is a forward dynamic programme over cells keyed by the residual of the open
//! constraints: a different algorithm from the recursive enumeration in the code under test.
use crate::board::{neighbours, B};
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Comp {
    pub cells: Vec<(usize, usize)>,
    /// (number cell, residual, indices into `cells`)
    pub cons: Vec<((usize, usize), i32, Vec<usize>)>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub comps: Vec<Comp>,
    /// unopened (code 10) cells touching no number
    pub inner: Vec<(usize, usize)>,
    pub flagged: usize,
    /// numbers without unopened neighbour whose marked mines do not add up
    pub dead_contradiction: bool,
}

/// `zero_counts`: whether a visible 0 with unopened neighbours is a constraint (it is, logically).
pub fn model(g: &B) -> Model {
    let (r, c) = (g.len(), g[0].len());
    let mut idx: HashMap<(usize, usize), usize> = HashMap::new();
    let mut cells = vec![];
    let mut inner = vec![];
    let mut flagged = 0;
    let mut dead = false;
    for i in 0..r {
        for j in 0..c {
            if g[i][j] == 11 {
                flagged += 1;
            }
            if g[i][j] == 10 {
                if neighbours(r, c, i, j).iter().any(|p| g[p.0][p.1] < 10) {
                    idx.insert((i, j), cells.len());
                    cells.push((i, j));
                } else {
                    inner.push((i, j));
                }
            }
        }
    }
    let mut cons = vec![];
    for i in 0..r {
        for j in 0..c {
            if g[i][j] >= 0 && g[i][j] < 10 {
                let ns = neighbours(r, c, i, j);
                let f = ns.iter().filter(|p| g[p.0][p.1] == 11).count() as i32;
                let v: Vec<usize> = ns.iter().filter_map(|p| idx.get(p).cloned()).collect();
                if v.is_empty() {
                    if g[i][j] != f {
                        dead = true;
                    }
                } else {
                    cons.push(((i, j), g[i][j] - f, v));
                }
            }
        }
    }
    // group by shared cells
    let n = cells.len();
    let mut par: Vec<usize> = (0..n).collect();
    fn find(p: &mut Vec<usize>, mut a: usize) -> usize {
        while p[a] != a {
            p[a] = p[p[a]];
            a = p[a];
        }
        a
    }
    for (_, _, v) in &cons {
        for k in 1..v.len() {
            let (a, b) = (find(&mut par, v[0]), find(&mut par, v[k]));
            par[a] = b;
        }
    }
    let mut comps: Vec<Comp> = vec![];
    let mut of: HashMap<usize, usize> = HashMap::new();
    let mut local = vec![0usize; n];
    for k in 0..n {
        let root = find(&mut par, k);
        let id = *of.entry(root).or_insert_with(|| {
            comps.push(Comp { cells: vec![], cons: vec![] });
            comps.len() - 1
        });
        local[k] = comps[id].cells.len();
        comps[id].cells.push(cells[k]);
    }
    for (p, b, v) in cons {
        let id = of[&find(&mut par, v[0])];
        comps[id].cons.push((p, b, v.iter().map(|k| local[*k]).collect()));
    }
    Model { comps, inner, flagged, dead_contradiction: dead }
}

/// Exact numbers of assignments by mine count.
#[derive(Clone, Debug)]
pub struct Counts {
    /// total[m]: assignments with m mines (0..=cells)
    pub total: Vec<u128>,
    /// cell[k][m]: those in which cell k is a mine
    pub cell: Vec<Vec<u128>>,
    /// peak number of dynamic programme states
    pub peak: usize,
}

impl Comp {
    pub fn order(&self) -> Vec<usize> {
        // breadth first through shared constraints keeps the frontier of open constraints small
        let n = self.cells.len();
        let mut of: Vec<Vec<usize>> = vec![vec![]; n];
        for (q, c) in self.cons.iter().enumerate() {
            for k in &c.2 {
                of[*k].push(q);
            }
        }
        let mut seen = vec![false; n];
        let mut out = vec![];
        for s in 0..n {
            if seen[s] {
                continue;
            }
            // start from a far end
            let mut far = s;
            for _ in 0..2 {
                let mut d = vec![usize::MAX; n];
                let mut q = std::collections::VecDeque::new();
                d[far] = 0;
                q.push_back(far);
                let mut last = far;
                while let Some(k) = q.pop_front() {
                    last = k;
                    for c in &of[k] {
                        for j in &self.cons[*c].2 {
                            if d[*j] == usize::MAX && !seen[*j] {
                                d[*j] = d[k] + 1;
                                q.push_back(*j);
                            }
                        }
                    }
                }
                far = last;
            }
            let mut q = std::collections::VecDeque::new();
            seen[far] = true;
            q.push_back(far);
            while let Some(k) = q.pop_front() {
                out.push(k);
                for c in &of[k] {
                    for j in &self.cons[*c].2 {
                        if !seen[*j] {
                            seen[*j] = true;
                            q.push_back(*j);
                        }
                    }
                }
            }
        }
        out
    }

    /// Number of assignments by mine count, with some cells fixed. None if more than `cap` states.
    pub fn count(&self, order: &[usize], fixed: &[Option<bool>], cap: usize) -> Option<(Vec<u128>, usize)> {
        let n = self.cells.len();
        let mut of: Vec<Vec<usize>> = vec![vec![]; n];
        let mut left: Vec<usize> = vec![0; self.cons.len()];
        for (q, c) in self.cons.iter().enumerate() {
            for k in &c.2 {
                of[*k].push(q);
                left[q] += 1;
            }
        }
        let mut peak = 1;
        let mut cur: HashMap<Vec<i8>, Vec<u128>> = HashMap::new();
        let start: Vec<i8> = self.cons.iter().map(|c| c.1 as i8).collect();
        if start.iter().any(|x| *x < 0) {
            return Some((vec![0; n + 1], 0));
        }
        cur.insert(start, vec![1]);
        for &k in order {
            for q in &of[k] {
                left[*q] -= 1;
            }
            let mut next: HashMap<Vec<i8>, Vec<u128>> = HashMap::new();
            for (st, poly) in &cur {
                for v in 0..2i8 {
                    if let Some(f) = fixed[k] {
                        if f != (v == 1) {
                            continue;
                        }
                    }
                    let mut s = st.clone();
                    let mut ok = true;
                    for q in &of[k] {
                        s[*q] -= v;
                        if s[*q] < 0 || s[*q] as usize > left[*q] {
                            ok = false;
                            break;
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let e = next.entry(s).or_insert_with(Vec::new);
                    let sh = v as usize;
                    if e.len() < poly.len() + sh {
                        e.resize(poly.len() + sh, 0);
                    }
                    for (i, x) in poly.iter().enumerate() {
                        e[i + sh] += x;
                    }
                }
            }
            peak = peak.max(next.len());
            if next.len() > cap {
                return None;
            }
            cur = next;
            if cur.is_empty() {
                break;
            }
        }
        let mut out = vec![0u128; n + 1];
        for (_, poly) in cur {
            for (i, x) in poly.iter().enumerate() {
                out[i] += x;
            }
        }
        Some((out, peak))
    }

    pub fn counts(&self, cap: usize) -> Option<Counts> {
        let n = self.cells.len();
        let order = self.order();
        let (total, peak) = self.count(&order, &vec![None; n], cap)?;
        // cells in the same set of constraints are interchangeable
        let mut sig: Vec<Vec<usize>> = vec![vec![]; n];
        for (q, c) in self.cons.iter().enumerate() {
            for k in &c.2 {
                sig[*k].push(q);
            }
        }
        let mut memo: HashMap<Vec<usize>, Vec<u128>> = HashMap::new();
        let mut cell = vec![];
        for k in 0..n {
            if let Some(v) = memo.get(&sig[k]) {
                cell.push(v.clone());
                continue;
            }
            let mut f = vec![None; n];
            f[k] = Some(true);
            let (v, _) = self.count(&order, &f, cap)?;
            memo.insert(sig[k].clone(), v.clone());
            cell.push(v);
        }
        Some(Counts { total, cell, peak })
    }

    /// Leaves of an enumeration that merges interchangeable cells (cost estimate for the code under test).
    pub fn merged_leaves(&self, cap: usize) -> Option<u128> {
        let n = self.cells.len();
        let mut sig: HashMap<Vec<usize>, usize> = HashMap::new();
        let mut groups: Vec<(Vec<usize>, usize)> = vec![];
        let mut of: Vec<Vec<usize>> = vec![vec![]; n];
        for (q, c) in self.cons.iter().enumerate() {
            for k in &c.2 {
                of[*k].push(q);
            }
        }
        let order = self.order();
        for k in order {
            let s = of[k].clone();
            if let Some(g) = sig.get(&s) {
                groups[*g].1 += 1;
            } else {
                sig.insert(s.clone(), groups.len());
                groups.push((s, 1));
            }
        }
        let mut cur: HashMap<Vec<i8>, u128> = HashMap::new();
        if self.cons.iter().any(|c| c.1 < 0) {
            return Some(0);
        }
        cur.insert(self.cons.iter().map(|c| c.1 as i8).collect(), 1);
        let mut tot = 0u128;
        for (s, size) in groups {
            let mut next: HashMap<Vec<i8>, u128> = HashMap::new();
            for (st, w) in &cur {
                'v: for v in 0..=size as i8 {
                    let mut t = st.clone();
                    for q in &s {
                        t[*q] -= v;
                        if t[*q] < 0 {
                            continue 'v;
                        }
                    }
                    *next.entry(t).or_insert(0) += w;
                }
            }
            if next.len() > cap {
                return None;
            }
            tot = tot.max(next.values().sum());
            cur = next;
        }
        Some(tot)
    }
}

/// What the visible numbers alone imply about a frontier cell.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Forced {
    Mine,
    Safe,
    Open,
}

#[derive(Clone, Debug)]
pub struct Analysis {
    pub model: Model,
    pub counts: Vec<Counts>,
}

impl Analysis {
    pub fn new(g: &B, cap: usize) -> Option<Analysis> {
        let model = model(g);
        let mut counts = vec![];
        for c in &model.comps {
            counts.push(c.counts(cap)?);
        }
        Some(Analysis { model, counts })
    }
    pub fn consistent(&self) -> bool {
        !self.model.dead_contradiction && self.counts.iter().all(|c| c.total.iter().any(|x| *x > 0))
    }
    pub fn forced(&self) -> HashMap<(usize, usize), Forced> {
        let mut out = HashMap::new();
        for (c, k) in self.model.comps.iter().zip(&self.counts) {
            let t: u128 = k.total.iter().sum();
            for (i, p) in c.cells.iter().enumerate() {
                let m: u128 = k.cell[i].iter().sum();
                out.insert(
                    *p,
                    if m == t {
                        Forced::Mine
                    } else if m == 0 {
                        Forced::Safe
                    } else {
                        Forced::Open
                    },
                );
            }
        }
        out
    }
    pub fn max_segment(&self) -> usize {
        self.model.comps.iter().map(|c| c.cells.len()).max().unwrap_or(0)
    }
}

/// Exact posterior under "all layouts with `total` mines that match the board are equally likely".
/// Segments longer than `limit` are treated as unconstrained cells (the documented fallback).
pub struct Posterior {
    pub frontier: HashMap<(usize, usize), f64>,
    pub inner: f64,
    pub inner_cells: usize,
    pub min_mines: usize,
    pub max_mines: usize,
    pub oversized: Vec<(usize, usize)>,
}

fn conv(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut o = vec![0.0; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if *x != 0.0 {
            for (j, y) in b.iter().enumerate() {
                o[i + j] += x * y;
            }
        }
    }
    o
}

/// None: no layout with this many mines.
pub fn posterior(g: &B, total: usize, limit: usize, cap: usize) -> Option<Option<Posterior>> {
    let mut model = model(g);
    let mut over = vec![];
    let mut keep = vec![];
    for c in model.comps.drain(..) {
        if c.cells.len() > limit {
            over.extend(c.cells);
        } else {
            keep.push(c);
        }
    }
    let n_u = model.inner.len() + over.len();
    let mut polys: Vec<Vec<f64>> = vec![];
    let mut cnts = vec![];
    let (mut lo, mut hi) = (0, 0);
    for c in &keep {
        let k = c.counts(cap)?;
        let nz: Vec<usize> = (0..k.total.len()).filter(|i| k.total[*i] > 0).collect();
        if nz.is_empty() {
            return Some(None);
        }
        lo += nz[0];
        hi += nz[nz.len() - 1];
        polys.push(k.total.iter().map(|x| *x as f64).collect());
        cnts.push(k);
    }
    if total < model.flagged {
        return Some(None);
    }
    let m = total - model.flagged;
    // relative weights of k mines among the n_u unconstrained cells, for k in klo..=khi
    let klo = m.saturating_sub(hi);
    if m < lo || klo > n_u {
        return Some(None);
    }
    let khi = (m - lo).min(n_u);
    let mut w = vec![0.0; khi + 1];
    w[klo] = 1.0;
    for k in klo..khi {
        w[k + 1] = w[k] * (n_u - k) as f64 / (k + 1) as f64;
    }
    let at = |p: &[f64], i: usize| if i < p.len() { p[i] } else { 0.0 };
    // all frontier
    let mut all = vec![1.0];
    for p in &polys {
        all = conv(&all, p);
    }
    let t: f64 = (klo..=khi).map(|k| w[k] * at(&all, m - k)).sum();
    if !(t > 0.0) {
        return Some(None);
    }
    let mut frontier = HashMap::new();
    for i in 0..keep.len() {
        let mut rest = vec![1.0];
        for (j, p) in polys.iter().enumerate() {
            if i != j {
                rest = conv(&rest, p);
            }
        }
        // restw[x] = weight of everything else when this segment holds m - x mines
        let mut other = vec![0.0; keep[i].cells.len() + 1];
        for (s, o) in other.iter_mut().enumerate() {
            if s > m {
                continue;
            }
            for k in klo..=khi {
                if k + s <= m {
                    *o += w[k] * at(&rest, m - s - k);
                }
            }
        }
        for (c, p) in keep[i].cells.iter().enumerate() {
            let s: f64 = cnts[i].cell[c].iter().zip(&other).map(|(a, b)| *a as f64 * b).sum();
            frontier.insert(*p, s / t);
        }
    }
    let inner = (klo..=khi).map(|k| w[k] * at(&all, m - k) * k as f64).sum::<f64>() / t / n_u as f64;
    Some(Some(Posterior {
        frontier,
        inner,
        inner_cells: n_u,
        min_mines: lo + model.flagged,
        max_mines: hi + n_u + model.flagged,
        oversized: over,
    }))
}

/// All layouts of the unopened cells that match the board (tiny boards only); each layout is a
/// mine mask. This is the oracle of the oracle.
pub fn brute_layouts(g: &B) -> Vec<Vec<Vec<bool>>> {
    let (r, c) = (g.len(), g[0].len());
    let cells: Vec<(usize, usize)> =
        (0..r * c).map(|k| (k / c, k % c)).filter(|p| g[p.0][p.1] == 10).collect();
    assert!(cells.len() <= 20);
    let mut out = vec![];
    let nums: Vec<(i32, Vec<(usize, usize)>)> = (0..r * c)
        .map(|k| (k / c, k % c))
        .filter(|p| g[p.0][p.1] < 10)
        .map(|p| (g[p.0][p.1], neighbours(r, c, p.0, p.1)))
        .collect();
    let base: Vec<Vec<bool>> = g.iter().map(|r| r.iter().map(|x| *x == 11).collect()).collect();
    for bits in 0u32..(1 << cells.len()) {
        let mut m = base.clone();
        for (k, p) in cells.iter().enumerate() {
            m[p.0][p.1] = bits >> k & 1 == 1;
        }
        if nums.iter().all(|(v, ns)| ns.iter().filter(|p| m[p.0][p.1]).count() as i32 == *v) {
            out.push(m);
        }
    }
    out
}

/// How a visible board is generated.
#[derive(Clone, Debug)]
pub struct Gen {
    pub board: B,
    pub game: B,
    pub mines: usize,
}

/// Open a random true board by random safe clicks; optionally mark true mines 11 / safe cells 12.
pub fn gen_visible(rng: &mut Rng, rmax: usize, cmax: usize, marks: bool) -> Gen {
    let r = rng.range(1, rmax);
    let c = rng.range(1, cmax);
    let n = r * c;
    let density = match rng.below(4) {
        0 => rng.f64() * 0.12,
        1 => 0.12 + rng.f64() * 0.1,
        2 => 0.18 + rng.f64() * 0.15,
        _ => rng.f64() * 0.6,
    };
    let mines = ((n as f64 * density) as usize).min(n.saturating_sub(1));
    let board = crate::board::random_board(rng, r, c, mines);
    gen_visible_from(rng, board, marks)
}

/// Many opened islands, far enough from each other that each has a border segment of its own.
pub fn gen_islands(rng: &mut Rng) -> Gen {
    let (r, c) = *rng.pick(&[(16usize, 30usize), (16, 16), (24, 30), (1, 60), (2, 60), (9, 40)]);
    let n = r * c;
    let mines = (n as f64 * (0.08 + rng.f64() * 0.25)) as usize;
    let board = crate::board::random_board(rng, r, c, mines);
    let mut g = vec![vec![10; c]; r];
    let tries = rng.range(20, 400);
    let big = rng.range(1, 3);
    for _ in 0..tries {
        let (x, y) = (rng.below(r), rng.below(c));
        let k = rng.range(1, big);
        let across = rng.chance(0.5);
        let shape: Vec<(usize, usize)> = (0..k).map(|i| if across { (x, y + i) } else { (x + i, y) }).collect();
        let fits = shape.iter().all(|p| {
            p.0 < r && p.1 < c && board[p.0][p.1] > 0
                && (p.0.saturating_sub(2)..=(p.0 + 2).min(r - 1)).all(|i| (p.1.saturating_sub(2)..=(p.1 + 2).min(c - 1)).all(|j| g[i][j] == 10))
        });
        if fits {
            for p in shape {
                g[p.0][p.1] = board[p.0][p.1];
            }
        }
    }
    Gen { board, game: g, mines }
}

pub fn gen_visible_from(rng: &mut Rng, board: B, marks: bool) -> Gen {
    let (r, c) = (board.len(), board[0].len());
    let n = r * c;
    let mines = crate::board::mine_count(&board);
    let mut g = vec![vec![10; c]; r];
    let safe: Vec<(usize, usize)> =
        (0..n).map(|k| (k / c, k % c)).filter(|p| board[p.0][p.1] >= 0).collect();
    if !safe.is_empty() {
        let clicks = match rng.below(6) {
            0 => 1,
            1 => rng.range(0, 2),
            2 => rng.range(1, 4),
            3 => rng.range(1, 1 + n / 12),
            4 => rng.range(1, 1 + n / 4),
            _ => safe.len(),
        };
        if clicks == safe.len() && rng.chance(0.7) {
            // open nearly everything
            let keep = rng.f64() * 0.5;
            for p in &safe {
                if !rng.chance(keep) {
                    crate::board::reveal(&board, &mut g, &[*p]);
                }
            }
        } else {
            let zeros: Vec<(usize, usize)> =
                safe.iter().cloned().filter(|p| board[p.0][p.1] == 0).collect();
            if !zeros.is_empty() && rng.chance(0.6) && clicks > 0 {
                let p = *rng.pick(&zeros);
                crate::board::reveal(&board, &mut g, &[p]);
            }
            for _ in 0..clicks {
                let p = *rng.pick(&safe);
                crate::board::reveal(&board, &mut g, &[p]);
            }
        }
    }
    if marks {
        let (pm, ps) = match rng.below(5) {
            0 => (0.0, 0.0),
            1 => (rng.f64(), 0.0),
            2 => (0.0, rng.f64() * 0.5),
            3 => (1.0, 0.0),
            _ => (rng.f64(), rng.f64()),
        };
        for i in 0..r {
            for j in 0..c {
                if g[i][j] == 10 {
                    if board[i][j] == -1 && rng.chance(pm) {
                        g[i][j] = 11;
                    } else if board[i][j] != -1 && rng.chance(ps) {
                        g[i][j] = 12;
                    }
                }
            }
        }
    }
    Gen { board, game: g, mines }
}

/// Segments of an equation system as constraint components (for counting its solutions).
pub fn comps_from(a: &[Vec<Vec<i32>>], x: &[Vec<(usize, usize)>], b: &[Vec<i32>]) -> Result<Vec<Comp>, String> {
    if a.len() != x.len() || x.len() != b.len() {
        return Err(format!("{} coefficient blocks, {} cell blocks, {} right-hand sides", a.len(), x.len(), b.len()));
    }
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for i in 0..a.len() {
        if a[i].len() != b[i].len() {
            return Err(format!("{} rows, {} right-hand sides", a[i].len(), b[i].len()));
        }
        for p in &x[i] {
            if !seen.insert(*p) {
                return Err(format!("cell {p:?} appears twice"));
            }
        }
        let mut cons = vec![];
        for (row, v) in a[i].iter().zip(&b[i]) {
            if row.len() != x[i].len() {
                return Err(format!("row of {} coefficients over {} cells", row.len(), x[i].len()));
            }
            if row.iter().any(|k| *k != 0 && *k != 1) {
                return Err(format!("coefficients {row:?}"));
            }
            cons.push(((0, 0), *v, (0..row.len()).filter(|k| row[*k] == 1).collect()));
        }
        out.push(Comp { cells: x[i].clone(), cons });
    }
    Ok(out)
}

/// Is the segment in one piece?
pub fn connected(c: &Comp) -> bool {
    let n = c.cells.len();
    if n == 0 {
        return c.cons.is_empty();
    }
    let mut seen = vec![false; n];
    seen[0] = true;
    let mut grow = true;
    while grow {
        grow = false;
        for (_, _, v) in &c.cons {
            if v.iter().any(|k| seen[*k]) && v.iter().any(|k| !seen[*k]) {
                v.iter().for_each(|k| seen[*k] = true);
                grow = true;
            }
        }
    }
    seen.iter().all(|x| *x) && c.cons.iter().all(|c| !c.2.is_empty())
}

/// Number of solutions by mine count of a set of independent segments (wrapping arithmetic:
/// equal values mean equal systems up to a 2^-128 accident). None when a count needs too many states.
pub fn solutions(cs: &[Comp], shift: usize, cap: usize) -> Option<Vec<u128>> {
    let mut all = vec![1u128];
    for c in cs {
        let o = c.order();
        let (p, _) = c.count(&o, &vec![None; c.cells.len()], cap)?;
        let mut n = vec![0u128; all.len() + p.len() - 1];
        for (i, a) in all.iter().enumerate() {
            for (j, b) in p.iter().enumerate() {
                n[i + j] = n[i + j].wrapping_add(a.wrapping_mul(*b));
            }
        }
        all = n;
    }
    let mut out = vec![0; shift];
    out.extend(all);
    while out.last() == Some(&0) {
        out.pop();
    }
    Some(out)
}

/// Reference player: opens only what every layout matching the numbers agrees is safe.
/// Some(true): clears the board from the start cell. None: too large to decide, or a border
/// segment beyond `limit` cells was met.
pub struct Walk {
    pub solved: bool,
    pub steps: usize,
    pub deep_steps: usize,
    pub longest: usize,
}
pub fn walk(board: &B, start: (usize, usize), cap: usize) -> Option<Walk> {
    let (r, c) = (board.len(), board[0].len());
    let mut g = vec![vec![10; c]; r];
    crate::board::reveal(board, &mut g, &[start]);
    let mut w = Walk { solved: false, steps: 0, deep_steps: 0, longest: 0 };
    loop {
        if (0..r).all(|i| (0..c).all(|j| board[i][j] < 0 || g[i][j] < 10)) {
            w.solved = true;
            return Some(w);
        }
        w.steps += 1;
        // single numbers first: cheap
        let mut safe = vec![];
        let mut any = false;
        for i in 0..r {
            for j in 0..c {
                if g[i][j] > 0 && g[i][j] < 10 {
                    let ns = neighbours(r, c, i, j);
                    let f = ns.iter().filter(|p| g[p.0][p.1] == 11).count() as i32;
                    let u: Vec<_> = ns.iter().filter(|p| g[p.0][p.1] == 10).cloned().collect();
                    if u.is_empty() {
                        continue;
                    }
                    if g[i][j] == f {
                        safe.extend(u);
                    } else if g[i][j] == f + u.len() as i32 {
                        u.iter().for_each(|p| g[p.0][p.1] = 11);
                        any = true;
                    }
                }
            }
        }
        if safe.is_empty() && !any {
            w.deep_steps += 1;
            let a = Analysis::new(&g, cap)?;
            w.longest = w.longest.max(a.max_segment());
            for (p, f) in a.forced() {
                match f {
                    Forced::Safe => safe.push(p),
                    Forced::Mine => {
                        g[p.0][p.1] = 11;
                        any = true;
                    }
                    Forced::Open => {}
                }
            }
            if safe.is_empty() {
                return Some(w);
            }
        }
        for p in safe {
            debug_assert!(board[p.0][p.1] >= 0);
            if g[p.0][p.1] == 10 {
                crate::board::reveal(board, &mut g, &[p]);
            }
        }
    }
}

/// the enumeration and the product over segments stay small
pub fn affordable(m: &Model, limit: usize, cap: usize) -> bool {
    for c in &m.comps {
        if c.cells.len() > limit {
            continue;
        }
        match c.merged_leaves(8000) {
            Some(l) if l < 40000 => {}
            _ => return false,
        }
        if c.count(&c.order(), &vec![None; c.cells.len()], cap).is_none() {
            return false;
        }
    }
    true
}
