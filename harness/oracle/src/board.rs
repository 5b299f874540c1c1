//! Reference model of boards: numbers, openings, islands, 3BV, revealing. Written from the
//! minesweeper definitions, not from the code under test.
use crate::rng::Rng;

pub type B = Vec<Vec<i32>>;

pub fn neighbours(r: usize, c: usize, x: usize, y: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::with_capacity(8);
    for dx in -1i64..=1 {
        for dy in -1i64..=1 {
            if dx == 0 && dy == 0 {
                continue;
            }
            let (a, b) = (x as i64 + dx, y as i64 + dy);
            if a >= 0 && b >= 0 && a < r as i64 && b < c as i64 {
                v.push((a as usize, b as usize));
            }
        }
    }
    v
}

/// Board with numbers from a mine mask.
pub fn numbered(mines: &[Vec<bool>]) -> B {
    let (r, c) = (mines.len(), mines[0].len());
    let mut b = vec![vec![0; c]; r];
    for i in 0..r {
        for j in 0..c {
            b[i][j] = if mines[i][j] {
                -1
            } else {
                neighbours(r, c, i, j).iter().filter(|p| mines[p.0][p.1]).count() as i32
            };
        }
    }
    b
}

pub fn mine_mask(b: &B) -> Vec<Vec<bool>> {
    b.iter().map(|r| r.iter().map(|x| *x == -1).collect()).collect()
}

pub fn mine_count(b: &B) -> usize {
    b.iter().flatten().filter(|x| **x == -1).count()
}

/// every number equals its adjacent mine count and every cell is -1..=8
pub fn consistent(b: &B) -> bool {
    !b.is_empty() && b.iter().all(|r| r.len() == b[0].len()) && numbered(&mine_mask(b)) == *b
}

struct Dsu(Vec<usize>);
impl Dsu {
    fn new(n: usize) -> Dsu {
        Dsu((0..n).collect())
    }
    fn find(&mut self, a: usize) -> usize {
        let mut a = a;
        while self.0[a] != a {
            self.0[a] = self.0[self.0[a]];
            a = self.0[a];
        }
        a
    }
    fn join(&mut self, a: usize, b: usize) {
        let (a, b) = (self.find(a), self.find(b));
        self.0[a] = b;
    }
}

fn components(set: &[Vec<bool>]) -> usize {
    let (r, c) = (set.len(), set[0].len());
    let mut d = Dsu::new(r * c);
    for i in 0..r {
        for j in 0..c {
            if set[i][j] {
                for (a, b) in neighbours(r, c, i, j) {
                    if set[a][b] {
                        d.join(i * c + j, a * c + b);
                    }
                }
            }
        }
    }
    let mut n = 0;
    for i in 0..r {
        for j in 0..c {
            if set[i][j] && d.find(i * c + j) == i * c + j {
                n += 1;
            }
        }
    }
    n
}

/// number of openings: 8-connected groups of zero cells
pub fn openings(b: &B) -> usize {
    components(&b.iter().map(|r| r.iter().map(|x| *x == 0).collect()).collect::<Vec<Vec<bool>>>())
}

/// numbered cells that touch no zero
pub fn isolated(b: &B) -> Vec<Vec<bool>> {
    let (r, c) = (b.len(), b[0].len());
    (0..r)
        .map(|i| {
            (0..c)
                .map(|j| b[i][j] > 0 && neighbours(r, c, i, j).iter().all(|p| b[p.0][p.1] != 0))
                .collect()
        })
        .collect()
}

pub fn islands(b: &B) -> usize {
    components(&isolated(b))
}

pub fn bbbv(b: &B) -> usize {
    openings(b) + isolated(b).iter().flatten().filter(|x| **x).count()
}

pub fn cell_nums(b: &B) -> [usize; 9] {
    let mut a = [0; 9];
    for x in b.iter().flatten() {
        if *x >= 0 {
            a[*x as usize] += 1;
        }
    }
    a
}

/// Mine masks with varied densities and shapes.
pub fn random_mask(rng: &mut Rng, r: usize, c: usize, n: usize) -> Vec<Vec<bool>> {
    let mut idx: Vec<usize> = (0..r * c).collect();
    rng.shuffle(&mut idx);
    if r > 2 && c > 2 && n > 6 && n < r * c && rng.chance(0.15) {
        // the rare numbers: a cell with mines all around, or all but one
        let (x, y) = (rng.range(1, r - 2), rng.range(1, c - 2));
        let place = |k: &usize| match (k / c == x && k % c == y, (k / c).abs_diff(x) < 2 && (k % c).abs_diff(y) < 2) {
            (true, _) => 2,
            (_, true) => 0,
            _ => 1,
        };
        idx.sort_by_key(place);
        let missing = rng.below(3) == 0;
        if missing {
            idx[..8.min(r * c)].rotate_left(1);
            let one = idx.remove(7);
            let end = idx.len() - 1;
            idx.insert(end, one);
        }
    }
    let mut m = vec![vec![false; c]; r];
    for k in idx.into_iter().take(n) {
        m[k / c][k % c] = true;
    }
    m
}

pub fn random_board(rng: &mut Rng, r: usize, c: usize, n: usize) -> B {
    numbered(&random_mask(rng, r, c, n))
}

/// Boards of hostile shapes: empty, full, stripes, snakes (one long winding opening), rings,
/// checkerboards and plain random ones at every density.
pub fn shaped_board(rng: &mut Rng, r: usize, c: usize) -> B {
    let kind = rng.below(9);
    let mut m = vec![vec![false; c]; r];
    match kind {
        0 => {}
        1 => m.iter_mut().flatten().for_each(|x| *x = true),
        2 => {
            let k = rng.range(2, 5);
            for i in 0..r {
                for j in 0..c {
                    m[i][j] = (i + j) % k == 0;
                }
            }
        }
        3 => {
            // winding walls: long U shaped openings
            let gap = rng.range(4, 6);
            for i in (gap - 1..r).step_by(gap) {
                let left = (i / gap) % 2 == 0;
                for j in 0..c {
                    let hole = if left { j < 3 } else { j + 3 >= c };
                    m[i][j] = !hole;
                }
            }
        }
        4 => {
            // nested rings
            for i in 0..r {
                for j in 0..c {
                    let d = i.min(j).min(r - 1 - i).min(c - 1 - j);
                    m[i][j] = d % 4 == 3 && !(i == d && j == d);
                }
            }
        }
        5 => {
            // vertical comb
            let gap = rng.range(3, 6);
            for j in (gap - 1..c).step_by(gap) {
                for i in 0..r {
                    m[i][j] = i + 3 < r;
                }
            }
        }
        6 => {
            for i in 0..r {
                for j in 0..c {
                    m[i][j] = i % 2 == 0 && j % 2 == 0;
                }
            }
        }
        _ => {
            let d = rng.f64();
            for x in m.iter_mut().flatten() {
                *x = rng.chance(d * d);
            }
        }
    }
    // perturb
    let flips = rng.below(4);
    for _ in 0..flips {
        let (i, j) = (rng.below(r), rng.below(c));
        m[i][j] = !m[i][j];
    }
    numbered(&m)
}

/// Reveal by breadth-first flood (unopened = 10 or 12 spread; clicked cells always open).
pub fn reveal(b: &B, g: &mut B, clicks: &[(usize, usize)]) {
    let (r, c) = (b.len(), b[0].len());
    let mut hit = false;
    let mut q: std::collections::VecDeque<(usize, usize)> = clicks.iter().cloned().collect();
    while let Some((x, y)) = q.pop_front() {
        if b[x][y] == -1 {
            g[x][y] = 15;
            hit = true;
            continue;
        }
        g[x][y] = b[x][y];
        if b[x][y] == 0 {
            for (a, d) in neighbours(r, c, x, y) {
                if g[a][d] == 10 || g[a][d] == 12 {
                    g[a][d] = b[a][d];
                    q.push_back((a, d));
                }
            }
        }
    }
    if hit {
        for i in 0..r {
            for j in 0..c {
                if g[i][j] == 11 && b[i][j] != -1 {
                    g[i][j] = 14;
                }
            }
        }
    }
}

pub fn fmt_board(b: &B) -> String {
    let mut s = String::from("[");
    for (i, r) in b.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push('[');
        for (j, x) in r.iter().enumerate() {
            if j > 0 {
                s.push(',');
            }
            s.push_str(&x.to_string());
        }
        s.push(']');
    }
    s.push(']');
    s
}
