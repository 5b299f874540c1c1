//! Reference model of one game driven by mouse events (physical buttons, not the code's state
//! names) and a generator of physically possible event histories.
use crate::board::*;
use crate::rng::Rng;
use std::collections::{BTreeSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    Pre,
    Playing,
    Win,
    Loss,
}

#[derive(Clone)]
pub struct Game {
    pub board: B,
    pub gb: B,
    pub st: St,
    pub l: bool,
    pub r: bool,
    /// a chord was released with the left button still down
    pub after: bool,
    /// the right press now held did nothing but was counted
    pub dull: bool,
    pub mid: bool,
    pub left: usize,
    pub right: usize,
    pub double: usize,
    pub ce: usize,
    pub flag: usize,
    pub bbbv: usize,
    pub pre: usize,
    flagged: BTreeSet<(usize, usize)>,
    /// 3BV unit of each cell: 0 none, otherwise the opening (zero cells only) or isolated number
    unit: Vec<Vec<usize>>,
    units: usize,
}

impl Game {
    pub fn new(board: &B) -> Game {
        let (r, c) = (board.len(), board[0].len());
        let mut unit = vec![vec![0; c]; r];
        let mut units = 0;
        let iso = isolated(board);
        for i in 0..r {
            for j in 0..c {
                if unit[i][j] != 0 {
                    continue;
                }
                if iso[i][j] {
                    units += 1;
                    unit[i][j] = units;
                } else if board[i][j] == 0 {
                    units += 1;
                    let mut todo = vec![(i, j)];
                    unit[i][j] = units;
                    while let Some(p) = todo.pop() {
                        for q in neighbours(r, c, p.0, p.1) {
                            if board[q.0][q.1] == 0 && unit[q.0][q.1] == 0 {
                                unit[q.0][q.1] = units;
                                todo.push(q);
                            }
                        }
                    }
                }
            }
        }
        Game {
            board: board.clone(),
            gb: vec![vec![10; c]; r],
            st: St::Ready,
            l: false,
            r: false,
            after: false,
            dull: false,
            mid: false,
            left: 0,
            right: 0,
            double: 0,
            ce: 0,
            flag: 0,
            bbbv: 0,
            pre: 0,
            flagged: BTreeSet::new(),
            unit,
            units,
        }
    }
    pub fn rows(&self) -> usize {
        self.board.len()
    }
    pub fn cols(&self) -> usize {
        self.board[0].len()
    }
    pub fn units(&self) -> usize {
        self.units
    }
    /// 3BV units whose cells are all open
    pub fn solved(&self, gb: &B) -> usize {
        let mut open = vec![true; self.units + 1];
        for (ur, gr) in self.unit.iter().zip(gb) {
            for (u, g) in ur.iter().zip(gr) {
                if *g >= 10 {
                    open[*u] = false;
                }
            }
        }
        open[1..].iter().filter(|x| **x).count()
    }
    /// another layout for the same field, before anything is open or flagged
    pub fn set_layout(&mut self, board: &B) {
        let n = Game::new(board);
        self.board = n.board;
        self.unit = n.unit;
        self.units = n.units;
    }
    pub fn inside(&self, p: (usize, usize)) -> bool {
        p.0 < self.rows() && p.1 < self.cols()
    }
    fn forget(&mut self) {
        self.left = 0;
        self.right = 0;
        self.double = 0;
        self.ce = 0;
        self.flag = 0;
        self.pre = 0;
        self.flagged.clear();
        self.st = St::Ready;
    }
    fn opened(&mut self) {
        self.bbbv = self.solved(&self.gb);
        if (0..self.rows()).all(|i| (0..self.cols()).all(|j| self.board[i][j] == -1 || self.gb[i][j] < 10)) {
            self.st = St::Win;
        }
    }
    fn left_click(&mut self, p: (usize, usize)) -> u8 {
        self.left += 1;
        if self.gb[p.0][p.1] != 10 {
            return 0;
        }
        let mut gb = self.gb.clone();
        reveal(&self.board, &mut gb, &[p]);
        self.gb = gb;
        if self.board[p.0][p.1] == -1 {
            self.st = St::Loss;
            return 0;
        }
        self.ce += 1;
        self.opened();
        2
    }
    fn right_click(&mut self, p: (usize, usize)) -> u8 {
        self.right += 1;
        match self.gb[p.0][p.1] {
            10 => {
                self.gb[p.0][p.1] = 11;
                self.flag += 1;
                if self.board[p.0][p.1] == -1 && self.flagged.insert(p) {
                    self.ce += 1;
                }
                1
            }
            11 => {
                self.gb[p.0][p.1] = 10;
                self.flag -= 1;
                1
            }
            _ => 0,
        }
    }
    fn chord(&mut self, p: (usize, usize)) -> u8 {
        if !self.inside(p) {
            return 0;
        }
        self.double += 1;
        let n = self.gb[p.0][p.1];
        let nb = neighbours(self.rows(), self.cols(), p.0, p.1);
        let flags = nb.iter().filter(|q| self.gb[q.0][q.1] == 11).count() as i32;
        let cells: Vec<_> = nb.into_iter().filter(|q| self.gb[q.0][q.1] == 10).collect();
        if !(1..=7).contains(&n) || flags != n || cells.is_empty() {
            return 0;
        }
        let mut gb = self.gb.clone();
        reveal(&self.board, &mut gb, &cells);
        self.gb = gb;
        self.ce += 1;
        let dead = cells.iter().any(|q| self.board[q.0][q.1] == -1);
        self.opened();
        if dead {
            self.st = St::Loss;
        }
        3
    }
    fn chord_ends(&mut self, p: (usize, usize)) -> u8 {
        if self.dull {
            self.right -= 1;
            self.dull = false;
        }
        self.chord(p)
    }
    /// one event of a physically possible history
    pub fn step(&mut self, e: &str, p: (usize, usize)) -> u8 {
        if self.st == St::Win || self.st == St::Loss {
            return 0;
        }
        let e = match e {
            "l" if self.l => "lr",
            "l" => "lc",
            "r" if self.r => "rr",
            "r" => "rc",
            "m" if self.mid => "mr",
            "m" => "mc",
            "cc" if self.l => "rc",
            "cc" => "lc",
            "crl" => "lr",
            "crr" => "rr",
            x => x,
        };
        let playing = self.st == St::Playing;
        match e {
            "lc" => {
                self.l = true;
                self.after = false;
                if self.st == St::Ready && !self.r && self.inside(p) {
                    self.st = St::Pre;
                }
            }
            "lr" => {
                self.l = false;
                if self.r {
                    return if self.st == St::Ready { 0 } else { self.chord_ends(p) };
                }
                if self.after {
                    self.after = false;
                } else if playing && self.inside(p) {
                    return self.left_click(p);
                } else if self.st == St::Pre {
                    if !self.inside(p) {
                        if self.pre == 0 {
                            self.forget();
                        }
                    } else if self.gb[p.0][p.1] == 10 {
                        self.st = St::Playing;
                        return self.left_click(p);
                    }
                }
            }
            "rc" => {
                self.r = true;
                if self.l {
                    self.after = false;
                    if self.st == St::Pre && self.pre == 0 {
                        self.st = St::Ready;
                    }
                    return 0;
                }
                if !self.inside(p) {
                    return 0;
                }
                if playing {
                    self.dull = self.gb[p.0][p.1] < 10;
                    return self.right_click(p);
                }
                if self.gb[p.0][p.1] == 10 {
                    self.pre += 1;
                    self.st = St::Pre;
                    return self.right_click(p);
                }
                self.pre -= 1;
                if self.pre > 0 {
                    return self.right_click(p);
                }
                self.gb[p.0][p.1] = 10;
                self.forget();
            }
            "rr" => {
                self.r = false;
                if self.l {
                    self.after = true;
                    return if self.st == St::Ready { 0 } else { self.chord_ends(p) };
                }
                self.dull = false;
            }
            "pf" => {
                self.pre += 1;
                self.st = St::Pre;
                return self.right_click(p);
            }
            "mc" => self.mid = true,
            "mr" => {
                self.mid = false;
                return self.chord(p);
            }
            _ => (),
        }
        0
    }
}

/// Chooses events of a plausible, careless or wild player.
pub struct Player {
    q: VecDeque<(&'static str, (usize, usize))>,
    skill: f64,
    flagger: f64,
    pub wild: f64,
    /// also emit l, r, m, crl, crr
    pub alias: bool,
    /// also emit cc
    pub cc: bool,
    /// also use the middle button
    pub middle: bool,
    /// emit releases and presses outside of the board
    pub outside: bool,
    pub moves: f64,
    pub preflags: bool,
    /// how often to flag all mines around a number nearby and chord there
    pub local: f64,
    last: (usize, usize),
}

impl Player {
    pub fn new(rng: &mut Rng) -> Player {
        Player {
            q: VecDeque::new(),
            skill: *rng.pick(&[1.0, 0.99, 0.97, 0.9, 0.5]),
            flagger: *rng.pick(&[0.0, 0.2, 0.5, 0.8]),
            wild: *rng.pick(&[0.0, 0.0, 0.05, 0.3]),
            alias: true,
            cc: true,
            middle: true,
            outside: true,
            moves: *rng.pick(&[0.0, 0.1, 0.4]),
            preflags: rng.chance(0.4),
            local: 0.0,
            last: (0, 0),
        }
    }
    fn cell(&self, rng: &mut Rng, g: &Game, ok: impl Fn(usize, usize) -> bool) -> (usize, usize) {
        let (r, c) = (g.rows(), g.cols());
        if rng.chance(self.skill) {
            let near = rng.chance(0.7);
            let s = rng.below(r * c);
            for k in 0..r * c {
                let t = (s + k * 7919) % (r * c);
                let p = (t / c, t % c);
                if ok(p.0, p.1) && (!near || neighbours(r, c, p.0, p.1).iter().any(|q| g.gb[q.0][q.1] < 10)) {
                    return p;
                }
            }
            for t in 0..r * c {
                let p = (t / c, t % c);
                if ok(p.0, p.1) {
                    return p;
                }
            }
        }
        (rng.below(r), rng.below(c))
    }
    fn out(&self, g: &Game) -> (usize, usize) {
        (g.rows(), g.cols())
    }
    /// flags around a number near the last event, then a chord on it
    fn spot(&mut self, rng: &mut Rng, g: &Game) -> bool {
        let (r, c) = (g.rows(), g.cols());
        let (b, gb) = (&g.board, &g.gb);
        let near = if rng.chance(0.9) { 3 } else { r + c };
        let mut best: Vec<((usize, usize), usize)> = vec![];
        for i in 0..r {
            for j in 0..c {
                if !(1..9).contains(&gb[i][j]) || i.abs_diff(self.last.0) > near || j.abs_diff(self.last.1) > near {
                    continue;
                }
                let nb = neighbours(r, c, i, j);
                let opens = nb.iter().filter(|q| gb[q.0][q.1] == 10 && b[q.0][q.1] >= 0).count();
                if opens > 0 && nb.iter().all(|q| gb[q.0][q.1] != 11 || b[q.0][q.1] == -1) {
                    best.push(((i, j), opens));
                }
            }
        }
        if best.is_empty() {
            return false;
        }
        let top = best.iter().map(|x| x.1).max().unwrap();
        if rng.chance(0.9) {
            best.retain(|x| x.1 == top);
        }
        let p = rng.pick(&best).0;
        for q in neighbours(r, c, p.0, p.1) {
            if b[q.0][q.1] == -1 && gb[q.0][q.1] == 10 {
                self.q.push_back(("rc", q));
                self.q.push_back(("rr", q));
            }
        }
        let (a, z, ar, zr) = if rng.chance(0.5) { ("lc", "rc", "lr", "rr") } else { ("rc", "lc", "rr", "lr") };
        let (x, y) = if rng.chance(0.5) { (ar, zr) } else { (zr, ar) };
        for e in [a, z, x, y] {
            self.q.push_back((e, p));
        }
        true
    }
    fn plan(&mut self, rng: &mut Rng, g: &Game) {
        let playing = g.st == St::Playing;
        let (b, gb) = (&g.board, &g.gb);
        if rng.chance(0.2 * self.moves) {
            let p = self.cell(rng, g, |_, _| true);
            self.q.push_back(("mv", p));
            return;
        }
        if playing && self.local > 0.0 && rng.chance(self.local) && self.spot(rng, g) {
            return;
        }
        let what = if !playing {
            if self.preflags && rng.chance(0.7) { if rng.chance(0.2) { 2 } else { 1 } } else { 0 }
        } else if rng.chance(self.flagger) {
            *rng.pick(&[1, 1, 2, 2, 3])
        } else {
            *rng.pick(&[0, 0, 0, 0, 2])
        };
        match what {
            0 => {
                let p = self.cell(rng, g, |i, j| b[i][j] >= 0 && gb[i][j] == 10);
                let from = if rng.chance(0.1) { self.cell(rng, g, |_, _| true) } else { p };
                let to = if self.outside && rng.chance(0.03) { self.out(g) } else { p };
                self.q.push_back(("lc", from));
                self.q.push_back(("lr", to));
            }
            1 => {
                let p = if rng.chance(0.06) {
                    self.cell(rng, g, |i, j| b[i][j] >= 0 && gb[i][j] == 10)
                } else {
                    self.cell(rng, g, |i, j| b[i][j] == -1 && gb[i][j] == 10)
                };
                self.q.push_back(("rc", p));
                if self.outside && rng.chance(0.03) {
                    self.q.push_back(("rr", self.out(g)));
                } else {
                    self.q.push_back(("rr", p));
                }
            }
            3 => {
                // drop a flag again (wrong ones first)
                let wrong = rng.chance(0.8);
                let p = self.cell(rng, g, |i, j| gb[i][j] == 11 && (!wrong || b[i][j] >= 0));
                if gb[p.0][p.1] == 11 && (b[p.0][p.1] >= 0 || rng.chance(0.1)) {
                    self.q.push_back(("rc", p));
                    self.q.push_back(("rr", p));
                }
            }
            _ => {
                let full = |i: usize, j: usize| {
                    let nb = neighbours(g.rows(), g.cols(), i, j);
                    (1..9).contains(&gb[i][j])
                        && nb.iter().any(|q| gb[q.0][q.1] == 10)
                        && nb.iter().filter(|q| gb[q.0][q.1] == 11).count() as i32 == gb[i][j]
                        && (self.skill < 0.98 || nb.iter().all(|q| (gb[q.0][q.1] == 11) == (b[q.0][q.1] == -1)))
                };
                if !(0..g.rows()).any(|i| (0..g.cols()).any(|j| full(i, j))) && rng.chance(0.9) {
                    return;
                }
                let p = self.cell(rng, g, full);
                if gb[p.0][p.1] == 10 && b[p.0][p.1] == -1 && rng.chance(0.9) {
                    return;
                }
                if self.middle && playing && rng.chance(0.15) {
                    self.q.push_back(("mc", p));
                    self.q.push_back(("mr", if self.outside && rng.chance(0.05) { self.out(g) } else { p }));
                    return;
                }
                let (a, z, ar, zr) = if rng.chance(0.5) { ("lc", "rc", "lr", "rr") } else { ("rc", "lc", "rr", "lr") };
                let from = p;
                if a == "rc" && gb[p.0][p.1] >= 10 {
                    return;
                }
                self.q.push_back((a, from));
                self.q.push_back((z, p));
                let to = if self.outside && rng.chance(0.04) { self.out(g) } else { p };
                let (x, y) = if rng.chance(0.5) { (ar, zr) } else { (zr, ar) };
                self.q.push_back((x, to));
                if rng.chance(0.15) {
                    // press the released button again: another chord elsewhere
                    let p2 = self.cell(rng, g, full);
                    self.q.push_back((if x == "lr" { "lc" } else { "rc" }, p2));
                    if rng.chance(0.5) {
                        self.q.push_back((x, p2));
                        self.q.push_back((y, p2));
                    } else {
                        self.q.push_back((y, p2));
                        self.q.push_back((x, p2));
                    }
                } else {
                    self.q.push_back((y, p));
                }
            }
        }
    }
    /// next event, always possible for real mouse buttons in the state of `g`
    pub fn next(&mut self, rng: &mut Rng, g: &Game) -> (&'static str, (usize, usize)) {
        let (r, c) = (g.rows(), g.cols());
        let playing = g.st == St::Playing;
        if rng.chance(self.moves) {
            let p = if rng.chance(0.5) { self.last } else { (rng.below(r), rng.below(c)) };
            return ("mv", p);
        }
        if rng.chance(self.wild) && self.q.is_empty() || rng.chance(self.wild * 0.2) {
            // any single button change that is possible now
            self.q.clear();
            let mut p = (rng.below(r), rng.below(c));
            let k = rng.below(if playing && self.middle { 3 } else { 2 });
            let press = match k {
                0 => !g.l,
                1 => !g.r,
                _ => !g.mid,
            };
            if self.outside && rng.chance(0.1) && (!press || playing) {
                p = (r, c);
            }
            let e = match (k, press) {
                (0, true) => "lc",
                (0, false) => "lr",
                (1, true) => "rc",
                (1, false) => "rr",
                (_, true) => "mc",
                (_, false) => "mr",
            };
            return self.emit(rng, g, e, p);
        }
        for _ in 0..20 {
            if !self.q.is_empty() {
                break;
            }
            if g.l || g.r {
                let p = (rng.below(r), rng.below(c));
                let both = g.l && g.r;
                self.q.push_back((if g.l && (!both || rng.chance(0.5)) { "lr" } else { "rr" }, p));
            } else {
                self.plan(rng, g);
            }
        }
        while let Some((e, p)) = self.q.pop_front() {
            let fits = match e {
                "lc" => !g.l,
                "lr" => g.l,
                "rc" => !g.r,
                "rr" => g.r,
                "mc" => playing && !g.mid,
                "mr" => playing && g.mid,
                _ => true,
            };
            if !fits {
                self.q.clear();
                break;
            }
            return self.emit(rng, g, e, p);
        }
        ("mv", self.last)
    }
    fn emit(&mut self, rng: &mut Rng, g: &Game, e: &'static str, p: (usize, usize)) -> (&'static str, (usize, usize)) {
        self.last = if p.0 < g.rows() && p.1 < g.cols() { p } else { self.last };
        let mut e = e;
        if self.cc && rng.chance(0.1) {
            e = match e {
                "lc" if g.r => "cc",
                "rc" if g.l => "cc",
                x => x,
            };
        }
        if self.alias && e != "cc" && rng.chance(0.15) {
            let playing = g.st == St::Playing;
            e = match e {
                "lr" if g.r && playing && rng.chance(0.5) => "crl",
                "rr" if g.l && playing && rng.chance(0.5) => "crr",
                "lc" | "lr" if playing => "l",
                "rc" | "rr" if playing => "r",
                "mc" | "mr" if playing => "m",
                x => x,
            };
        }
        (e, p)
    }
}

pub fn fmt_events(ev: &[(&str, (usize, usize))]) -> String {
    let k = ev.len().saturating_sub(60);
    let s: Vec<String> = ev[k..].iter().map(|(e, p)| format!("{e}@{},{}", p.0, p.1)).collect();
    format!("{}{}", if k > 0 { format!("...{k} more... ") } else { String::new() }, s.join(" "))
}
