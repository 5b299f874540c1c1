//! Recorded games: synthetic event streams, their replay on the reference model, and independent
//! encoders and decoders of the file formats (EVF after the published document, the others after
//! the layout their parsers document).
use crate::board::*;
use crate::game::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub e: &'static str,
    /// milliseconds since the first recorded event
    pub t: u32,
    pub y: usize,
    pub x: usize,
}

/// how a stream of events is made
pub struct Plan {
    pub pix: usize,
    pub max_steps: usize,
    pub tick: u32,
    pub player: Player,
    /// begin with this many "pf" events
    pub pf: usize,
    /// give up (leave unfinished) instead of clicking the rest
    pub unfinished: bool,
}

impl Game {
    /// number of the mouse state as reported to other languages
    pub fn mouse(&self) -> usize {
        match (self.l, self.r) {
            (false, false) => 1,
            (false, true) if self.dull => 3,
            (false, true) => 2,
            (true, false) if self.after => 7,
            (true, false) => 4,
            (true, true) if self.dull => 6,
            (true, true) => 5,
        }
    }
    pub fn over(&self) -> bool {
        self.st == St::Win || self.st == St::Loss
    }
}

/// Events of one game from the first one that counts, as a recorder keeps them.
pub fn script(rng: &mut Rng, board: &B, mut plan: Plan) -> (Vec<Ev>, Game) {
    let (r, c) = (board.len(), board[0].len());
    let mut g = Game::new(board);
    let mut out: Vec<Ev> = vec![];
    let mut t = 0u32;
    let pix = plan.pix;
    let mut fin: Vec<(&'static str, (usize, usize))> = vec![];
    let mut pf = plan.pf;
    for k in 0.. {
        if g.over() {
            break;
        }
        let (e, p) = if pf > 0 {
            pf -= 1;
            let mut p = None;
            for _ in 0..50 {
                let q = (rng.below(r), rng.below(c));
                if g.gb[q.0][q.1] == 10 && (board[q.0][q.1] == -1 || rng.chance(0.02)) {
                    p = Some(q);
                    break;
                }
            }
            let Some(p) = p else { continue };
            ("pf", p)
        } else if k < plan.max_steps {
            plan.player.next(rng, &g)
        } else if plan.unfinished && g.st == St::Playing {
            break;
        } else {
            if fin.is_empty() {
                let q = (rng.below(r), rng.below(c));
                if g.mid {
                    fin.push(("mr", (r, c)));
                } else if g.l {
                    fin.push(("lr", if g.st == St::Playing { (r, c) } else { q }));
                } else if g.r {
                    fin.push(("rr", (r, c)));
                } else {
                    let cells: Vec<_> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|q| board[q.0][q.1] != -1 && g.gb[q.0][q.1] >= 10).collect();
                    let q = *rng.pick(&cells);
                    if g.gb[q.0][q.1] == 11 {
                        fin.push(("rr", q));
                        fin.push(("rc", q));
                    } else {
                        fin.push(("lr", q));
                        fin.push(("lc", q));
                    }
                }
            }
            fin.pop().unwrap()
        };
        g.step(e, p);
        if g.st == St::Ready {
            out.clear();
            t = 0;
            continue;
        }
        if !out.is_empty() {
            t += match rng.below(10) {
                0 => 0,
                1..=7 => rng.below(1 + plan.tick as usize) as u32,
                8 => 1,
                _ => rng.below(1 + 8 * plan.tick as usize) as u32,
            };
        }
        let (y, x) = if g.inside(p) { (p.0 * pix + rng.below(pix), p.1 * pix + rng.below(pix)) } else { (r * pix, c * pix) };
        out.push(Ev { e, t, y, x });
    }
    (out, g)
}

pub struct Snap {
    pub level: u8,
    pub prior: usize,
    pub next: usize,
    pub left: usize,
    pub right: usize,
    pub double: usize,
    pub ce: usize,
    pub flag: usize,
    pub bbbv: usize,
    pub mouse: usize,
    pub path: f64,
    pub st: St,
}
pub struct Replay {
    pub snaps: Vec<Snap>,
    pub boards: Vec<B>,
    /// the event that starts the game
    pub start: Option<usize>,
    pub game: Game,
}

/// What the rules say about a recorded stream. Path counts from the starting event on.
pub fn replay(board: &B, pix: usize, evs: &[Ev]) -> Replay {
    let (r, c) = (board.len(), board[0].len());
    let mut g = Game::new(board);
    let mut rp = Replay { snaps: vec![], boards: vec![vec![vec![10; c]; r]], start: None, game: g.clone() };
    let mut last: Option<(f64, f64)> = None;
    let mut path = 0.0;
    for (k, ev) in evs.iter().enumerate() {
        let p = (ev.y / pix, ev.x / pix);
        let prior = rp.boards.len() - 1;
        let was = g.st;
        let level = if ev.e == "mv" { 0 } else { g.step(ev.e, p) };
        if level >= 1 {
            rp.boards.push(g.gb.clone());
        }
        if matches!(was, St::Ready | St::Pre) && matches!(g.st, St::Playing | St::Win | St::Loss) {
            rp.start = Some(k);
            path = 0.0;
        } else if g.inside(p) && rp.start.is_some() {
            let (y, x) = last.unwrap_or((ev.y as f64, ev.x as f64));
            path += ((ev.y as f64 - y).powi(2) + (ev.x as f64 - x).powi(2)).sqrt() * 16.0 / pix as f64;
        }
        if g.inside(p) {
            last = Some((ev.y as f64, ev.x as f64));
        }
        rp.snaps.push(Snap { level, prior, next: rp.boards.len() - 1, left: g.left, right: g.right, double: g.double, ce: g.ce, flag: g.flag, bbbv: g.bbbv, mouse: g.mouse(), path, st: g.st });
    }
    rp.game = g;
    rp
}

// ---------------------------------------------------------------- EVF
#[derive(Clone, Debug, PartialEq)]
pub struct Evf {
    pub completed: bool,
    pub official: bool,
    pub fair: bool,
    pub mines: usize,
    pub pix: usize,
    pub mode: usize,
    pub bbbv: usize,
    pub rtime: usize,
    /// software, player, race, uniqueness, start, end, country, device
    pub text: [Vec<u8>; 8],
    pub board: B,
    pub evs: Vec<Ev>,
    pub sum: Option<Vec<u8>>,
}

pub const EVENTS: [&str; 9] = ["mv", "lc", "lr", "rc", "rr", "mc", "mr", "pf", "cc"];

fn be(out: &mut Vec<u8>, n: usize, bytes: u32) {
    for k in (0..bytes).rev() {
        out.push((n >> (8 * k)) as u8);
    }
}

pub fn encode_evf(f: &Evf) -> Vec<u8> {
    let mut o = vec![0u8, (f.completed as u8) * 128 + (f.official as u8) * 64 + (f.fair as u8) * 32];
    be(&mut o, f.board.len(), 1);
    be(&mut o, f.board[0].len(), 1);
    be(&mut o, f.mines, 2);
    be(&mut o, f.pix, 1);
    be(&mut o, f.mode, 2);
    be(&mut o, f.bbbv, 2);
    be(&mut o, f.rtime, 3);
    for s in &f.text {
        o.extend_from_slice(s);
        o.push(0);
    }
    let bits: Vec<bool> = f.board.iter().flatten().map(|x| *x == -1).collect();
    for ch in bits.chunks(8) {
        o.push((0..8).map(|k| if ch.get(k) == Some(&true) { 128u8 >> k } else { 0 }).sum());
    }
    for e in &f.evs {
        o.push(1 + EVENTS.iter().position(|x| *x == e.e).unwrap() as u8);
        be(&mut o, e.t as usize, 3);
        be(&mut o, e.x, 2);
        be(&mut o, e.y, 2);
    }
    match &f.sum {
        Some(s) => {
            o.push(0);
            o.extend_from_slice(s);
        }
        None => o.push(255),
    }
    o
}

pub struct Rd<'a>(pub &'a [u8], pub usize);
impl Rd<'_> {
    fn n(&mut self, k: usize) -> Result<usize, String> {
        let mut v = 0;
        for _ in 0..k {
            v = v * 256 + *self.0.get(self.1).ok_or_else(|| format!("data ends at {}", self.1))? as usize;
            self.1 += 1;
        }
        Ok(v)
    }
}

pub fn decode_evf(b: &[u8]) -> Result<Evf, String> {
    let mut d = Rd(b, 0);
    if d.n(1)? != 0 {
        return Err("version is not 0".into());
    }
    let fl = d.n(1)?;
    if fl & 31 != 0 {
        return Err(format!("reserved summary bits set: {fl:#x}"));
    }
    let (h, w) = (d.n(1)?, d.n(1)?);
    let mines = d.n(2)?;
    let (pix, mode, bbbv, rtime) = (d.n(1)?, d.n(2)?, d.n(2)?, d.n(3)?);
    let mut text: [Vec<u8>; 8] = Default::default();
    for s in text.iter_mut() {
        loop {
            let x = d.n(1)? as u8;
            if x == 0 {
                break;
            }
            s.push(x);
        }
    }
    let nb = (h * w + 7) / 8;
    let mut bits = vec![];
    for _ in 0..nb {
        let x = d.n(1)?;
        for k in 0..8 {
            bits.push(x & (128 >> k) != 0);
        }
    }
    if bits[h * w..].iter().any(|x| *x) {
        return Err("padding bits set".into());
    }
    let mut board = vec![vec![0; w]; h];
    for i in 0..h {
        for j in 0..w {
            if bits[i * w + j] {
                board[i][j] = -1;
            }
        }
    }
    board = numbered(&mine_mask(&board));
    let mut evs = vec![];
    let sum;
    loop {
        let k = d.n(1)?;
        match k {
            0 => {
                if d.1 + 32 > b.len() {
                    return Err("checksum too short".into());
                }
                sum = Some(b[d.1..d.1 + 32].to_vec());
                d.1 += 32;
                break;
            }
            255 => {
                sum = None;
                break;
            }
            1..=9 => {
                let (t, x, y) = (d.n(3)?, d.n(2)?, d.n(2)?);
                evs.push(Ev { e: EVENTS[k - 1], t: t as u32, y, x });
            }
            _ => return Err(format!("event code {k}")),
        }
    }
    if d.1 != b.len() {
        return Err(format!("{} bytes after the end", b.len() - d.1));
    }
    Ok(Evf { completed: fl & 128 != 0, official: fl & 64 != 0, fair: fl & 32 != 0, mines, pix, mode, bbbv, rtime, text, board, evs, sum })
}

/// non-zero bytes
pub fn random_text(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![],
        1 => "元3.2 吕布,\r\n[|]".as_bytes().to_vec(),
        2 => (0..rng.below(300)).map(|_| rng.range(1, 255) as u8).collect(),
        _ => (0..rng.below(30)).map(|_| if rng.chance(0.8) { rng.range(32, 126) as u8 } else { rng.range(1, 255) as u8 }).collect(),
    }
}

/// a field size and mine count with the standard levels among them
pub fn random_field(rng: &mut Rng, maxc: usize) -> (usize, usize, usize) {
    let (r, c) = match rng.below(8) {
        0 => (rng.range(1, 3), rng.range(1, 5)),
        1 => (8, 8),
        2 => (16, 16),
        3 => (16, 30.min(maxc)),
        4 => (rng.range(1, 24), rng.range(1, 40.min(maxc))),
        _ => (rng.range(2, 12), rng.range(2, 14.min(maxc))),
    };
    let n = match (r, c) {
        (8, 8) => 10,
        (16, 16) => 40,
        (16, 30) => 99,
        _ => r * c * rng.range(1, 24) / 100,
    };
    (r, c, n)
}

// ---------------------------------------------------------------- AVF
/// What an AVF file says. Times of events are hundredths of a second.
#[derive(Clone, Debug)]
pub struct Avf {
    pub board: B,
    pub level: u8,
    pub bbbv: usize,
    /// result in hundredths of a second
    pub rtime: u32,
    pub start: Vec<u8>,
    pub end: Vec<u8>,
    pub player: Vec<u8>,
    pub evs: Vec<Ev>,
}

fn bytes(rng: &mut Rng, n: usize, lo: usize, hi: usize) -> Vec<u8> {
    (0..n).map(|_| rng.range(lo, hi) as u8).collect()
}

pub fn encode_avf(rng: &mut Rng, f: &Avf) -> Vec<u8> {
    let (r, c) = (f.board.len(), f.board[0].len());
    let mut o = bytes(rng, 5, 0, 255);
    o.push(f.level);
    let mut mines: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|p| f.board[p.0][p.1] == -1).collect();
    if f.level == 6 {
        be(&mut o, c - 1, 1);
        be(&mut o, r - 1, 1);
        be(&mut o, mines.len(), 2);
    }
    rng.shuffle(&mut mines);
    for (i, j) in mines {
        o.push((i + 1) as u8);
        o.push((j + 1) as u8);
    }
    let n = rng.below(30);
    // settings, with near misses of the "[0|" mark
    for b in bytes(rng, n, 0, 255) {
        o.push(if b == b'|' { b'/' } else { b });
    }
    if rng.chance(0.3) {
        o.extend_from_slice(b"[9|[x[0[|");
    }
    o.push(b'[');
    o.push(b'0' + rng.below(4) as u8);
    o.push(b'|');
    o.extend_from_slice(&f.start);
    o.push(b'|');
    o.extend_from_slice(&f.end);
    o.push(b'|');
    match rng.below(4) {
        0 => o.extend_from_slice(b"|"),
        1 => o.extend_from_slice(b"extra|x|"),
        _ => (),
    }
    let t = f.rtime + 100;
    let sep = if rng.chance(0.3) { ',' } else { '.' };
    o.extend_from_slice(format!("B{}T{}{}{:02}]", f.bbbv, t / 100, sep, t % 100).as_bytes());
    let n = rng.below(20);
    o.extend(bytes(rng, n, 2, 255));
    o.push(2);
    for e in &f.evs {
        let sec = e.t / 1000 + 1;
        o.push(match e.e {
            "mv" => 1,
            "lc" => 3,
            "lr" => *rng.pick(&[5u8, 5, 21]),
            "rc" => 9,
            "rr" => *rng.pick(&[17u8, 17, 145]),
            "mc" => 33,
            "mr" => *rng.pick(&[65u8, 65, 193]),
            x => panic!("no AVF code for {x}"),
        });
        o.push((e.x >> 8) as u8);
        o.push(sec as u8);
        o.push(e.x as u8);
        o.push((e.t % 1000 / 10) as u8);
        o.push((e.y >> 8) as u8);
        o.push((sec >> 8) as u8);
        o.push(e.y as u8);
    }
    let mut z = bytes(rng, 8, 0, 255);
    z[2] = 0;
    z[6] = 0;
    o.extend(z);
    let n = rng.below(12);
    o.extend(bytes(rng, n, 32, 47));
    o.extend_from_slice(b"Skin: Standard\r");
    o.extend_from_slice(&f.player);
    o.push(b'\r');
    let n = rng.below(12);
    o.extend(bytes(rng, n, 0, 255));
    o
}

// ---------------------------------------------------------------- RMV
#[derive(Clone, Debug)]
pub struct Rmv {
    pub board: B,
    pub level: u8,
    pub mode: u8,
    pub nf: bool,
    /// 3BV and time stamp, absent in old files
    pub result: Option<(usize, Vec<u8>)>,
    /// player, nick, country, token: as many as the file has
    pub info: Vec<Vec<u8>>,
    /// (row, column)
    pub pre: Vec<(usize, usize)>,
    /// without the first press, which the format leaves out
    pub evs: Vec<Ev>,
}

pub fn encode_rmv(rng: &mut Rng, f: &Rmv) -> Vec<u8> {
    let (r, c) = (f.board.len(), f.board[0].len());
    let mut o = b"*rmv\0\x01".to_vec();
    o.extend(bytes(rng, 4, 0, 255));
    let rss = if f.result.is_some() { rng.range(36, 90) } else { rng.range(3, 35) };
    be(&mut o, rss, 2);
    let vis = rng.below(50);
    be(&mut o, vis, 2);
    o.extend(bytes(rng, 4, 0, 255));
    be(&mut o, if f.pre.is_empty() { if rng.chance(0.5) { 0 } else { 2 } } else { 2 + 2 * f.pre.len() }, 2);
    let has_pre = o[o.len() - 1] != 0 || o[o.len() - 2] != 0;
    let props = rng.range(4, 12);
    be(&mut o, props, 2);
    o.extend(bytes(rng, 7, 0, 255));
    match &f.result {
        Some((n, stamp)) => {
            o.extend(bytes(rng, rss - 32, 0, 255));
            let s = match rng.below(3) {
                0 => format!("{n:03}"),
                1 => format!("{n:<3}"),
                _ => format!("{n:>3}"),
            };
            o.extend_from_slice(s.as_bytes());
            o.extend(bytes(rng, 16, 0, 255));
            o.extend_from_slice(stamp);
        }
        None => o.extend(bytes(rng, rss - 3, 0, 255)),
    }
    o.extend(bytes(rng, vis + 2, 0, 255));
    be(&mut o, f.info.len(), 2);
    for s in &f.info {
        o.push(s.len() as u8);
        o.extend_from_slice(s);
    }
    o.extend(bytes(rng, 4, 0, 255));
    be(&mut o, c, 1);
    be(&mut o, r, 1);
    let mut mines: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|p| f.board[p.0][p.1] == -1).collect();
    be(&mut o, mines.len(), 2);
    rng.shuffle(&mut mines);
    for (i, j) in mines {
        o.push(j as u8);
        o.push(i as u8);
    }
    if has_pre {
        be(&mut o, f.pre.len(), 2);
        for (i, j) in &f.pre {
            o.push(*j as u8);
            o.push(*i as u8);
        }
    }
    o.extend(bytes(rng, 1, 0, 255));
    o.push(f.nf as u8);
    o.push(f.mode);
    o.push(f.level - 3);
    o.extend(bytes(rng, props - 4, 0, 255));
    for e in &f.evs {
        while rng.chance(0.05) {
            if rng.chance(0.5) {
                o.push(0);
                o.extend(bytes(rng, 4, 0, 255));
            } else {
                o.push(*rng.pick(&[9u8, 10, 14, 18, 27]));
                o.extend(bytes(rng, 2, 0, 255));
            }
        }
        o.push(1 + EVENTS.iter().position(|x| *x == e.e).unwrap() as u8);
        be(&mut o, e.t as usize, 3);
        o.extend(bytes(rng, 1, 0, 255));
        let out = e.y >= r * 16 || e.x >= c * 16;
        let (y, x) = if !out {
            (e.y, e.x)
        } else {
            // anywhere off the field
            match rng.below(4) {
                0 => (rng.below(r * 16), c * 16 + rng.below(100)),
                1 => (r * 16 + rng.below(100), rng.below(c * 16)),
                2 => (65536 - 1 - rng.below(56), rng.below(c * 16)),
                _ => (r * 16 + rng.below(50), c * 16 + rng.below(50)),
            }
        };
        be(&mut o, (x + 12) & 0xffff, 2);
        be(&mut o, (y + 56) & 0xffff, 2);
    }
    o.push(rng.range(15, 17) as u8);
    let n = rng.below(12);
    o.extend(bytes(rng, n, 0, 255));
    o
}

// ---------------------------------------------------------------- MVF (Clone 0.97)
#[derive(Clone, Debug)]
pub struct Mvf {
    pub board: B,
    pub level: u8,
    /// as in the file: 1 standard, 2 density, 3 upk, 4 cheat
    pub mode: u8,
    pub rtime: u32,
    pub bbbv: usize,
    pub player: Vec<u8>,
    /// the physical state after each sample: left, right, middle, time in ms, row, column
    pub samples: Vec<(bool, bool, bool, u32, usize, usize)>,
}

/// which bit of the five bytes of an event holds the k-th bit of its content
pub fn mvf_bits(leading: usize) -> Vec<usize> {
    let l = leading as f64;
    let a = l.sqrt();
    let b = (l + 1000.0).sqrt();
    let c = (a + 1000.0).sqrt();
    let nums = [(c + 1000.0).cos(), b.sqrt().sin(), c.cos(), (a.sqrt() + 1000.0).sin(), (b + 1000.0).sqrt().cos()];
    let digits: Vec<u8> = nums.iter().flat_map(|x| format!("{:08}", (x * 1e8).abs().round() as u64).into_bytes()[..8].to_vec()).collect();
    let mut order: Vec<usize> = (0..40).collect();
    order.sort_by_key(|k| (digits[*k], *k));
    order
}

pub fn encode_mvf(rng: &mut Rng, f: &Mvf) -> Vec<u8> {
    let (r, c) = (f.board.len(), f.board[0].len());
    let mut o = vec![0x11, 0x4d];
    o.extend(bytes(rng, 25, 0, 255));
    o.push(b'5');
    o.extend(bytes(rng, 46, 0, 255));
    o.extend(bytes(rng, 7, 0, 255));
    o.push(f.level - 2);
    o.push(f.mode);
    be(&mut o, f.rtime as usize / 1000, 2);
    be(&mut o, f.rtime as usize % 1000 / 10, 1);
    be(&mut o, f.bbbv, 2);
    o.extend(bytes(rng, 9, 0, 255));
    be(&mut o, c, 1);
    be(&mut o, r, 1);
    let mut mines: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|p| f.board[p.0][p.1] == -1).collect();
    be(&mut o, mines.len(), 2);
    rng.shuffle(&mut mines);
    for (i, j) in mines {
        o.push((j + 1) as u8);
        o.push((i + 1) as u8);
    }
    o.push(f.player.len() as u8);
    o.extend_from_slice(&f.player);
    let leading = rng.below(65536);
    be(&mut o, leading, 2);
    let map = mvf_bits(leading);
    be(&mut o, f.samples.len(), 3);
    for (l, rb, m, t, y, x) in &f.samples {
        let (sec, ths) = ((t / 1000) as usize, (t % 1000 / 10) as usize);
        let mut word = [false; 40];
        word[0] = *rb;
        word[1] = *m;
        word[2] = *l;
        for k in 0..9 {
            word[3 + k] = y >> k & 1 == 1;
            word[12 + k] = x >> k & 1 == 1;
        }
        for k in 0..7 {
            word[21 + k] = ths >> k & 1 == 1;
        }
        for k in 0..10 {
            word[28 + k] = sec >> k & 1 == 1;
        }
        word[38] = rng.chance(0.5);
        word[39] = rng.chance(0.5);
        let mut e = [0u8; 5];
        for k in 0..40 {
            if word[k] {
                e[map[k] / 8] |= 1 << (map[k] % 8);
            }
        }
        o.extend_from_slice(&e);
    }
    let n = rng.below(12);
    o.extend(bytes(rng, n, 0, 255));
    o
}
