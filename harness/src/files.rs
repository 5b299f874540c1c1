//! Random recordings of all four formats.
use crate::*;

pub const KINDS: [&str; 4] = ["evf", "avf", "rmv", "mvf"];

/// a valid file of the kind
pub fn valid(ctx: &mut Ctx, kind: usize, cells: usize) -> Option<(Vec<u8>, B)> {
    let rng = &mut ctx.rng;
    let (r, c, n) = random_field(rng, 31);
    let (r, c, n) = if r > 31 || r * c > cells { (rng.range(1, 6), rng.range(1, 7), if rng.chance(0.3) { rng.range(7, 14) } else { rng.below(6) }) } else { (r, c, n) };
    let n = n.min(r * c - 1);
    let board = random_board(rng, r, c, n);
    let mut p = player(rng);
    p.cc = false;
    p.preflags &= kind != 2;
    if kind == 2 {
        p.wild = 0.0;
    }
    let pix = if kind == 0 { *rng.pick(&[16usize, 20, 1, 255]) } else { 16 };
    let plan = Plan { pix, max_steps: *rng.pick(&[0, 10, 60]), tick: 100, player: p, pf: 0, unfinished: rng.chance(0.3) };
    let (mut evs, g) = script(rng, &board, plan);
    for e in evs.iter_mut() {
        e.t = e.t / 10 * 10;
    }
    if evs.len() < 2 || evs[0].e == "mv" || evs.last().unwrap().t >= 1_000_000 {
        return None;
    }
    let level = match (r, c, n) { (8, 8, 10) => 3, (16, 16, 40) => 4, (16, 30, 99) => 5, _ => 6 };
    let word = |rng: &mut Rng| -> Vec<u8> { (0..rng.below(12)).map(|_| rng.range(97, 122) as u8).collect() };
    let raw = match kind {
        0 => {
            let mut text: [Vec<u8>; 8] = Default::default();
            for t in text.iter_mut() {
                *t = random_text(rng);
            }
            let sum = if rng.chance(0.5) { Some((0..32).map(|_| rng.below(256) as u8).collect()) } else { None };
            encode_evf(&Evf { completed: g.st == St::Win, official: rng.chance(0.5), fair: rng.chance(0.5), mines: n, pix, mode: rng.below(12), bbbv: bbbv(&board), rtime: rng.below(1 << 24), text, board: board.clone(), evs, sum })
        }
        1 => {
            let (start, end, player, rtime) = (word(rng), word(rng), word(rng), rng.below(100000) as u32);
            encode_avf(rng, &Avf { bbbv: bbbv(&board), level, rtime, start, end, player, evs, board: board.clone() })
        }
        2 => {
            let info = (0..rng.below(5)).map(|_| word(rng)).collect();
            let b3 = bbbv(&board);
            let result = if b3 < 1000 && rng.chance(0.5) { Some((b3, (0..10).map(|_| b'0' + rng.below(10) as u8).collect())) } else { None };
            let pre = (0..rng.below(3)).map(|_| (rng.below(r), rng.below(c))).collect();
            let (mode, nf) = (rng.below(4) as u8, rng.chance(0.5));
            encode_rmv(rng, &Rmv { level, mode, nf, result, info, pre, evs, board: board.clone() })
        }
        _ => {
            let (player, mode, rtime) = (word(rng), rng.range(1, 4) as u8, rng.below(6_000_000) as u32 * 10);
            let mut st = (false, false, false);
            let samples = evs
                .iter()
                .map(|e| {
                    match e.e {
                        "lc" => st.0 = true,
                        "lr" => st.0 = false,
                        "rc" => st.1 = true,
                        "rr" => st.1 = false,
                        "mc" => st.2 = true,
                        "mr" => st.2 = false,
                        _ => (),
                    }
                    (st.0, st.1, st.2, e.t, e.y, e.x)
                })
                .collect();
            encode_mvf(rng, &Mvf { level, mode, rtime, bbbv: bbbv(&board), player, samples, board: board.clone() })
        }
    };
    Some((raw, board))
}
