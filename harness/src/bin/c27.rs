//! C27: the automatic review of a recording for ranking.
use harness::*;
use oracle::game::*;
use oracle::video::*;
use oracle::*;

struct Facts<'a> {
    software: &'a [u8],
    start: &'a [u8],
    fair: bool,
    sum: [u8; 32],
    events: usize,
    bbbv: usize,
    won: bool,
}

/// 0 valid, 1 not valid, 3 uncertain
fn verdict(f: &Facts) -> u8 {
    if f.software == b"Viennasweeper" {
        let digits = f.start.len() >= 10 && f.start[..10].iter().all(|c| (48..58).contains(c));
        if !digits {
            return 3;
        }
        let t: u64 = String::from_utf8_lossy(&f.start[..10]).parse().unwrap();
        if t > 1682265600 {
            return 1;
        }
    } else if f.software == "元3.2".as_bytes() || f.software == "元3.1.7".as_bytes() {
        if f.sum.iter().all(|x| *x == f.sum[0]) || !f.fair {
            return 1;
        }
    } else if f.software != b"Arbiter" {
        return 1;
    }
    if f.events < 10 * f.bbbv {
        3
    } else if f.won {
        0
    } else {
        1
    }
}

fn evf(ctx: &mut Ctx) {
    let (r, c, n) = random_field(&mut ctx.rng, 12);
    let board = random_board(&mut ctx.rng, r, c, n);
    let p = player(&mut ctx.rng);
    let steps = *ctx.rng.pick(&[0, 20, 200]);
    let plan = Plan { pix: 16, max_steps: steps, tick: 20, player: p, pf: 0, unfinished: ctx.rng.chance(0.2) };
    let (mut evs, _) = script(&mut ctx.rng, &board, plan);
    let all = bbbv(&board);
    if evs.is_empty() || all == 0 {
        return;
    }
    // movements up to, or just below, ten events per 3BV, or far more
    let goal = match ctx.rng.below(5) {
        0 => 0,
        1 => 10 * all,
        2 => 10 * all - 1,
        _ => 10 * all + ctx.rng.below(3 * all),
    };
    let at = ctx.rng.range(1, evs.len());
    let e = evs[at - 1].clone();
    while evs.len() < goal {
        evs.insert(at, Ev { e: "mv", ..e.clone() });
    }
    let software: Vec<u8> = match ctx.rng.below(12) {
        0..=2 => b"Arbiter".to_vec(),
        3..=5 => b"Viennasweeper".to_vec(),
        6..=7 => "元3.2".into(),
        8..=9 => "元3.1.7".into(),
        10 => ctx.rng.pick(&["元3.1", "元3.1.8", "元3.1.9", "元3.2.1", "元", "arbiter", "Arbiter ", "Arbite", "0.97 beta", "", "Viennasweeper 3"]).as_bytes().to_vec(),
        _ => random_text(&mut ctx.rng),
    };
    let start: Vec<u8> = match ctx.rng.below(8) {
        0 => vec![],
        1 => b"1682265600".to_vec(),
        2 => b"1682265601".to_vec(),
        3 => format!("{}", ctx.rng.below(2_000_000_000)).into(),
        4 => format!("{}", 1_000_000_000_000_000u64 + ctx.rng.u64() % 1_000_000_000_000_000).into(),
        5 => {
            let mut s = format!("{}", 1_000_000_000 + ctx.rng.below(900_000_000)).into_bytes();
            let k = ctx.rng.below(s.len());
            s[k] = 1 + ctx.rng.below(255) as u8;
            s
        }
        6 => b"16.10.2021.22.24.23.9906".to_vec(),
        _ => format!("{}", 1_100_000_000 + ctx.rng.below(580_000_000)).into(),
    };
    let mut sum = [0u8; 32];
    match ctx.rng.below(5) {
        0 => sum = [ctx.rng.below(256) as u8; 32],
        1 => {
            sum = [ctx.rng.below(256) as u8; 32];
            let k = ctx.rng.below(32);
            sum[k] ^= 1 << ctx.rng.below(8);
        }
        _ => sum.iter_mut().for_each(|x| *x = ctx.rng.below(256) as u8),
    }
    let signed = ctx.rng.chance(0.8);
    if !signed {
        sum = [0; 32];
    }
    let fair = ctx.rng.chance(0.7);
    let mut text: [Vec<u8>; 8] = Default::default();
    text[0] = software.clone();
    text[4] = start.clone();
    let rp = replay(&board, 16, &evs);
    let won = rp.game.st == St::Win;
    let f = Evf { completed: ctx.rng.chance(0.5), official: ctx.rng.chance(0.5), fair, mines: mine_count(&board), pix: 16, mode: ctx.rng.below(11), bbbv: all, rtime: ctx.rng.below(100_000), text, board: board.clone(), evs: evs.clone(), sum: signed.then(|| sum.to_vec()) };
    let file = Scratch::with(".evf", &encode_evf(&f));
    let mut v = ms_toollib::EvfVideo::new(&file.0);
    let facts = Facts { software: &software, start: &start, fair, sum, events: evs.len(), bbbv: all, won };
    let want = verdict(&facts);
    let inp = || format!("software {:?} start {:?} fair {fair} checksum {sum:?} {} events, 3bv {all}, won {won}", String::from_utf8_lossy(&software), String::from_utf8_lossy(&start), evs.len());
    let x = ctx.guard("parse and analyse", inp, || {
        let ok = v.parse_video().is_ok();
        if ok {
            v.data.analyse();
        }
        ok
    });
    if x != Some(true) {
        return ctx.fail("file refused", inp());
    }
    let Some(got) = ctx.guard("is_valid", inp, || v.data.is_valid()) else { return };
    ctx.check(got == want, &format!("verdict {want}"), || format!("verdict {got} instead of {want}: {}", inp()));
    ctx.ev(["valid", "invalid", "", "uncertain"][want as usize], 1);
    if evs.len() == 10 * all || evs.len() + 1 == 10 * all {
        ctx.ev("event_counts_at_the_limit", 1);
    }
    ctx.seen(mix(hash_bytes(&software), mix(hash_bytes(&start), mix(hash_bytes(&sum), mix(evs.len() as u64, want as u64)))));
    ctx.sample(inp);
}

fn main() {
    engine::main(Spec {
        id: "C27",
        rule: "analysed recordings over programs, time stamps, checksums, event counts around ten per 3BV, finished or not; distinct by these",
        stages: vec![Stage { name: "evf", quick: 25000, thorough: 600000, f: evf }],
        finish: None,
        assumptions: &["the recording was analysed first (documented) and states its true 3BV"],
        must_see: &["valid", "invalid", "uncertain", "event_counts_at_the_limit"],
    })
}
