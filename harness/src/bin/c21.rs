//! C21: damaged, truncated and hostile recordings are refused or read, never a crash or a hang.
use harness::*;
use ms_toollib::{AvfVideo, EvfVideo, MvfVideo, RmvVideo};
use oracle::game::*;
use oracle::video::*;
use oracle::*;

const KINDS: [&str; 4] = ["evf", "avf", "rmv", "mvf"];

/// a valid file of the kind
fn valid(ctx: &mut Ctx, kind: usize) -> Option<Vec<u8>> {
    let rng = &mut ctx.rng;
    let (r, c, n) = random_field(rng, 31);
    let (r, n) = if r > 31 { (31, 0) } else { (r, n) };
    let board = random_board(rng, r, c, n);
    let mut p = player(rng);
    p.cc = false;
    p.preflags &= kind != 2;
    if kind == 2 {
        p.wild = 0.0;
    }
    let plan = Plan { pix: 16, max_steps: *rng.pick(&[0, 10, 60]), tick: 100, player: p, pf: 0, unfinished: rng.chance(0.3) };
    let (mut evs, _) = script(rng, &board, plan);
    for e in evs.iter_mut() {
        e.t = e.t / 10 * 10;
    }
    if evs.len() < 2 || evs[0].e == "mv" || evs.last().unwrap().t >= 1_000_000 {
        return None;
    }
    let level = match (r, c, n) { (8, 8, 10) => 3, (16, 16, 40) => 4, (16, 30, 99) => 5, _ => 6 };
    let word = |rng: &mut Rng| -> Vec<u8> { (0..rng.below(12)).map(|_| rng.range(97, 122) as u8).collect() };
    Some(match kind {
        0 => {
            let mut text: [Vec<u8>; 8] = Default::default();
            for t in text.iter_mut() {
                *t = random_text(rng);
            }
            let sum = if rng.chance(0.5) { Some(vec![7; 32]) } else { None };
            encode_evf(&Evf { completed: true, official: false, fair: true, mines: n, pix: 16, mode: 0, bbbv: bbbv(&board), rtime: 5000, text, board, evs, sum })
        }
        1 => {
            let (start, end, player) = (word(rng), word(rng), word(rng));
            encode_avf(rng, &Avf { bbbv: bbbv(&board), level, rtime: 500, start, end, player, evs, board })
        }
        2 => {
            let info = (0..rng.below(5)).map(|_| word(rng)).collect();
            let b3 = bbbv(&board);
            let result = if b3 < 1000 && rng.chance(0.5) { Some((b3, b"1382834716".to_vec())) } else { None };
            let pre = (0..rng.below(3)).map(|_| (rng.below(r), rng.below(c))).collect();
            encode_rmv(rng, &Rmv { level, mode: 0, nf: false, result, info, pre, evs, board })
        }
        _ => {
            let player = word(rng);
            let samples = evs.iter().map(|e| (e.e == "lc", e.e == "rc", e.e == "mc", e.t, e.y, e.x)).collect();
            encode_mvf(rng, &Mvf { level, mode: 1, rtime: 5000, bbbv: bbbv(&board), player, samples, board })
        }
    })
}

/// Parses bytes; the outer None is a crash (already reported).
fn parse(ctx: &mut Ctx, kind: usize, raw: &[u8], how: &str) -> Option<Option<Parsed>> {
    let f = Scratch::with(KINDS[kind], raw);
    let name = format!("{} parse_video", KINDS[kind]);
    let inp = || format!("{how}; {} bytes: {:?}", raw.len(), &raw[..raw.len().min(400)]);
    let r = match kind {
        0 => {
            let mut v = EvfVideo::new(&f.0);
            let x = ctx.guard(&name, inp, || v.parse_video())?;
            x.is_ok().then_some(v.data)
        }
        1 => {
            let mut v = AvfVideo::new(&f.0);
            let x = ctx.guard(&name, inp, || v.parse_video())?;
            x.is_ok().then_some(v.data)
        }
        2 => {
            let mut v = RmvVideo::new(&f.0);
            let x = ctx.guard(&name, inp, || v.parse_video())?;
            x.is_ok().then_some(v.data)
        }
        _ => {
            let mut v = MvfVideo::new(&f.0);
            let x = ctx.guard(&name, inp, || v.parse_video())?;
            x.is_ok().then_some(v.data)
        }
    };
    ctx.ev(if r.is_some() { "accepted" } else { "refused" }, 1);
    if let Some(v) = &r {
        // what is accepted is at least a field with the right numbers
        let ok = !v.board.is_empty() && v.board.len() == v.height && v.board.iter().all(|x| x.len() == v.width && !x.is_empty()) && numbered(&mine_mask(&v.board)) == v.board && v.can_analyse;
        if !ctx.check(ok, &format!("{} accepted without a field", KINDS[kind]), || format!("{}x{} board {}; {}", v.height, v.width, v.board.len(), inp())) {
            return None;
        }
    }
    Some(r)
}

fn print(v: &Parsed) -> u64 {
    let mut h = hash_board(&v.board);
    for e in &v.video_action_state_recorder {
        h = mix(h, mix(hash_bytes(e.mouse.as_bytes()), mix((e.time * 1000.0).round() as u64, (e.x as u64) << 16 | e.y as u64)));
    }
    for s in [&v.software, &v.player_designator, &v.race_designator, &v.uniqueness_designator, &v.start_time, &v.end_time, &v.country, &v.device_uuid] {
        h = mix(h, hash_bytes(s));
    }
    mix(h, mix(v.get_rtime_ms().unwrap_or(9) as u64, hash_bytes(&v.checksum)))
}

fn cut(ctx: &mut Ctx) {
    let kind = ctx.rng.below(4);
    let Some(raw) = valid(ctx, kind) else { return };
    let Some(full) = parse(ctx, kind, &raw, "a valid file") else { return };
    let Some(full) = full else {
        ctx.fail(format!("valid {} refused", KINDS[kind]), format!("{raw:?}"));
        return;
    };
    let want = print(&full);
    for _ in 0..12 {
        let k = if ctx.rng.chance(0.3) { raw.len() - 1 - ctx.rng.below(raw.len().min(40)) } else { ctx.rng.below(raw.len()) };
        let Some(got) = parse(ctx, kind, &raw[..k], "cut") else { return };
        if let Some(v) = got {
            if !ctx.check(print(&v) == want, &format!("cut {} read differently", KINDS[kind]), || format!("first {k} of {} bytes are accepted but give another recording: {} events instead of {}; {:?}", raw.len(), v.video_action_state_recorder.len(), full.video_action_state_recorder.len(), &raw[..raw.len().min(300)])) {
                return;
            }
        }
        ctx.ev("cuts", 1);
        ctx.seen(mix(want, k as u64));
    }
    ctx.ev(&format!("valid_{}", KINDS[kind]), 1);
    ctx.sample(|| format!("{} of {} bytes cut at 12 places", KINDS[kind], raw.len()));
}

fn damage(ctx: &mut Ctx) {
    let kind = ctx.rng.below(4);
    let Some(base) = valid(ctx, kind) else { return };
    for _ in 0..10 {
        let mut raw = base.clone();
        for _ in 0..ctx.rng.range(1, 4) {
            let head = ctx.rng.chance(0.7);
            let k = ctx.rng.below(if head { raw.len().min(160) } else { raw.len() });
            match ctx.rng.below(5) {
                0 => raw[k] = *ctx.rng.pick(&[0u8, 1, 255, 254, 128, 127, 3, 16]),
                1 => raw[k] = ctx.rng.below(256) as u8,
                2 => {
                    let n = ctx.rng.range(1, 40);
                    let end = (k + n).min(raw.len());
                    raw.drain(k..end);
                    if raw.is_empty() {
                        raw.push(0);
                    }
                }
                3 => {
                    let x = ctx.rng.below(256) as u8;
                    let n = ctx.rng.range(1, 4);
                    for _ in 0..n {
                        raw.insert(k, x);
                    }
                }
                _ => raw[k] ^= 1 << ctx.rng.below(8),
            }
        }
        if parse(ctx, kind, &raw, "damaged").is_none() {
            return;
        }
        ctx.ev("damaged", 1);
        ctx.seen(hash_bytes(&raw));
    }
}

fn noise(ctx: &mut Ctx) {
    let kind = ctx.rng.below(4);
    let n = match ctx.rng.below(4) { 0 => ctx.rng.below(40), 1 => ctx.rng.below(400), _ => ctx.rng.below(3000) };
    let top = *ctx.rng.pick(&[255usize, 255, 9, 40, 1]);
    let mut raw: Vec<u8> = (0..n).map(|_| ctx.rng.below(top + 1) as u8).collect();
    if ctx.rng.chance(0.8) {
        let head: Vec<u8> = match kind {
            0 => vec![0, 0xa0, ctx.rng.below(9) as u8, ctx.rng.below(9) as u8, 0, ctx.rng.below(9) as u8, 16],
            1 => vec![0, 0, 0, 0, 0, ctx.rng.range(2, 7) as u8],
            2 => b"*rmv\0\x01".to_vec(),
            _ => vec![0x11, 0x4d],
        };
        raw.splice(0..head.len().min(raw.len()), head);
        if kind == 3 && raw.len() > 27 {
            raw[27] = b'5';
        }
    }
    if ctx.rng.chance(0.1) {
        // a recording of another kind
        let other = ctx.rng.below(4);
        if let Some(x) = valid(ctx, other) {
            raw = x;
            ctx.ev("other_kind", 1);
        }
    }
    if parse(ctx, kind, &raw, "noise").is_some() {
        ctx.ev("noise", 1);
        ctx.seen(hash_bytes(&raw));
    }
}

fn main() {
    engine::main(Spec {
        id: "C21",
        rule: "cut, damaged and random files given to every parser; distinct by content",
        stages: vec![Stage { name: "cut", quick: 25000, thorough: 500000, f: cut }, Stage { name: "damage", quick: 40000, thorough: 900000, f: damage }, Stage { name: "noise", quick: 80000, thorough: 1500000, f: noise }],
        finish: None,
        assumptions: &["only reading (parse_video) is judged; a file that is read may still hold events no mouse can make"],
        must_see: &["accepted", "refused", "cuts", "damaged", "noise", "valid_evf", "valid_avf", "valid_rmv", "valid_mvf", "other_kind"],
    })
}
