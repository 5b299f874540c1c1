//! C19: saving never overwrites or damages a file and always stores the whole recording.
use harness::*;
use oracle::game::*;
use oracle::video::*;
use oracle::*;
use std::collections::BTreeMap;
use std::path::Path;

fn dump(dir: &str) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().into_owned();
        m.insert(n, if e.path().is_dir() { None } else { Some(std::fs::read(e.path()).unwrap_or_default()) });
    }
    m
}
fn nth(name: &str, k: usize) -> String {
    if k == 1 { format!("{name}.evf") } else { format!("{name}({k}).evf") }
}

fn game(ctx: &mut Ctx, data: bool) -> Option<Live> {
    let (r, c, n) = (ctx.rng.range(1, 6), ctx.rng.range(1, 6), 0);
    let n = n + ctx.rng.below(r * c / 3 + 1);
    let board = random_board(&mut ctx.rng, r, c, n);
    let mut v = Live::new_before_game(board.clone(), 16);
    let p = player(&mut ctx.rng);
    let plan = Plan { pix: 16, max_steps: ctx.rng.below(60), tick: 20, player: p, pf: 0, unfinished: false };
    let (evs, _) = script(&mut ctx.rng, &board, plan);
    if !play(ctx, &mut v, &evs) {
        return None;
    }
    if data {
        let t = random_text(&mut ctx.rng);
        v.set_player_designator(t).ok();
        v.generate_evf_v0_raw_data();
    }
    Some(v)
}

fn save(ctx: &mut Ctx) {
    let dir = Scratch::new("");
    std::fs::create_dir(&dir.0).unwrap();
    let name = ctx.rng.pick(&["a", "game", "a(2)", "x.evf", "元 3.2 录像", "v1.5", "()", "a.b.c", "-", "%s{}"]).to_string();
    let full = format!("{}/{name}", dir.0);
    // files that are there before, with gaps
    let top = ctx.rng.below(14);
    for k in 1..=top {
        if ctx.rng.chance(0.7) {
            let p = format!("{}/{}", dir.0, nth(&name, k));
            match ctx.rng.below(12) {
                0 => std::fs::create_dir(&p).unwrap(),
                1 => std::fs::write(&p, b"").unwrap(),
                _ => std::fs::write(&p, format!("old {k}")).unwrap(),
            }
            ctx.ev("files_before", 1);
        }
    }
    for other in ["a", "a.evf.bak", "a(1).evf", "a(02).evf", "b.evf"] {
        if ctx.rng.chance(0.3) && !Path::new(&format!("{}/{other}", dir.0)).exists() {
            std::fs::write(format!("{}/{other}", dir.0), other).unwrap();
        }
    }
    let many = ctx.rng.range(1, 5);
    for _ in 0..many {
        let data = ctx.rng.chance(0.95);
        let Some(v) = game(ctx, data) else { return };
        let raw = v.get_raw_data().unwrap_or_default();
        let before = dump(&dir.0);
        let Some(_) = ctx.guard("save_to_evf_file", || format!("{name} in {:?}", before.keys()), || v.save_to_evf_file(&full)) else { return };
        let after = dump(&dir.0);
        let mut want = before.clone();
        let k = (1..).find(|k| !before.contains_key(&nth(&name, *k))).unwrap();
        want.insert(nth(&name, k), Some(raw.clone()));
        if after != want {
            let lost: Vec<_> = before.iter().filter(|(f, c)| after.get(*f) != Some(c)).map(|x| x.0).collect();
            let new: Vec<_> = after.keys().filter(|f| !before.contains_key(*f)).collect();
            ctx.fail(if lost.is_empty() { "wrong file" } else { "file changed" }, format!("saving {name} with {:?} there: changed {lost:?}, new {new:?}, expected {} with {} bytes", before.keys(), nth(&name, k), raw.len()));
            return;
        }
        ctx.seen(mix(hash_bytes(name.as_bytes()), k as u64 * 1000 + before.len() as u64));
        ctx.ev("saves", 1);
        if k > 2 {
            ctx.ev("saves_with_number_above_2", 1);
        }
    }
    ctx.sample(|| format!("{name}: {:?}", dump(&dir.0).keys()));
}

/// several recordings saved under one name at the same time
fn race(ctx: &mut Ctx) {
    let dir = Scratch::new("");
    std::fs::create_dir(&dir.0).unwrap();
    let full = format!("{}/g", dir.0);
    let old = ctx.rng.below(3);
    for k in 1..=old {
        std::fs::write(format!("{}/{}", dir.0, nth("g", k)), format!("old {k}")).unwrap();
    }
    let before = dump(&dir.0);
    let n = ctx.rng.range(2, 6);
    let mut vs = vec![];
    for _ in 0..n {
        let Some(v) = game(ctx, true) else { return };
        vs.push(v);
    }
    let mut raws: Vec<Vec<u8>> = vs.iter().map(|v| v.get_raw_data().unwrap()).collect();
    let gate = std::sync::Barrier::new(n);
    let x = ctx.guard("save_to_evf_file at the same time", || format!("{n} savers"), || {
        std::thread::scope(|s| {
            for v in &vs {
                s.spawn(|| {
                    gate.wait();
                    v.save_to_evf_file(&full)
                });
            }
        })
    });
    if x.is_none() {
        return;
    }
    let after = dump(&dir.0);
    let mut new: Vec<Vec<u8>> = after.iter().filter(|(k, _)| !before.contains_key(*k)).filter_map(|x| x.1.clone()).collect();
    raws.sort();
    new.sort();
    let names = after.keys().cloned().collect::<Vec<_>>();
    let exact = (1..=old + n).all(|k| after.contains_key(&nth("g", k)));
    if !ctx.check(before.iter().all(|(k, c)| after.get(k) == Some(c)) && raws == new && exact, "saved at the same time", || format!("{n} recordings saved at once with {old} files there gave {names:?}; {} distinct recordings survive", new.iter().filter(|x| raws.contains(x)).count())) {
        return;
    }
    ctx.seen(mix(n as u64, old as u64) ^ hash_bytes(&raws.concat()));
    ctx.ev("races", 1);
}

fn main() {
    engine::main(Spec {
        id: "C19",
        rule: "recordings saved into scratch folders with files already there, one after another and at the same time; distinct by name, chosen number and folder size",
        stages: vec![Stage { name: "save", quick: 6000, thorough: 100000, f: save }, Stage { name: "race", quick: 4000, thorough: 80000, f: race }],
        finish: None,
        assumptions: &["the folder exists and can be written", "names are valid UTF-8"],
        must_see: &["saves", "saves_with_number_above_2", "files_before", "races"],
    })
}
