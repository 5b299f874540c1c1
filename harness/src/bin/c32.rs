//! C32: the JavaScript interface, and the library as the web build compiles it, answer as the library does.
use harness::files::*;
use harness::mirror::*;
use harness::remote::*;
use harness::*;
use ms_toollib::*;
use oracle::game::*;
use oracle::solver::*;
use oracle::stat::*;
use oracle::*;

fn lib<T: ToV>(f: impl FnOnce() -> T) -> Option<V> {
    Some(lib_v(f))
}
/// what an operation without an answer gives
fn done(ok: bool) -> Option<V> {
    Some(if ok { V::N } else { V::E("trap".into()) })
}

fn any_board(ctx: &mut Ctx, max: usize) -> B {
    let (r, c) = (ctx.rng.range(1, max), ctx.rng.range(1, max));
    if ctx.rng.chance(0.3) {
        return shaped_board(&mut ctx.rng, r, c);
    }
    let n = (r * c) as f64 * ctx.rng.f64() * if ctx.rng.chance(0.1) { 1.0 } else { 0.4 };
    random_board(&mut ctx.rng, r, c, n as usize)
}

fn layouts(ctx: &mut Ctx) {
    let b = any_board(ctx, 14);
    let (r, c) = (b.len(), b[0].len());
    let mut t = Talk::new();
    t.f("cal_bbbv", vec![b.v()], lib(|| cal_bbbv(&b)));
    t.f("cal_op", vec![b.v()], lib(|| cal_op(&b)));
    t.f("core_cal_isl", vec![b.v()], lib(|| cal_isl(&b)));
    t.f("core_unsolvable_structure", vec![b.v()], lib(|| unsolvable_structure(&b)));
    let safe: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| b[p.0][p.1] >= 0).collect();
    if !safe.is_empty() && r * c <= 100 {
        let p = *ctx.rng.pick(&safe);
        t.f("core_is_solvable", vec![b.v(), p.0.v(), p.1.v()], lib(|| is_solvable(&b, p.0, p.1)));
    }
    if t.run(ctx, || fmt_board(&b)).is_some() {
        ctx.seen(hash_board(&b));
        ctx.ev("layouts_measured", 1);
    }
}

fn positions(ctx: &mut Ctx) {
    let max = *ctx.rng.pick(&[3usize, 5, 8, 9]);
    let marks = ctx.rng.chance(0.4);
    let gen = gen_visible(&mut ctx.rng, max, max, marks);
    let (mut g, mut mines) = (gen.game, gen.mines);
    let (r, c) = (g.len(), g[0].len());
    let broken = ctx.rng.chance(0.2);
    if broken {
        if ctx.rng.chance(0.3) {
            mines = ctx.rng.below(r * c + 2);
        } else {
            let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
            g[x][y] = ctx.rng.range(0, 8) as i32;
        }
    }
    if !affordable(&model(&g), 40, 4000) {
        return;
    }
    let inp = || format!("{mines} mines in {}", fmt_board(&g));
    let mut t = Talk::new();
    let mut marked = g.clone();
    let ok = quiet(|| mark_board(&mut marked));
    let Ok(ok) = ok else { return };
    t.f("core_mark_board", vec![g.v()], Some(if ok.is_ok() { marked.v() } else { V::E("*".into()) }));
    let n = mines as f64;
    // a position that cannot be is answered with nothing
    let nothing = V::T(vec![V::L(vec![]), vec![0usize; 3].v()]);
    let answer = if ok.is_err() { Ok(None) } else { quiet(|| cal_possibility_onboard(&marked, n).ok()) };
    match answer {
        Ok(Some(x)) => {
            t.f("cal_possibility_onboard", vec![g.v(), mines.v()], Some(x.v()));
            ctx.ev("probability_tables", 1);
        }
        Ok(None) => {
            t.f("cal_possibility_onboard", vec![g.v(), mines.v()], Some(nothing));
            ctx.ev("positions_refused", 1);
        }
        Err(_) => {
            t.f("cal_possibility_onboard", vec![g.v(), mines.v()], Some(V::E("trap".into())));
        }
    }
    if ok.is_ok() {
        t.f("core_cal_possibility", vec![marked.v(), n.v()], Some(match quiet(|| cal_possibility(&marked, n)) { Ok(Ok(x)) => x.v(), _ => V::E("*".into()) }));
    }
    let hidden: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| g[p.0][p.1] >= 10).collect();
    if !hidden.is_empty() {
        let p = *ctx.rng.pick(&hidden);
        let mut g1 = g.clone();
        t.f("core_is_guess_while_needless", vec![g.v(), p.0.v(), p.1.v()], lib(|| is_guess_while_needless(&mut g1, &p)));
        let mut g1 = g.clone();
        t.f("core_is_able_to_solve", vec![g.v(), p.0.v(), p.1.v()], lib(|| is_able_to_solve(&mut g1, &p)));
        if !broken && r * c <= 30 && hidden.len() > 1 {
            let cells: Vec<[usize; 2]> = (0..2).map(|_| *ctx.rng.pick(&hidden)).map(|p| [p.0, p.1]).collect();
            t.f("core_cal_is_op_possibility_cells", vec![g.v(), n.v(), cells.v()], lib(|| cal_is_op_possibility_cells(&g, n, &cells)));
            ctx.ev("opening_chances", 1);
        }
    }
    if t.run(ctx, inp).is_some() {
        ctx.seen(hash_board(&g));
        ctx.ev(if broken { "damaged_positions" } else { "positions" }, 1);
        ctx.sample(inp);
    }
}

fn window(r: usize, c: usize, x: usize, y: usize) -> Vec<(usize, usize)> {
    let mut v = neighbours(r, c, x, y);
    v.push((x, y));
    v
}

fn check_layout(ctx: &mut Ctx, who: &str, b: &B, a: (usize, usize, usize, usize, usize), open: bool) -> bool {
    let (r, c, n, x, y) = a;
    let ok = b.len() == r && b.iter().all(|l| l.len() == c) && mine_count(b) == n && consistent(b) && b[x][y] >= 0 && (!open || b[x][y] == 0);
    ctx.ev("layouts_generated", 1);
    ctx.check(ok, &format!("layout:{who}"), || format!("{who}({r}, {c}, {n}, {x}, {y}) gives {}", fmt_board(b)))
}

fn generators(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 24), ctx.rng.range(1, 30));
    let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
    let mut t = Talk::new();
    let mut asked = vec![];
    for _ in 0..6 {
        for (f, most) in [("laymine_number", r * c - 1), ("laymine_op_number", r * c - window(r, c, x, y).len())] {
            let n = match ctx.rng.below(5) { 0 => 0, 1 => most, _ => ctx.rng.below(most + 1) };
            t.f(f, vec![r.v(), c.v(), n.v(), x.v(), y.v()], None);
            asked.push((f, (r, c, n, x, y)));
        }
    }
    let (r, c) = (ctx.rng.range(5, 10), ctx.rng.range(5, 12));
    let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
    let n = r * c * ctx.rng.range(2, 16) / 100;
    for f in ["laymine_solvable", "core_laymine_solvable_adjust"] {
        let mut a = vec![r.v(), c.v(), n.v(), x.v(), y.v()];
        if f == "laymine_solvable" {
            a.push(ctx.rng.range(0, 200).v());
        }
        t.f(f, a, None);
        asked.push((f, (r, c, n, x, y)));
    }
    let Some(ans) = t.run(ctx, || format!("{asked:?}")) else { return };
    for ((f, a), v) in asked.iter().zip(&ans[1..]) {
        if !ctx.check(!matches!(v, V::E(_)), "generator fails", || format!("{f}{a:?}: {}", v.brief())) {
            return;
        }
        let simple = f.ends_with("number");
        let b = if simple { v.board() } else { v.list()[0].board() };
        if !check_layout(ctx, f, &b, *a, *f == "laymine_op_number" || *f == "laymine_solvable") {
            return;
        }
        if !simple && v.list()[1] == V::B(true) {
            if !ctx.check(is_solvable(&b, a.3, a.4), "called guess-free", || format!("{f}{a:?}: {}", fmt_board(&b))) {
                return;
            }
            ctx.ev("guess_free_layouts", 1);
        }
        ctx.seen(hash_board(&b));
    }
}

/// every layout of a small field equally likely; in larger ones every cell
fn uniform(ctx: &mut Ctx) {
    let op = ctx.rng.chance(0.5);
    let small = ctx.rng.chance(0.6);
    let f = if op { "laymine_op_number" } else { "laymine_number" };
    loop {
        let (r, c) = if small { (ctx.rng.range(1, 6), ctx.rng.range(1, 6)) } else { (ctx.rng.range(4, 16), ctx.rng.range(4, 16)) };
        let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
        let w = if op { window(r, c, x, y) } else { vec![(x, y)] };
        let free: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| !w.contains(p)).collect();
        if free.len() < 2 || small && free.len() > 12 {
            continue;
        }
        let n = if small { ctx.rng.range(1, free.len() - 1) } else { (free.len() as f64 * (0.1 + 0.5 * ctx.rng.f64())) as usize };
        if n == 0 || small && binom(free.len(), n) > 70.0 {
            continue;
        }
        let subs = if small { subsets(free.len(), n) } else { vec![] };
        let draws = if small { 60 * subs.len() } else { 1200 };
        let mut t = Talk::new();
        for _ in 0..draws {
            t.f(f, vec![r.v(), c.v(), n.v(), x.v(), y.v()], None);
        }
        let inp = format!("{f}({r}, {c}, {n}, {x}, {y})");
        let Some(ans) = t.run(ctx, || inp.clone()) else { return };
        let mut obs = vec![0.0; subs.len()];
        let mut single = vec![0.0; free.len()];
        for v in &ans[1..] {
            let b = v.board();
            if b.len() != r || b[0].len() != c {
                ctx.fail("support", format!("{inp}: {}", v.brief()));
                return;
            }
            let mut bits = 0u32;
            for (k, p) in free.iter().enumerate() {
                if b[p.0][p.1] == -1 {
                    single[k] += 1.0;
                    if small {
                        bits |= 1 << k;
                    }
                }
            }
            if small {
                match subs.iter().position(|s| *s == bits) {
                    Some(k) => obs[k] += 1.0,
                    None => {
                        ctx.fail("support", format!("{inp}: layout outside the allowed set: {}", fmt_board(&b)));
                        return;
                    }
                }
            }
        }
        ctx.ev("uniformity_draws", draws as u64);
        ctx.ev("distribution_tests", 1);
        let z = if small {
            chi2_z(chi2(&obs, &vec![60.0; subs.len()]), (subs.len() - 1).max(1) as f64)
        } else {
            let k = free.len() as f64;
            let p = n as f64 / k;
            let e = draws as f64 * p;
            let x2 = single.iter().map(|o| (o - e) * (o - e) / (draws as f64 * p * (1.0 - p))).sum::<f64>() * (k - 1.0) / k;
            chi2_z(x2, k - 1.0)
        };
        ctx.check(z < Z_LIMIT, "uniform", || format!("{inp}: not equally likely over {draws} draws, z {z:.1}: {:?}", if small { &obs } else { &single }));
        ctx.seen(hash_bytes(inp.as_bytes()));
        ctx.sample(|| format!("{inp}: {draws} draws, z {z:.2}"));
        return;
    }
}

fn gstate(s: GameBoardState) -> usize {
    match s {
        GameBoardState::Ready => 1,
        GameBoardState::Playing => 2,
        GameBoardState::Win => 3,
        GameBoardState::Loss => 4,
        GameBoardState::PreFlaging => 5,
        GameBoardState::Display => 6,
    }
}

fn observe(t: &mut Talk, g: &MinesweeperBoard<Vec<Vec<i32>>>) {
    t.get(1, "left", Some(g.left.v()));
    t.get(1, "right", Some(g.right.v()));
    t.get(1, "double", Some(g.double.v()));
    t.get(1, "ce", Some(g.ce.v()));
    t.get(1, "flag", Some(g.flag.v()));
    t.get(1, "bbbv_solved", Some(g.bbbv_solved.v()));
    t.get(1, "row", Some(g.row.v()));
    t.get(1, "column", Some(g.column.v()));
    t.get(1, "board", Some(g.board.v()));
    t.get(1, "game_board", Some(g.game_board.v()));
    t.get(1, "game_board_state", Some(gstate(g.game_board_state).v()));
    t.get(1, "mouse_state", Some(mouse_no(g.mouse_state).v()));
}

fn games(ctx: &mut Ctx) {
    let b = any_board(ctx, 9);
    let mines = mine_count(&b);
    let mut t = Talk::new();
    t.make(1, "MinesweeperBoard", vec![b.v()]);
    let mut g = MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone());
    let mut shadow = Game::new(&b);
    let mut pl = Player::new(&mut ctx.rng);
    let mut log: Vec<String> = vec![];
    let mut flow: Vec<(&'static str, (usize, usize))> = vec![];
    for _ in 0..ctx.rng.range(1, 60) {
        let (e, p) = pl.next(&mut ctx.rng, &shadow);
        shadow.step(e, p);
        log.push(format!("{e}{p:?}"));
        flow.push((e, p));
        if ctx.rng.chance(0.4) {
            continue;
        }
        if flow.len() == 1 {
            let ok = matches!(quiet(|| g.step(flow[0].0, flow[0].1)), Ok(Ok(_)));
            t.m(1, "step", vec![V::s(flow[0].0), flow[0].1 .0.v(), flow[0].1 .1.v()], done(ok));
            if !ok {
                break;
            }
            ctx.ev("steps", 1);
        } else {
            let ok = matches!(quiet(|| g.step_flow(flow.clone())), Ok(Ok(_)));
            t.m(1, "step_flow", vec![V::L(flow.iter().map(|f| V::T(vec![V::s(f.0), f.1 .0.v(), f.1 .1.v()])).collect())], done(ok));
            if !ok {
                break;
            }
            ctx.ev("flows", 1);
        }
        flow.clear();
        if ctx.rng.chance(0.3) {
            observe(&mut t, &g);
        }
        if ctx.rng.chance(0.02) && g.game_board.iter().flatten().all(|x| *x == 10) {
            let n = random_board(&mut ctx.rng, b.len(), b[0].len(), mines);
            g.board = n.clone();
            shadow.set_layout(&n);
            t.set(1, "board", n.v(), Some(V::N));
            ctx.ev("layouts_set", 1);
        }
    }
    observe(&mut t, &g);
    if matches!(g.game_board_state, GameBoardState::Win | GameBoardState::Loss) && ctx.rng.chance(0.3) {
        // shown at the end
        let shown: B = b.iter().map(|l| l.iter().map(|x| if *x < 0 { 14 } else { *x }).collect()).collect();
        g.game_board = shown.clone();
        t.set(1, "game_board", shown.v(), Some(V::N));
        observe(&mut t, &g);
        ctx.ev("positions_set", 1);
    }
    let inp = || format!("{} on {}", log.join(" "), fmt_board(&b));
    if t.run(ctx, inp).is_some() {
        ctx.seen(mix(hash_board(&b), hash_bytes(log.join(" ").as_bytes())));
        ctx.ev("games", 1);
        if g.game_board_state == GameBoardState::Win {
            ctx.ev("games_won", 1);
        }
        if g.game_board_state == GameBoardState::Loss {
            ctx.ev("games_lost", 1);
        }
        ctx.sample(inp);
    }
}

fn put(t: &mut Talk, f: Vec<(&'static str, V)>) {
    for (n, v) in f {
        t.get(1, n, Some(v));
    }
}

macro_rules! file {
    ($name:ident, $class:expr, $ty:ident, $kind:expr) => {
        fn $name(ctx: &mut Ctx) {
            let most = if ctx.rng.chance(0.8) { 100 } else { 900 };
            let Some((mut raw, board)) = valid(ctx, $kind, most) else { return };
            let damaged = ctx.rng.chance(0.1);
            if damaged {
                let k = ctx.rng.below(raw.len());
                if ctx.rng.chance(0.5) {
                    raw.truncate(k);
                } else {
                    raw[k] = ctx.rng.below(256) as u8;
                }
            }
            let file = Scratch::with(&format!(".{}", KINDS[$kind]), &raw);
            let inp = || format!("{} of {} bytes{} on {}", KINDS[$kind], raw.len(), if damaged { " damaged" } else { "" }, fmt_board(&board));
            let mut v = $ty::new(&file.0);
            let mut t = Talk::new();
            t.make(1, $class, vec![raw.v(), V::s("a.file")]);
            let ok = matches!(quiet(|| v.parse_video()), Ok(Ok(_)));
            t.m(1, "parse_video", vec![], done(ok));
            if !ok {
                if t.run(ctx, inp).is_some() {
                    ctx.ev("files_refused", 1);
                }
                return;
            }
            let d = &mut v.data;
            if damaged && (d.height == 0 || d.width == 0 || d.height * d.width > 1000) {
                return;
            }
            let more = |d: &mut Parsed| -> Vec<(&'static str, V)> { vec![("device_uuid", d.device_uuid.v()), ("pix_size", try_v(|| d.get_pix_size()))] };
            if ctx.rng.chance(0.2) {
                put(&mut t, facts_parsed(d));
                put(&mut t, more(d));
            }
            let ok = quiet(|| d.analyse()).is_ok();
            t.m(1, "analyse", vec![], done(ok));
            if !ok {
                t.run(ctx, inp);
                return;
            }
            t.m(1, "is_valid", vec![], Some(lib_v(|| d.is_valid())));
            let n = d.video_action_state_recorder.len();
            let mut log: Vec<String> = vec![];
            put(&mut t, facts_parsed(d));
            put(&mut t, more(d));
            put(&mut t, rates(d).into_iter().filter(|f| f.0 != "time").collect());
            t.get(1, "game_board_state", Some(gstate(d.game_board_state).v()));
            for _ in 0..ctx.rng.range(2, 10) {
                if n == 0 {
                    break;
                }
                if ctx.rng.chance(0.3) {
                    let id = if ctx.rng.chance(0.05) { n + ctx.rng.below(3) } else { ctx.rng.below(n) };
                    log.push(format!("event {id}"));
                    let ok = id >= n || matches!(quiet(|| d.set_current_event_id(id)), Ok(Ok(_)));
                    t.set(1, "current_event_id", id.v(), done(ok));
                    ctx.ev("events_chosen", 1);
                } else {
                    let end = d.get_video_end_time().unwrap_or(1.0);
                    let s = match ctx.rng.below(4) {
                        0 => d.video_action_state_recorder[ctx.rng.below(n)].time,
                        1 => -ctx.rng.f64(),
                        _ => (ctx.rng.f64() * 1.2 - 0.1) * end,
                    };
                    log.push(format!("time {s}"));
                    let ok = quiet(|| d.set_current_time(s)).is_ok();
                    t.set(1, "current_time", s.v(), done(ok));
                    ctx.ev("seeks", 1);
                }
                put(&mut t, facts_parsed(d));
                put(&mut t, rates(d).into_iter().filter(|f| f.0 != "time").collect());
                if ctx.rng.chance(0.1) && d.height * d.width <= 64 {
                    t.get(1, "game_board_poss", Some(lib_v(|| d.get_game_board_poss())));
                    ctx.ev("probability_tables_of_recordings", 1);
                }
            }
            for _ in 0..6 {
                if n == 0 {
                    break;
                }
                let k = ctx.rng.below(n);
                let a = &d.video_action_state_recorder[k];
                t.m(1, "events_time", vec![k.v()], Some(a.time.v()));
                t.m(1, "events_mouse", vec![k.v()], Some(a.mouse.v()));
                t.m(1, "events_x", vec![k.v()], Some(a.x.v()));
                t.m(1, "events_y", vec![k.v()], Some(a.y.v()));
                t.m(1, "events_useful_level", vec![k.v()], Some(a.useful_level.v()));
                t.m(1, "events_mouse_state", vec![k.v()], Some(mouse_no(a.mouse_state).v()));
                ctx.ev("events_compared", 1);
            }
            let inp = || format!("{} in {}", log.join(" "), inp());
            if t.run(ctx, inp).is_some() {
                ctx.ev(concat!(stringify!($name), "_files"), 1);
                ctx.seen(hash_bytes(&raw));
                ctx.sample(inp);
            }
        }
    };
}
file!(evf, "EvfVideo", EvfVideo, 0);
file!(avf, "AvfVideo", AvfVideo, 1);
file!(rmv, "RmvVideo", RmvVideo, 2);
file!(mvf, "MvfVideo", MvfVideo, 3);

fn main() {
    engine::main(Spec {
        id: "C32",
        rule: "the same random question asked of the library and of the JavaScript interface built from wasm for this machine; distinct by layout, position, event history or file",
        stages: vec![
            Stage { name: "layouts", quick: 6000, thorough: 300000, f: layouts },
            Stage { name: "positions", quick: 8000, thorough: 300000, f: positions },
            Stage { name: "generators", quick: 500, thorough: 20000, f: generators },
            Stage { name: "uniform", quick: 150, thorough: 5000, f: uniform },
            Stage { name: "games", quick: 5000, thorough: 150000, f: games },
            Stage { name: "evf", quick: 500, thorough: 20000, f: evf },
            Stage { name: "avf", quick: 500, thorough: 20000, f: avf },
            Stage { name: "rmv", quick: 500, thorough: 20000, f: rmv },
            Stage { name: "mvf", quick: 500, thorough: 20000, f: mvf },
        ],
        finish: None,
        assumptions: &["the library's own answers are judged by C01 to C29", "wasm/src is compiled for this machine (64 bits), with its features, not for WebAssembly: no WebAssembly target is installed"],
        must_see: &["answers_agreed", "layouts_measured", "positions", "positions_refused", "probability_tables", "damaged_positions", "layouts_generated", "guess_free_layouts", "distribution_tests", "games", "games_won", "games_lost", "steps", "flows", "layouts_set", "positions_set", "files_refused", "events_chosen", "seeks", "events_compared", "evf_files", "avf_files", "rmv_files", "mvf_files"],
    })
}
