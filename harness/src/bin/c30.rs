//! C30: the Python functions, boards and games answer as the library does.
use harness::remote::*;
use harness::*;
use ms_toollib::*;
use oracle::game::*;
use oracle::solver::*;
use oracle::*;

/// what the library says, or the exception a crash becomes
fn lib<T: ToV>(f: impl FnOnce() -> T) -> Option<V> {
    Some(match quiet(f) {
        Ok(x) => x.v(),
        Err(_) => V::E("PanicException".into()),
    })
}
fn or_error<T: ToV>(f: impl FnOnce() -> Option<T>) -> Option<V> {
    Some(match quiet(f) {
        Ok(Some(x)) => x.v(),
        Ok(None) => V::E("RuntimeError".into()),
        Err(_) => V::E("PanicException".into()),
    })
}

fn any_board(ctx: &mut Ctx, max: usize) -> B {
    let (r, c) = (ctx.rng.range(1, max), ctx.rng.range(1, max));
    if ctx.rng.chance(0.3) {
        return shaped_board(&mut ctx.rng, r, c);
    }
    let n = (r * c) as f64 * ctx.rng.f64() * if ctx.rng.chance(0.1) { 1.0 } else { 0.4 };
    random_board(&mut ctx.rng, r, c, n as usize)
}

fn layouts(ctx: &mut Ctx) {
    let b = any_board(ctx, 12);
    let (r, c) = (b.len(), b[0].len());
    let mut t = Talk::new();
    let inp = || fmt_board(&b);
    t.f("cal_op", vec![b.v()], lib(|| cal_op(&b)));
    t.f("cal_bbbv", vec![b.v()], lib(|| cal_bbbv(&b)));
    t.f("unsolvable_structure", vec![b.v()], lib(|| unsolvable_structure(&b)));
    let safe: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| b[p.0][p.1] >= 0).collect();
    if !safe.is_empty() && r * c <= 100 {
        let p = *ctx.rng.pick(&safe);
        t.f("is_solvable", vec![b.v(), p.0.v(), p.1.v()], lib(|| is_solvable(&b, p.0, p.1)));
    }
    let mut g = vec![vec![10; c]; r];
    for _ in 0..3 {
        let clicks: Vec<(usize, usize)> = (0..ctx.rng.range(0, 4)).filter_map(|_| if safe.is_empty() { None } else { Some(*ctx.rng.pick(&safe)) }).collect();
        let before = g.clone();
        let mut after = g.clone();
        let w = lib(|| {
            refresh_board(&b, &mut after, clicks.clone());
            after.clone()
        });
        t.f("refresh_board", vec![b.v(), before.v(), clicks.v()], w);
        g = after;
    }
    t.make(1, "Board", vec![b.v()]);
    let mut m = Board::new(b.clone());
    let mut names = ["bbbv", "op", "isl", "cell0", "cell1", "cell2", "cell3", "cell4", "cell5", "cell6", "cell7", "cell8"];
    ctx.rng.shuffle(&mut names);
    for n in names {
        let w = lib(|| match n {
            "bbbv" => m.get_bbbv(),
            "op" => m.get_op(),
            "isl" => m.get_isl(),
            "cell0" => m.get_cell0(),
            "cell1" => m.get_cell1(),
            "cell2" => m.get_cell2(),
            "cell3" => m.get_cell3(),
            "cell4" => m.get_cell4(),
            "cell5" => m.get_cell5(),
            "cell6" => m.get_cell6(),
            "cell7" => m.get_cell7(),
            _ => m.get_cell8(),
        });
        t.get(1, n, w);
    }
    // the protected board
    t.make(2, "SafeBoard", vec![b.v()]);
    t.m(2, "into_vec_vec", vec![], Some(b.v()));
    for _ in 0..3 {
        let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
        t.item(2, x, None);
        t.item(98, y, Some(b[x][y].v()));
    }
    let b2 = any_board(ctx, 12);
    t.m(2, "set", vec![b2.v()], Some(V::N));
    t.m(2, "into_vec_vec", vec![], Some(b2.v()));
    let (x, y) = (ctx.rng.below(b2.len()), ctx.rng.below(b2[0].len()));
    t.item(2, x, None);
    t.item(98, y, Some(b2[x][y].v()));
    // a loop ends where the board ends
    let out = || Some(V::E("IndexError".into()));
    t.walk(2, b2.v());
    t.walk(98, b2[x].v());
    t.item(2, b2.len() + ctx.rng.below(3), out());
    t.item(98, b2[0].len() + ctx.rng.below(3), out());
    t.item(98, y, Some(b2[x][y].v()));
    if t.run(ctx, inp).is_some() {
        ctx.seen(hash_board(&b));
        ctx.ev("layouts_measured", 1);
        ctx.sample(inp);
    }
}

fn positions(ctx: &mut Ctx) {
    let max = *ctx.rng.pick(&[3usize, 5, 8, 9]);
    let marks = ctx.rng.chance(0.4);
    let gen = gen_visible(&mut ctx.rng, max, max, marks);
    let (mut g, mines) = (gen.game, gen.mines);
    let (r, c) = (g.len(), g[0].len());
    let broken = ctx.rng.chance(0.15);
    if broken {
        // a number that does not fit
        let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
        g[x][y] = ctx.rng.range(0, 8) as i32;
    }
    if !affordable(&model(&g), 40, 4000) {
        return;
    }
    let inp = || format!("{mines} mines in {}", fmt_board(&g));
    let mut t = Talk::new();
    t.f("refresh_matrix", vec![g.v()], lib(|| refresh_matrix(&g)));
    t.f("refresh_matrixs", vec![g.v()], lib(|| refresh_matrixs(&g)));
    let start = quiet(|| refresh_matrixs(&g)).ok();
    if let Some((a, x, b, _, _)) = start {
        for which in ["solve_minus", "solve_direct"] {
            let (mut a1, mut x1, mut b1, mut g1) = (a.clone(), x.clone(), b.clone(), g.clone());
            let w = or_error(|| {
                let k = if which == "solve_minus" { solve_minus(&mut a1, &mut x1, &mut b1, &mut g1) } else { solve_direct(&mut a1, &mut x1, &mut b1, &mut g1) };
                k.ok().map(|k| (a1, x1, b1, g1, k.0, k.1))
            });
            t.f(which, vec![a.v(), x.v(), b.v(), g.v()], w);
        }
        t.f("solve_enumerate", vec![g.v()], lib(|| solve_enumerate(&a, &x, &b)));
        let (mut a1, mut x1, mut b1, mut g1) = (a.clone(), x.clone(), b.clone(), g.clone());
        let w = lib(|| {
            let k = get_all_not_and_is_mine_on_board(&mut a1, &mut x1, &mut b1, &mut g1);
            (g1, k.0, k.1)
        });
        t.f("get_all_not_and_is_mine_on_board", vec![g.v()], w);
    }
    let mut marked = g.clone();
    let ok = quiet(|| mark_board(&mut marked));
    if matches!(ok, Ok(Ok(_))) {
        t.f("mark_board", vec![g.v()], Some(marked.v()));
    }
    let n = if ctx.rng.chance(0.25) { ctx.rng.f64() } else { mines as f64 };
    t.f("cal_possibility", vec![g.v(), n.v()], or_error(|| match ok { Ok(Err(_)) => None, _ => cal_possibility(&marked, n).ok() }));
    t.f("cal_possibility_onboard", vec![g.v(), n.v()], or_error(|| match ok { Ok(Err(_)) => None, _ => cal_possibility_onboard(&marked, n).ok() }));
    let hidden: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| g[p.0][p.1] >= 10).collect();
    if !hidden.is_empty() {
        let p = *ctx.rng.pick(&hidden);
        let mut g1 = g.clone();
        t.f("is_guess_while_needless", vec![g.v(), p.v()], lib(|| is_guess_while_needless(&mut g1, &p)));
        let mut g1 = g.clone();
        t.f("is_able_to_solve", vec![g.v(), p.v()], lib(|| is_able_to_solve(&mut g1, &p)));
    }
    t.make(1, "GameBoard", vec![mines.v()]);
    let mut o = GameBoard::new(mines);
    for k in 0..2 {
        t.set(1, "game_board", g.v(), Some(V::N));
        if k == 0 {
            let e = vec![vec![10; c]; r];
            t.set(1, "game_board", e.v(), Some(V::N));
            o.set_game_board(&g);
            o.set_game_board(&e);
        } else {
            o.set_game_board(&g);
        }
        let mut names = ["poss", "basic_not_mine", "basic_is_mine", "enum_not_mine", "enum_is_mine"];
        ctx.rng.shuffle(&mut names);
        let mut dead = false;
        for n in names {
            let w = lib(|| match n {
                "poss" => o.get_poss().v(),
                "basic_not_mine" => o.get_basic_not_mine().v(),
                "basic_is_mine" => o.get_basic_is_mine().v(),
                "enum_not_mine" => o.get_enum_not_mine().v(),
                _ => o.get_enum_is_mine().v(),
            });
            dead |= matches!(w, Some(V::E(_)));
            if dead {
                break;
            }
            t.get(1, n, w);
        }
        if dead {
            break;
        }
    }
    if t.run(ctx, inp).is_some() {
        ctx.seen(hash_board(&g));
        ctx.ev(if broken { "damaged_positions" } else { "positions" }, 1);
        ctx.sample(inp);
    }
}

fn check_layout(ctx: &mut Ctx, who: &str, b: &B, a: (usize, usize, usize, usize, usize), open: bool) -> bool {
    let (r, c, n, x, y) = a;
    let ok = b.len() == r && b.iter().all(|l| l.len() == c) && mine_count(b) == n && consistent(b) && b[x][y] >= 0 && (!open || b[x][y] == 0);
    ctx.check(ok, &format!("layout:{who}"), || format!("{who}({r}, {c}, {n}, {x}, {y}) gives {}", fmt_board(b)))
}

fn generators(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(5, 10), ctx.rng.range(5, 12));
    let n = r * c * ctx.rng.range(2, 16) / 100;
    let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
    let a = (r, c, n, x, y);
    let args = || vec![r.v(), c.v(), n.v(), x.v(), y.v()];
    let mut t = Talk::new();
    let mut names = vec![];
    for f in ["laymine", "laymine_op", "laymine_solvable", "laymine_solvable_thread", "laymine_solvable_adjust", "zero"] {
        match f {
            "zero" => {
                t.f("laymine_solvable", [args(), vec![0usize.v()]].concat(), None);
            }
            "laymine_solvable_thread" if ctx.rng.chance(0.8) => continue,
            "laymine_solvable_thread" | "laymine_solvable" if ctx.rng.chance(0.5) => {
                t.f(f, [args(), vec![ctx.rng.range(1, 30).v()]].concat(), None);
            }
            _ => {
                t.f(f, args(), None);
            }
        }
        names.push(f);
    }
    let s = 16 * ctx.rng.range(1, 3);
    if ctx.rng.chance(0.2) {
        t.f("sample_3BVs_exp", vec![ctx.rng.below(16).v(), ctx.rng.below(30).v(), s.v()], None);
        names.push("sample");
    }
    let Some(ans) = t.run(ctx, || format!("{a:?}")) else { return };
    for (f, v) in names.iter().zip(&ans[1..]) {
        if !ctx.check(!matches!(v, V::E(_)), "generator raises", || format!("{f}{a:?} raises {}", v.brief())) {
            return;
        }
        match *f {
            "laymine" | "laymine_op" => {
                if !check_layout(ctx, f, &v.board(), a, *f == "laymine_op") {
                    return;
                }
            }
            "sample" => {
                let l = v.list();
                let sum: i128 = l.iter().map(|x| x.int()).sum();
                ctx.check(l.len() == 382 && sum == s as i128, "sample_3BVs_exp", || format!("{} entries, {sum} of {s} layouts", l.len()));
            }
            _ => {
                let l = v.list();
                if !ctx.check(l.len() == 2, "generator shape", || v.brief()) {
                    return;
                }
                let b = l[0].board();
                let open = *f != "laymine_solvable_adjust";
                if !check_layout(ctx, f, &b, a, open) {
                    return;
                }
                let flag = l[1] == V::B(true);
                if *f == "zero" {
                    ctx.check(!flag, "success after no attempt", || v.brief());
                } else if flag {
                    ctx.check(is_solvable(&b, x, y), "called guess-free", || format!("{f}: {}", fmt_board(&b)));
                    ctx.ev("guess_free_layouts", 1);
                }
            }
        }
        ctx.ev("layouts_generated", 1);
    }
    ctx.seen(mix(mix(r as u64, c as u64), mix(n as u64, (x * 64 + y) as u64)));
}

fn gstate(s: GameBoardState) -> usize {
    match s {
        GameBoardState::Ready => 1,
        GameBoardState::Playing => 2,
        GameBoardState::Win => 3,
        GameBoardState::Loss => 4,
        GameBoardState::PreFlaging => 5,
        GameBoardState::Display => 6,
    }
}

/// what reinforcement learners get: the visible cells and the chances
fn learner(g: &B, n: f64) -> Option<V> {
    let seen: Vec<Vec<f64>> = g.iter().map(|l| l.iter().map(|x| match x { 10 => -1.0, 11 => -2.0, x => *x as f64 }).collect()).collect();
    let mut h: B = g.iter().map(|l| l.iter().map(|x| if *x > 10 { 10 } else { *x }).collect()).collect();
    let r = quiet(|| {
        mark_board(&mut h).ok()?;
        cal_possibility_onboard(&h, n).ok().map(|p| p.0)
    });
    Some(match r {
        Ok(Some(p)) => vec![seen, p].v(),
        _ => V::E("*".into()),
    })
}

macro_rules! observe {
    ($ctx:expr, $t:expr, $g:expr, $mines:expr) => {{
        $t.get(1, "left", Some($g.left.v()));
        $t.get(1, "right", Some($g.right.v()));
        $t.get(1, "double", Some($g.double.v()));
        $t.get(1, "ce", Some($g.ce.v()));
        $t.get(1, "flag", Some($g.flag.v()));
        $t.get(1, "bbbv_solved", Some($g.bbbv_solved.v()));
        $t.get(1, "row", Some($g.row.v()));
        $t.get(1, "column", Some($g.column.v()));
        $t.get(1, "game_board", Some($g.game_board.v()));
        $t.get(1, "game_board_state", Some(gstate($g.game_board_state).v()));
        $t.get(1, "mouse_state", Some(mouse_no($g.mouse_state).v()));
        let lost = $g.game_board.iter().flatten().any(|x| *x > 11);
        if !lost && $ctx.rng.chance(0.1) && $g.game_board.len() * $g.game_board[0].len() <= 64 {
            $t.m(1, "get_game_board_2", vec![($mines as f64).v()], learner(&$g.game_board, $mines as f64));
            $ctx.ev("learner_views", 1);
        }
    }};
}

macro_rules! game {
    ($ctx:expr, $class:expr, $new:expr, $safe:expr, $setb:expr, $getb:expr, $reset:expr) => {{
        let ctx: &mut Ctx = $ctx;
        let b = any_board(ctx, 9);
        let mines = mine_count(&b);
        let mut t = Talk::new();
        t.make(1, $class, vec![b.v()]);
        let mut g = $new(&b);
        let mut shadow = Game::new(&b);
        let mut pl = Player::new(&mut ctx.rng);
        let mut log: Vec<String> = vec![];
        let mut flow: Vec<(&'static str, (usize, usize))> = vec![];
        for _ in 0..ctx.rng.range(1, 60) {
            let (e, p) = pl.next(&mut ctx.rng, &shadow);
            shadow.step(e, p);
            log.push(format!("{e}{p:?}"));
            flow.push((e, p));
            if flow.len() > 1 || ctx.rng.chance(0.3) {
                if ctx.rng.chance(0.5) {
                    continue;
                }
                if flow.len() == 1 {
                    let w = quiet(|| g.step(flow[0].0, flow[0].1));
                    let bad = !matches!(w, Ok(Ok(_)));
                    t.m(1, "step", vec![V::s(flow[0].0), flow[0].1.v()], Some(if bad { V::E("PanicException".into()) } else { V::N }));
                    if bad {
                        break;
                    }
                    ctx.ev("steps", 1);
                } else {
                    let w = quiet(|| g.step_flow(flow.clone()));
                    let bad = !matches!(w, Ok(Ok(_)));
                    t.m(1, "step_flow", vec![V::L(flow.iter().map(|f| V::T(vec![V::s(f.0), f.1.v()])).collect())], Some(if bad { V::E("PanicException".into()) } else { V::N }));
                    if bad {
                        break;
                    }
                    ctx.ev("flows", 1);
                }
                flow.clear();
                if ctx.rng.chance(0.3) {
                    observe!(ctx, t, g, mines);
                }
            }
            if flow.is_empty() && ctx.rng.chance(0.02) && g.game_board.iter().flatten().all(|x| *x == 10) {
                // the layout is decided late
                let n = random_board(&mut ctx.rng, b.len(), b[0].len(), mines);
                $setb(&mut g, n.clone());
                shadow.set_layout(&n);
                t.set(1, "board", n.v(), Some(V::N));
                ctx.ev("layouts_set", 1);
            }
            if $reset && flow.is_empty() && ctx.rng.chance(0.02) {
                log.push("reset".into());
                let k = quiet(|| $safe(&mut g));
                t.m(1, "reset", vec![], Some(if k.is_ok() { V::N } else { V::E("PanicException".into()) }));
                // a reset game waits for its layout
                let n = random_board(&mut ctx.rng, b.len(), b[0].len(), mines);
                $setb(&mut g, n.clone());
                shadow = Game::new(&n);
                if ctx.rng.chance(0.5) {
                    t.get(1, "board", Some(vec![vec![0; b[0].len()]; b.len()].v()));
                }
                t.set(1, "board", n.v(), Some(V::N));
                ctx.ev("resets", 1);
            }
        }
        observe!(ctx, t, g, mines);
        t.get(1, "board", Some($getb(&g).v()));
        let inp = || format!("{} on {}", log.join(" "), fmt_board(&b));
        if t.run(ctx, inp).is_some() {
            ctx.seen(mix(hash_board(&b), hash_bytes(log.join(" ").as_bytes())));
            ctx.ev("games", 1);
            if g.game_board_state == GameBoardState::Win {
                ctx.ev("games_won", 1);
            }
            if g.game_board_state == GameBoardState::Loss {
                ctx.ev("games_lost", 1);
            }
            ctx.sample(inp);
        }
    }};
}

fn plain_games(ctx: &mut Ctx) {
    game!(ctx, "MinesweeperBoard", |b: &B| MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone()), |g: &mut MinesweeperBoard<Vec<Vec<i32>>>| g.reset(), |g: &mut MinesweeperBoard<Vec<Vec<i32>>>, n: B| g.board = n, |g: &MinesweeperBoard<Vec<Vec<i32>>>| g.board.clone(), true)
}
fn safe_games(ctx: &mut Ctx) {
    game!(ctx, "SafeMinesweeperBoard", |b: &B| MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.clone())), |_g: &mut MinesweeperBoard<SafeBoard>| (), |g: &mut MinesweeperBoard<SafeBoard>, n: B| g.board.set(n), |g: &MinesweeperBoard<SafeBoard>| g.board.into_vec_vec(), false)
}

fn steps(ctx: &mut Ctx) {
    // one step of an enumeration over a table of 0, 1, 2 (undecided)
    let cells = ctx.rng.range(1, 9);
    let mut table: Vec<Vec<usize>> = vec![vec![2; cells]];
    let mut t = Talk::new();
    let mut log = vec![];
    for _ in 0..ctx.rng.range(1, 4) {
        let mut ids: Vec<usize> = (0..cells).collect();
        ctx.rng.shuffle(&mut ids);
        ids.truncate(ctx.rng.range(1, cells.min(8)));
        let b = ctx.rng.range(0, ids.len()) as i32;
        log.push(format!("{b} of {ids:?}"));
        let next = quiet(|| enuOneStep(table.clone(), ids.clone(), b));
        let w = match &next {
            Ok(x) => x.v(),
            Err(_) => V::E("PanicException".into()),
        };
        t.f("enuOneStep", vec![table.v(), ids.v(), b.v()], Some(w));
        match next {
            Ok(x) if x.len() < 300 && !x.is_empty() => table = x,
            _ => break,
        }
    }
    if t.run(ctx, || log.join(", ")).is_some() {
        ctx.seen(hash_bytes(log.join(",").as_bytes()));
        ctx.ev("enumerations", 1);
    }
}

/// pictures of boards; both sides look for the reader's parameters in the working directory
fn pictures(ctx: &mut Ctx) {
    let mut t = Talk::new();
    let (d, h, w, want, name) = if ctx.rng.chance(0.6) {
        let (h, w) = if ctx.rng.chance(0.5) { (ctx.rng.range(1, 24), ctx.rng.range(1, 90)) } else { (ctx.rng.range(1, 90), ctx.rng.range(1, 24)) };
        let d: Vec<usize> = (0..h * w * 4).map(|_| ctx.rng.below(256)).collect();
        // what the module gives for a picture that is refused
        (d, h, w, "scraps_refused", format!("{h} by {w} pixels"))
    } else {
        let (r, c) = (ctx.rng.range(9, 12), ctx.rng.range(9, 12));
        let n = r * c * ctx.rng.range(10, 40) / 100;
        let b = random_board(&mut ctx.rng, r, c, n);
        let p = ctx.rng.f64();
        let g: B = b.iter().map(|l| l.iter().map(|&v| if v >= 0 && ctx.rng.chance(p) { v } else { 10 }).collect()).collect();
        let m = [ctx.rng.range(8, 30), ctx.rng.range(8, 30), ctx.rng.range(8, 30), ctx.rng.range(8, 30)];
        let (d, h, w) = harness::picture::picture(&g, *ctx.rng.pick(&[28, 30, 31, 32]), m, [ctx.rng.below(40) as u8; 3], 255);
        (d, h, w, "pictures_read", format!("a picture of {}", fmt_board(&g)))
    };
    let a = quiet(|| OBR_board(d.clone(), h, w));
    let want_v = match &a {
        Ok(Ok(x)) => x.v(),
        Ok(Err(_)) => vec![vec![200]].v(),
        Err(_) => V::E("PanicException".into()),
    };
    t.f("OBR_board", vec![d.v(), h.v(), w.v()], Some(want_v));
    if t.run(ctx, || name.clone()).is_some() {
        ctx.seen(hash_bytes(name.as_bytes()));
        if matches!(a, Ok(Ok(_))) == (want == "pictures_read") {
            ctx.ev(want, 1);
        }
    }
}

fn main() {
    std::env::set_current_dir("/repo/base").expect("/repo/base");
    engine::main(Spec {
        id: "C30",
        rule: "the same random question asked of the library and of the Python module built from python_package; distinct by layout, position or event history",
        stages: vec![
            Stage { name: "layouts", quick: 6000, thorough: 300000, f: layouts },
            Stage { name: "positions", quick: 6000, thorough: 300000, f: positions },
            Stage { name: "generators", quick: 300, thorough: 10000, f: generators },
            Stage { name: "games", quick: 3000, thorough: 150000, f: plain_games },
            Stage { name: "protected", quick: 3000, thorough: 150000, f: safe_games },
            Stage { name: "steps", quick: 1500, thorough: 50000, f: steps },
            Stage { name: "pictures", quick: 60, thorough: 2000, f: pictures },
        ],
        finish: None,
        assumptions: &["the library's own answers are judged by C01 to C29", "the Python module is built with the settings of the harness (overflow checks on)"],
        must_see: &["answers_agreed", "exceptions_agreed", "layouts_measured", "positions", "damaged_positions", "layouts_generated", "guess_free_layouts", "games", "games_won", "games_lost", "steps", "flows", "resets", "layouts_set", "learner_views", "enumerations", "pictures_read", "scraps_refused"],
    })
}
