//! C15: the board state machine driven by mouse events, against a model of physical buttons and rules.
use ms_toollib::{BaseVideo, GameBoardState, MinesweeperBoard, MouseState, SafeBoard};
use oracle::game::*;
use oracle::*;

fn mouse(g: &Game) -> MouseState {
    match (g.l, g.r) {
        (false, false) => MouseState::UpUp,
        (false, true) if g.dull => MouseState::UpDownNotFlag,
        (false, true) => MouseState::UpDown,
        (true, false) if g.after => MouseState::DownUpAfterChording,
        (true, false) => MouseState::DownUp,
        (true, true) if g.dull => MouseState::ChordingNotFlag,
        (true, true) => MouseState::Chording,
    }
}
fn state(g: &Game) -> GameBoardState {
    match g.st {
        St::Ready => GameBoardState::Ready,
        St::Pre => GameBoardState::PreFlaging,
        St::Playing => GameBoardState::Playing,
        St::Win => GameBoardState::Win,
        St::Loss => GameBoardState::Loss,
    }
}

macro_rules! diff {
    ($m:expr, $g:expr, $mouse:expr) => {{
        let (m, g) = (&$m, &$g);
        if m.game_board != g.gb {
            Some(("board", format!("board {} instead of {}", fmt_board(&m.game_board), fmt_board(&g.gb))))
        } else if m.game_board_state != state(g) {
            Some(("state", format!("state {:?} instead of {:?}", m.game_board_state, state(g))))
        } else if m.left != g.left {
            Some(("left", format!("left {} instead of {}", m.left, g.left)))
        } else if m.right != g.right {
            Some(("right", format!("right {} instead of {}", m.right, g.right)))
        } else if m.double != g.double {
            Some(("double", format!("double {} instead of {}", m.double, g.double)))
        } else if m.ce != g.ce {
            Some(("ce", format!("ce {} instead of {}", m.ce, g.ce)))
        } else if m.flag != g.flag {
            Some(("flag", format!("flag {} instead of {}", m.flag, g.flag)))
        } else if m.bbbv_solved != g.bbbv {
            Some(("bbbv_solved", format!("bbbv_solved {} instead of {}", m.bbbv_solved, g.bbbv)))
        } else if $mouse && m.mouse_state != mouse(g) {
            Some(("mouse", format!("mouse {:?} instead of {:?}", m.mouse_state, mouse(g))))
        } else {
            None
        }
    }};
}

fn board_for(ctx: &mut Ctx) -> B {
    let (r, c) = match ctx.rng.below(6) {
        0 => (ctx.rng.range(1, 4), ctx.rng.range(1, 6)),
        1 => *ctx.rng.pick(&[(8, 8), (8, 8), (16, 16), (16, 30)]),
        _ => (ctx.rng.range(3, 14), ctx.rng.range(3, 14)),
    };
    if ctx.rng.chance(0.15) {
        return shaped_board(&mut ctx.rng, r, c);
    }
    let n = if ctx.rng.chance(0.1) { ctx.rng.below(r * c + 1) } else { r * c * ctx.rng.range(2, 22) / 100 };
    random_board(&mut ctx.rng, r, c, n)
}

/// one game; `m` may come from an earlier game (after a reset)
fn drive(ctx: &mut Ctx, board: &B, m: &mut MinesweeperBoard<Vec<Vec<i32>>>, steps: usize) -> bool {
    let mut s = MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(board.clone()));
    let mut g = Game::new(board);
    let mut pl = Player::new(&mut ctx.rng);
    let mut log: Vec<(&'static str, (usize, usize))> = vec![];
    let mut h = hash_board(board);
    let units = g.units();
    let mut extra = 5;
    for _ in 0..steps {
        let (e, p) = pl.next(&mut ctx.rng, &g);
        log.push((e, p));
        let before = g.st;
        let (flag0, double0, right0) = (g.flag, g.double, g.right);
        let pre_open = g.gb.iter().flatten().filter(|x| **x < 10).count();
        let want = g.step(e, p);
        let inp = || format!("{} on {}", fmt_events(&log), fmt_board(board));
        let a = ctx.guard("MinesweeperBoard::step (plain)", inp, || m.step(e, p));
        let d = ctx.guard("MinesweeperBoard::step (protected)", inp, || s.step(e, p));
        let (Some(a), Some(d)) = (a, d) else { return false };
        for (who, x) in [("plain", a), ("protected", d)] {
            if x != Ok(want) {
                ctx.fail(format!("{who}:return:{e}"), format!("step returned {x:?} instead of {want}: {}", inp()));
                return false;
            }
        }
        let over = g.st == St::Win || g.st == St::Loss;
        if let Some((f, t)) = diff!(*m, g, !over) {
            ctx.fail(format!("plain:{f}:{e}"), format!("{t} after {}", inp()));
            return false;
        }
        if let Some((f, t)) = diff!(s, g, !over) {
            ctx.fail(format!("protected:{f}:{e}"), format!("{t} after {}", inp()));
            return false;
        }
        // invariants, independent of the step-by-step model
        if !over {
            let n = m.game_board.iter().flatten().filter(|x| **x == 11).count();
            if !ctx.check(n == m.flag, "invariant:flags", || format!("{n} flags on the board, {} counted: {}", m.flag, inp())) {
                return false;
            }
        }
        if g.st == St::Win && !ctx.check(m.bbbv_solved == units, "invariant:won 3BV", || format!("won with {} of {units}: {}", m.bbbv_solved, inp())) {
            return false;
        }
        if !ctx.check(m.board == *board, "invariant:layout", || inp()) {
            return false;
        }
        ctx.ev("events", 1);
        match want {
            2 => ctx.ev("openings_by_click", 1),
            3 => ctx.ev("effective_chords", 1),
            1 => ctx.ev("flag_changes", 1),
            _ => (),
        }
        if want == 0 && g.double > double0 {
            ctx.ev("idle_chords", 1);
        }
        if g.right < right0 && g.st == St::Playing {
            ctx.ev("uncounted_right_presses", 1);
        }
        if before == St::Pre && g.st == St::Ready && flag0 > 0 {
            ctx.ev("preflags_withdrawn", 1);
        }
        if before == St::Pre && g.st == St::Playing && g.flag > 0 {
            ctx.ev("starts_with_preflags", 1);
        }
        if before != g.st {
            match g.st {
                St::Win => ctx.ev("wins", 1),
                St::Loss => ctx.ev("losses", 1),
                _ => (),
            }
            if g.st == St::Win && before != St::Playing {
                ctx.ev("wins_by_first_click", 1);
            }
        }
        if g.gb.iter().flatten().filter(|x| **x < 10).count() != pre_open {
            h = mix(h, hash_board(&g.gb));
            ctx.seen(h);
        }
        if over {
            extra -= 1;
            if extra == 0 {
                break;
            }
        }
    }
    // the whole history at once
    let mut f = MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(board.clone()));
    let flow: Vec<(&str, (usize, usize))> = log.iter().map(|(e, p)| (*e, *p)).collect();
    let inp = || format!("{} on {}", fmt_events(&log), fmt_board(board));
    match ctx.guard("step_flow", inp, || f.step_flow(flow)) {
        None => return false,
        Some(x) => {
            let over = g.st == St::Win || g.st == St::Loss;
            if !ctx.check(x.is_ok(), "flow:error", inp) {
                return false;
            }
            if let Some((q, t)) = diff!(f, g, !over) {
                ctx.fail(format!("flow:{q}"), format!("{t} after {}", inp()));
                return false;
            }
        }
    }
    ctx.ev("games", 1);
    ctx.sample(|| format!("{:?} left {} right {} double {} ce {} 3bv {}/{units} after {}", g.st, g.left, g.right, g.double, g.ce, g.bbbv, inp()));
    true
}

fn games(ctx: &mut Ctx) {
    let b = board_for(ctx);
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone());
    let n = ctx.rng.range(5, 400);
    if !drive(ctx, &b, &mut m, n) {
        return;
    }
    // games on a reset object: as if it were new
    for _ in 0..ctx.rng.below(3) {
        let (r, c) = (b.len(), b[0].len());
        let k = mine_count(&b);
        let b2 = random_board(&mut ctx.rng, r, c, k);
        m.reset();
        m.board = b2.clone();
        let n = ctx.rng.range(5, 120);
        ctx.ev("games_after_reset", 1);
        if !drive(ctx, &b2, &mut m, n) {
            return;
        }
    }
}

/// arbitrary events: never a crash, and the board and counters stay consistent
fn hostile(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(1, 9), ctx.rng.range(1, 9));
    let n = if ctx.rng.chance(0.1) { ctx.rng.below(r * c + 1) } else { r * c * ctx.rng.range(2, 25) / 100 };
    let b = random_board(&mut ctx.rng, r, c, n);
    let g = Game::new(&b);
    let mut m = MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.clone()));
    let names = ["lc", "lr", "rc", "rr", "mc", "mr", "mv", "cc", "l", "r", "m", "crl", "crr", "pf", "??", ""];
    let mut log: Vec<(&'static str, (usize, usize))> = vec![];
    let mut h = hash_board(&b);
    for _ in 0..ctx.rng.range(1, 250) {
        let mut p = (ctx.rng.below(r), ctx.rng.below(c));
        let w: [u32; 16] = [20, 20, 12, 12, 3, 3, 2, 4, 4, 4, 3, 3, 3, 3, 1, 1];
        let e = names[ctx.rng.weighted(&w)];
        if ctx.rng.chance(0.12) && e != "pf" {
            p = (r, c);
        }
        if e == "pf" && m.game_board[p.0][p.1] != 10 {
            continue;
        }
        log.push((e, p));
        let before = m.game_board.clone();
        let over = matches!(m.game_board_state, GameBoardState::Win | GameBoardState::Loss);
        let st0 = m.game_board_state;
        let inp = || format!("{} on {}", fmt_events(&log), fmt_board(&b));
        let Some(x) = ctx.guard("MinesweeperBoard::step", inp, || m.step(e, p)) else { return };
        if over && !ctx.check(x == Ok(0) && m.game_board == before && m.game_board_state == st0, "hostile:after end", inp) {
            return;
        }
        if x.is_err() {
            ctx.ev("rejected_events", 1);
            if !ctx.check(m.game_board == before, "hostile:rejected event changed the board", inp) {
                return;
            }
        }
        let flags = m.game_board.iter().flatten().filter(|x| **x == 11).count();
        let safe = (0..r).all(|i| (0..c).all(|j| b[i][j] == -1 || m.game_board[i][j] < 10));
        let hit = m.game_board.iter().flatten().any(|x| *x == 15);
        let truth = (0..r).all(|i| (0..c).all(|j| match m.game_board[i][j] {
            10 | 11 => true,
            15 => b[i][j] == -1,
            14 => b[i][j] >= 0 && hit,
            v => v == b[i][j] && v >= 0,
        }));
        if !ctx.check(truth, "hostile:board", || format!("board {} after {}", fmt_board(&m.game_board), inp())) {
            return;
        }
        let won = m.game_board_state == GameBoardState::Win;
        if !ctx.check(hit == (m.game_board_state == GameBoardState::Loss), "hostile:loss", inp)
            || !ctx.check(won == (safe && (n < r * c) && !hit), "hostile:win", inp)
            || !ctx.check(hit || flags == m.flag, "hostile:flags", || format!("{} counted after {}", m.flag, inp()))
            || !ctx.check(m.bbbv_solved == g.solved(&m.game_board), "hostile:bbbv_solved", || format!("{} after {}", m.bbbv_solved, inp()))
        {
            return;
        }
        if m.game_board_state == GameBoardState::Ready {
            let untouched = m.game_board.iter().flatten().all(|x| *x == 10);
            if !ctx.check(untouched && m.left + m.right + m.ce + m.flag == 0, "hostile:ready", || format!("left {} right {} double {} ce {} after {}", m.left, m.right, m.double, m.ce, inp())) {
                return;
            }
        }
        ctx.ev("hostile_events", 1);
        if m.game_board != before {
            h = mix(h, hash_board(&m.game_board));
            ctx.seen(h);
        }
    }
    ctx.sample(|| format!("hostile: {} on {}", fmt_events(&log), fmt_board(&b)));
}

/// the guessable mode: the mines under hidden cells move during the game, opened cells stay true
fn moved(ctx: &mut Ctx) {
    let board = board_for(ctx);
    let (r, c) = (board.len(), board[0].len());
    let mut v = BaseVideo::<SafeBoard>::new_before_game(board.clone(), 1);
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    let mut g = Game::new(&board);
    let mut pl = Player::new(&mut ctx.rng);
    let mut log: Vec<String> = vec![fmt_board(&board)];
    let mut h = hash_board(&board);
    let often = *ctx.rng.pick(&[0.02, 0.1, 0.4]);
    for _ in 0..ctx.rng.range(20, 400) {
        if g.st == St::Playing && ctx.rng.chance(often) {
            let cells: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|p| g.gb[p.0][p.1] >= 10).collect();
            let seen = |p: &(usize, usize)| -> Vec<(usize, usize)> { neighbours(r, c, p.0, p.1).into_iter().filter(|q| g.gb[q.0][q.1] < 10).collect() };
            let mut pairs = vec![];
            for a in cells.iter().filter(|p| g.board[p.0][p.1] == -1) {
                for b in cells.iter().filter(|p| g.board[p.0][p.1] != -1) {
                    if seen(a) == seen(b) {
                        pairs.push((*a, *b));
                    }
                }
            }
            if !pairs.is_empty() {
                let (a, b) = *ctx.rng.pick(&pairs);
                let mut mines = mine_mask(&g.board);
                mines[a.0][a.1] = false;
                mines[b.0][b.1] = true;
                let nb = numbered(&mines);
                g.set_layout(&nb);
                log.push(format!("layout {}", fmt_board(&nb)));
                let Some(x) = ctx.guard("BaseVideo::set_board", || log.join(" "), || v.set_board(nb.clone())) else { return };
                if !ctx.check(x.is_ok(), "moved:refused", || log.join(" ")) {
                    return;
                }
                m.board = nb;
                ctx.ev("layouts_moved", 1);
                if a < b {
                    ctx.ev("layouts_moved_backwards", 1);
                }
            }
        }
        let (e, p) = pl.next(&mut ctx.rng, &g);
        log.push(format!("{e}@{},{}", p.0, p.1));
        let before = g.st;
        let opened = g.gb.iter().flatten().filter(|x| **x < 10).count();
        let want = g.step(e, p);
        let Some(a) = ctx.guard("BaseVideo::step", || log.join(" "), || v.step(e, p)) else { return };
        if !ctx.check(a.is_ok(), "moved:step refused", || log.join(" ")) {
            return;
        }
        let Some(a) = ctx.guard("MinesweeperBoard::step", || log.join(" "), || m.step(e, p)) else { return };
        if !ctx.check(a == Ok(want), "moved:return", || format!("step returned {a:?} instead of {want}: {}", log.join(" "))) {
            return;
        }
        let over = g.st == St::Win || g.st == St::Loss;
        for (who, x) in [("recorded", (&v.minesweeper_board.game_board, v.game_board_state, v.minesweeper_board.left, v.minesweeper_board.right, v.minesweeper_board.double, v.minesweeper_board.flag)), ("plain", (&m.game_board, m.game_board_state, m.left, m.right, m.double, m.flag))] {
            let ok = *x.0 == g.gb && x.1 == state(&g) && (x.2, x.3, x.4, x.5) == (g.left, g.right, g.double, g.flag);
            if !ctx.check(ok, &format!("moved:{who}"), || format!("board {} {:?} left, right, double, flag {:?} instead of {} {:?} {:?} after {}", fmt_board(x.0), x.1, (x.2, x.3, x.4, x.5), fmt_board(&g.gb), state(&g), (g.left, g.right, g.double, g.flag), log.join(" "))) {
                return;
            }
        }
        ctx.ev("moved_events", 1);
        if before != g.st && g.st == St::Win {
            ctx.ev("wins_after_moves", 1);
        }
        if g.gb.iter().flatten().filter(|x| **x < 10).count() != opened {
            h = mix(h, hash_board(&g.gb));
            ctx.seen(h);
        }
        if over {
            break;
        }
    }
}

/// layouts that contradict numbers already shown: nothing crashes, what is opened is the layout's,
/// and the game is never won while a shown number is wrong
fn falsified(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.range(2, 8), ctx.rng.range(2, 8));
    let n = 1 + r * c * ctx.rng.range(3, 20) / 100;
    let board = random_board(&mut ctx.rng, r, c, n);
    let mut v = BaseVideo::<SafeBoard>::new_before_game(board.clone(), 1);
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    let mut now = board.clone();
    let mut log: Vec<String> = vec![fmt_board(&board)];
    let mut h = hash_board(&board);
    let mut lied = false;
    for _ in 0..ctx.rng.range(10, 200) {
        let gb = m.game_board.clone();
        let cells: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|p| gb[p.0][p.1] >= 10).collect();
        let (a, b): (Vec<_>, Vec<_>) = cells.iter().cloned().partition(|p| now[p.0][p.1] == -1);
        if b.is_empty() {
            break;
        }
        if m.game_board_state == GameBoardState::Playing && (!lied || ctx.rng.chance(0.1)) && !a.is_empty() && (b.len() <= 3 || ctx.rng.chance(0.1)) {
            let mut mines = mine_mask(&now);
            let (x, y) = (*ctx.rng.pick(&a), *ctx.rng.pick(&b));
            mines[x.0][x.1] = false;
            mines[y.0][y.1] = true;
            now = numbered(&mines);
            log.push(format!("layout {}", fmt_board(&now)));
            let Some(x) = ctx.guard("BaseVideo::set_board", || log.join(" "), || v.set_board(now.clone())) else { return };
            if !ctx.check(x.is_ok(), "falsified:refused", || log.join(" ")) {
                return;
            }
            m.board = now.clone();
            lied = true;
            continue;
        }
        let p = *ctx.rng.pick(&b);
        if gb[p.0][p.1] != 10 {
            break;
        }
        for e in ["lc", "lr"] {
            log.push(format!("{e}@{},{}", p.0, p.1));
            let Some(x) = ctx.guard("BaseVideo::step", || log.join(" "), || v.step(e, p)) else { return };
            let Some(y) = ctx.guard("MinesweeperBoard::step", || log.join(" "), || m.step(e, p)) else { return };
            if !ctx.check(x.is_ok() && y.is_ok(), "falsified:step", || log.join(" ")) {
                return;
            }
        }
        for (who, g, st) in [("plain", &m.game_board, m.game_board_state), ("recorded", &v.minesweeper_board.game_board, v.game_board_state)] {
            let fresh = (0..r).all(|i| (0..c).all(|j| g[i][j] == gb[i][j] || g[i][j] == now[i][j]));
            let wrong = (0..r).any(|i| (0..c).any(|j| g[i][j] < 10 && g[i][j] != now[i][j]));
            let done = (0..r).all(|i| (0..c).all(|j| now[i][j] == -1 || g[i][j] < 10));
            if !ctx.check(fresh && g[p.0][p.1] == now[p.0][p.1], "falsified:opened", || format!("{who}: {} after {}", fmt_board(g), log.join(" "))) {
                return;
            }
            if !ctx.check((st == GameBoardState::Win) == (done && !wrong) && st != GameBoardState::Loss, "falsified:win", || format!("{who}: {st:?} with {} after {}", fmt_board(g), log.join(" "))) {
                return;
            }
            if done && wrong {
                ctx.ev("wins_denied_over_wrong_numbers", 1);
                h = mix(h, hash_board(g));
                ctx.seen(h);
            }
        }
        ctx.ev("falsified_clicks", 1);
        if m.game_board_state == GameBoardState::Win {
            break;
        }
    }
}

fn main() {
    engine::main(Spec {
        id: "C15",
        rule: "games of plausible and careless players plus arbitrary event sequences; non-trivial when an event changes which cells are open; distinct by board and sequence of visible boards",
        stages: vec![
            Stage { name: "games", quick: 40000, thorough: 1500000, f: games },
            Stage { name: "moved", quick: 20000, thorough: 800000, f: moved },
            Stage { name: "falsified", quick: 10000, thorough: 300000, f: falsified },
            Stage { name: "hostile", quick: 100000, thorough: 3000000, f: hostile },
        ],
        finish: None,
        assumptions: &["the user interface reports presses on the board only until the game has started; positions off the board are given as (rows, columns)"],
        must_see: &["effective_chords", "idle_chords", "preflags_withdrawn", "starts_with_preflags", "uncounted_right_presses", "wins", "losses", "wins_by_first_click", "games_after_reset", "rejected_events", "layouts_moved_backwards", "wins_after_moves", "wins_denied_over_wrong_numbers"],
    })
}
