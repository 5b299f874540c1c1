//! Drives the library's video objects: live recordings and parsed files.
pub mod files;
pub mod mirror;
pub mod picture;
pub mod remote;
use ms_toollib::{BaseVideo, GameBoardState, MouseState, SafeBoard};
use oracle::game::*;
use oracle::video::*;
use oracle::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

pub type Parsed = BaseVideo<Vec<Vec<i32>>>;
pub type Live = BaseVideo<SafeBoard>;

static N: AtomicUsize = AtomicUsize::new(0);
/// A scratch file that is removed when dropped.
pub struct Scratch(pub String);
impl Scratch {
    pub fn new(ext: &str) -> Scratch {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".to_string() } else { std::env::temp_dir().to_string_lossy().into_owned() };
        Scratch(format!("{base}/msv-{}-{}{ext}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)))
    }
    pub fn with(ext: &str, data: &[u8]) -> Scratch {
        let s = Scratch::new(ext);
        std::fs::write(&s.0, data).expect("scratch file");
        s
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let p = std::path::Path::new(&self.0);
        if p.is_dir() {
            let _ = std::fs::remove_dir_all(p);
        } else {
            let _ = std::fs::remove_file(p);
        }
    }
}

pub fn mouse_no(m: MouseState) -> usize {
    match m {
        MouseState::UpUp => 1,
        MouseState::UpDown => 2,
        MouseState::UpDownNotFlag => 3,
        MouseState::DownUp => 4,
        MouseState::Chording => 5,
        MouseState::ChordingNotFlag => 6,
        MouseState::DownUpAfterChording => 7,
        MouseState::Undefined => 8,
    }
}
pub fn state_of(st: St) -> GameBoardState {
    match st {
        St::Ready => GameBoardState::Ready,
        St::Pre => GameBoardState::PreFlaging,
        St::Playing => GameBoardState::Playing,
        St::Win => GameBoardState::Win,
        St::Loss => GameBoardState::Loss,
    }
}

/// `n` milliseconds pass in the life of a live game (or fewer on a machine that just started)
pub fn pass(v: &mut Live, ms: u64) {
    if let Some(t) = v.video_start_instant.checked_sub(Duration::from_millis(ms)) {
        v.video_start_instant = t;
    }
}

pub fn player(rng: &mut Rng) -> Player {
    let mut p = Player::new(rng);
    p.alias = false;
    p
}

/// Plays a stream on a live game; false when the library refuses or crashes.
pub fn play(ctx: &mut Ctx, v: &mut Live, evs: &[Ev]) -> bool {
    let mut t = 0;
    for e in evs {
        if e.t > t {
            pass(v, (e.t - t) as u64);
        }
        t = e.t;
        let Some(x) = ctx.guard("BaseVideo::step", || fmt_evs(evs), || v.step(e.e, (e.y, e.x))) else { return false };
        if !ctx.check(x.is_ok(), "step refused", || fmt_evs(evs)) {
            return false;
        }
    }
    true
}

pub fn fmt_evs(evs: &[Ev]) -> String {
    let k = evs.len().saturating_sub(40);
    evs[k..].iter().map(|e| format!("{}@{}ms({},{})", e.e, e.t, e.y, e.x)).collect::<Vec<_>>().join(" ")
}

/// Compares an analysed recording with the rules; returns a text when they differ.
pub fn differs(v: &Parsed, rp: &Replay, evs: &[Ev]) -> Option<String> {
    let rec = &v.video_action_state_recorder;
    if rec.len() != evs.len() {
        return Some(format!("{} events instead of {}", rec.len(), evs.len()));
    }
    let base = rp.start.map(|s| rec[s].path).unwrap_or(0.0);
    let mut over = false;
    for (k, ((a, w), e)) in rec.iter().zip(&rp.snaps).zip(evs).enumerate() {
        let m = &a.key_dynamic_params;
        if a.mouse != e.e || (a.y as usize, a.x as usize) != (e.y, e.x) {
            return Some(format!("event {k} is {} ({},{}) instead of {} ({},{})", a.mouse, a.y, a.x, e.e, e.y, e.x));
        }
        let got = (a.useful_level, a.prior_game_board_id, a.next_game_board_id, m.left, m.right, m.double, m.ce, m.flag, m.bbbv_solved);
        let exp = (w.level, w.prior, w.next, w.left, w.right, w.double, w.ce, w.flag, w.bbbv);
        if got != exp {
            return Some(format!("event {k} {} ({},{}): (level, boards, left, right, double, ce, flag, 3bv) = {got:?} instead of {exp:?}", e.e, e.y, e.x));
        }
        over |= w.st == St::Win || w.st == St::Loss;
        if !over && mouse_no(a.mouse_state) != w.mouse {
            return Some(format!("event {k} {}: mouse {:?} instead of {}", e.e, a.mouse_state, w.mouse));
        }
        let started = rp.start.map(|s| k >= s).unwrap_or(false);
        let p = if started { a.path - base } else { a.path };
        if (p - w.path).abs() > 1e-6 * (1.0 + w.path) {
            return Some(format!("event {k} {}: path {} from the start on instead of {}", e.e, p, w.path));
        }
    }
    if v.game_board_stream.len() < rp.boards.len() {
        return Some(format!("{} boards instead of {}", v.game_board_stream.len(), rp.boards.len()));
    }
    for (k, w) in rp.boards.iter().enumerate() {
        if v.game_board_stream[k].game_board != *w {
            return Some(format!("board {k} is {} instead of {}", fmt_board(&v.game_board_stream[k].game_board), fmt_board(w)));
        }
    }
    None
}

/// A synthetic recording parsed (as EVF) and analysed, with what the rules say about it.
pub fn parsed(ctx: &mut Ctx, board: &B, pix: usize, evs: &[Ev], rtime: usize) -> Option<(Parsed, Replay)> {
    let rp = replay(board, pix, evs);
    let f = Evf { completed: rp.game.st == St::Win, official: true, fair: true, mines: mine_count(board), pix, mode: 0, bbbv: bbbv(board), rtime, text: Default::default(), board: board.clone(), evs: evs.to_vec(), sum: None };
    let file = Scratch::with(".evf", &encode_evf(&f));
    let mut v = ms_toollib::EvfVideo::new(&file.0);
    let inp = || format!("{} on {}", fmt_evs(evs), fmt_board(board));
    let x = ctx.guard("EvfVideo::parse_video", inp, || v.parse_video())?;
    if !ctx.check(x.is_ok(), "file refused", inp) {
        return None;
    }
    let mut v = v.data;
    ctx.guard("analyse", inp, || v.analyse())?;
    if let Some(d) = differs(&v, &rp, evs) {
        ctx.fail("analysed", format!("{d}: {}", inp()));
        return None;
    }
    Some((v, rp))
}
