//! The C interface inside a process whose allocator checks that memory is given back as it was obtained.
use oracle::{ToV, V};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

#[allow(dead_code, unused)]
#[path = "/repo/c/src/lib.rs"]
mod interface;
use interface::*;

struct Checked;
static LIVE: AtomicI64 = AtomicI64::new(0);
/// 1 while the interface runs: only what it obtains is counted
static INSIDE: AtomicUsize = AtomicUsize::new(0);
static WRONG: AtomicUsize = AtomicUsize::new(0);
const MAGIC: usize = 0x5afe_b10c_5afe_b10c;
const DEAD: usize = 0xdead_b10c_dead_b10c;

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pre = l.align().max(32);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pre, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let q = p.add(pre);
        let h = q.sub(32) as *mut usize;
        *h = MAGIC;
        *h.add(1) = l.size();
        *h.add(2) = l.align();
        let mine = INSIDE.load(Relaxed);
        *h.add(3) = mine;
        LIVE.fetch_add((mine * l.size()) as i64, Relaxed);
        // what is handed out holds nothing by chance
        q.write_bytes(0xa5, l.size());
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = q.sub(32) as *mut usize;
        if *h != MAGIC {
            // not a block, or given back before
            WRONG.fetch_add(1, Relaxed);
            return;
        }
        let (size, align) = (*h.add(1), *h.add(2));
        if (size, align) != (l.size(), l.align()) {
            WRONG.fetch_add(1, Relaxed);
        }
        *h = DEAD;
        LIVE.fetch_sub((*h.add(3) * size) as i64, Relaxed);
        q.write_bytes(0x5a, size);
        let pre = align.max(32);
        System.dealloc(q.sub(pre), Layout::from_size_align_unchecked(size + pre, align.max(16)));
    }
}
#[global_allocator]
static A: Checked = Checked;

// the same shapes as in ms_toollib.h
#[repr(C)]
#[derive(Clone, Copy)]
struct RowC {
    cells: *mut i32,
    n_column: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct BoardC {
    rows: *mut RowC,
    n_row: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RowPossC {
    cells: *mut f64,
    n_column: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct PossC {
    rows: *mut RowPossC,
    n_row: usize,
    mines: [usize; 3],
}
enum Held {
    Board(BoardC),
    Poss(PossC),
}
unsafe fn show(h: &Held) -> V {
    match h {
        Held::Board(b) => V::L((0..b.n_row).map(|i| { let r = &*b.rows.add(i); V::L((0..r.n_column).map(|j| (*r.cells.add(j)).v()).collect()) }).collect()),
        Held::Poss(p) => V::T(vec![V::L((0..p.n_row).map(|i| { let r = &*p.rows.add(i); V::L((0..r.n_column).map(|j| (*r.cells.add(j)).v()).collect()) }).collect()), p.mines.v()]),
    }
}
/// lends a board to the interface
fn lend<T>(v: &V, f: impl FnOnce(BoardC) -> T) -> T {
    let mut b = v.board();
    let mut rows: Vec<RowC> = b.iter_mut().map(|r| RowC { cells: r.as_mut_ptr(), n_column: r.len() }).collect();
    let t = f(BoardC { rows: rows.as_mut_ptr(), n_row: rows.len() });
    drop(rows);
    t
}

fn inside<T>(f: impl FnOnce() -> T) -> T {
    INSIDE.store(1, Relaxed);
    let t = f();
    INSIDE.store(0, Relaxed);
    t
}

unsafe fn one(held: &mut HashMap<usize, Held>, c: &V) -> V {
    let c = c.list();
    let (op, name) = (c[0].str(), c.get(1).map(|x| x.str()).unwrap_or(""));
    let a = c.get(2..).unwrap_or(&[]);
    match (op, name) {
        ("x", _) => {
            held.clear();
            V::N
        }
        ("f", "cal3BV") => lend(&a[0], |b| inside(|| cal3BV(std::mem::transmute::<BoardC, Board>(b)))).v(),
        ("f", "laymine") => {
            let (r, c, n, x, y) = (a[1].us(), a[2].us(), a[3].us(), a[4].us(), a[5].us());
            let b = std::mem::transmute::<Board, BoardC>(inside(|| laymine(r, c, n, x, y)));
            held.insert(a[0].us(), Held::Board(b));
            show(&held[&a[0].us()])
        }
        ("f", "cal_possibility_onboard") => {
            let p = lend(&a[1], |b| std::mem::transmute::<BoardPossReturn, PossC>(inside(|| cal_possibility_onboard(std::mem::transmute::<BoardC, Board>(b), a[2].num()))));
            held.insert(a[0].us(), Held::Poss(p));
            show(&held[&a[0].us()])
        }
        ("f", "show") => show(&held[&a[0].us()]),
        ("f", "free") => {
            match held.remove(&a[0].us()).unwrap() {
                Held::Board(b) => free_board(std::mem::transmute::<BoardC, Board>(b)),
                Held::Poss(p) => free_board_poss(std::mem::transmute::<PossC, BoardPossReturn>(p)),
            }
            V::N
        }
        // bytes the interface still holds, blocks given back wrongly
        ("f", "balance") => (LIVE.load(Relaxed), WRONG.swap(0, Relaxed)).v(),
        _ => V::E(format!("no {op} {name}")),
    }
}

fn main() {
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = out.write_all(b"ready\n").and_then(|_| out.flush());
    let mut held = HashMap::with_capacity(64);
    // the generator of random numbers stays
    unsafe { free_board(laymine(8, 8, 10, 0, 0)) };
    WRONG.store(0, Relaxed);
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let cmds = V::parse(&line).expect("a list of commands");
        let ans: Vec<V> = cmds.list().iter().map(|c| unsafe { one(&mut held, c) }).collect();
        let mut t = V::L(ans).text();
        t.push('\n');
        if out.write_all(t.as_bytes()).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
