NUM = '''
#[allow(dead_code)]
fn numbered(rows: &[&str]) -> Vec<Vec<i32>> {
    let m: Vec<Vec<bool>> = rows.iter().map(|r| r.chars().map(|c| c == '*').collect()).collect();
    let (h, w) = (m.len() as i32, m[0].len() as i32);
    (0..h).map(|i| (0..w).map(|j| {
        if m[i as usize][j as usize] { return -1; }
        let mut n = 0;
        for a in i - 1..=i + 1 { for b in j - 1..=j + 1 {
            if a >= 0 && b >= 0 && a < h && b < w && m[a as usize][b as usize] { n += 1; }
        } }
        n
    }).collect()).collect()
}
'''
seed("s01-biased-shuffle", "C01", "many calls: only the distribution of the layouts changes, each layout looks right",
 "laymine_op shuffles by swapping every position with any position, which is not uniform",
 [("utils.rs", '''    let area = row * column - areaOp;
    let mut board1_dim = vec![0; area - minenum];
    board1_dim.append(&mut vec![-1; minenum]);

    #[cfg(any(feature = "py", feature = "rs"))]
    let mut rng = thread_rng();

    #[cfg(any(feature = "py", feature = "rs"))]
    board1_dim.shuffle(&mut rng);
''', '''    let area = row * column - areaOp;
    let mut board1_dim = vec![0; area - minenum];
    board1_dim.append(&mut vec![-1; minenum]);

    #[cfg(any(feature = "py", feature = "rs"))]
    let mut rng = thread_rng();

    #[cfg(any(feature = "py", feature = "rs"))]
    for i in 0..board1_dim.len() {
        let k = rand::Rng::gen_range(&mut rng, 0..board1_dim.len());
        board1_dim.swap(i, k);
    }
''')], '''use ms_toollib::laymine_op;
fn main() {
    // 5x5, start in the corner, 10 mines in 21 cells
    let n = 400000;
    let mut count = [[0usize; 5]; 5];
    for _ in 0..n {
        let b = laymine_op(5, 5, 10, 0, 0);
        for i in 0..5 { for j in 0..5 { if b[i][j] == -1 { count[i][j] += 1; } } }
    }
    let p = 10.0 / 21.0;
    let s = (n as f64 * p * (1.0 - p)).sqrt();
    let z = (0..25).filter(|k| k / 5 > 1 || k % 5 > 1).map(|k| ((count[k / 5][k % 5] as f64 - n as f64 * p) / s).abs()).fold(0.0, f64::max);
    println!("largest deviation {z}");
    std::process::exit((z > 8.0) as i32);
}
''')

seed("s02-eight", "C02", "a board with a cell that has eight mines around it",
 "the 3BV does not count a cell with the number 8",
 [("utils.rs", '''            if board[i][j] > 0 {
                let mut flag: bool = true;
                for x in''', '''            if (1..8).contains(&board[i][j]) {
                let mut flag: bool = true;
                for x in''')], '''use ms_toollib::*;''' + NUM + '''
fn main() {
    let b = numbered(&["***..", "*.*..", "***..", ".....", "....."]);
    let v = cal_bbbv(&b);
    // by hand: the 8, one opening, and numbers that touch no empty cell
    let mut want = cal_op(&b);
    for i in 0..5usize { for j in 0..5usize { if b[i][j] > 0 {
        let mut edge = false;
        for a in i.saturating_sub(1)..(i + 2).min(5) { for c in j.saturating_sub(1)..(j + 2).min(5) { edge |= b[a][c] == 0; } }
        if !edge { want += 1; }
    } } }
    println!("{v} {want}");
    std::process::exit((v != want) as i32);
}
''')

seed("s05-last-column", "C05", "two numbers whose only common unopened cell lies in the last column",
 "segments that are connected only through the last column are torn apart, so one cell belongs to two segments",
 [("utils.rs", '''for n in max(1, max(y_t, y_e)) - 1..min(column, min(y_t + 2, y_e + 2)) {''', '''for n in max(1, max(y_t, y_e)) - 1..min(column - 1, min(y_t + 2, y_e + 2)) {''')],
 '''use ms_toollib::*;
fn main() {
    // rows 0 and 2 share only the cell in the middle of the last column
    let g = vec![vec![0, 0, 1, 10], vec![0, 0, 1, 10], vec![0, 0, 1, 10], vec![0, 0, 1, 10], vec![0, 0, 0, 0]];
    let (_, xs, bs, _, _) = refresh_matrixs(&g);
    let cells: usize = xs.iter().map(|x| x.len()).sum();
    println!("{xs:?} {bs:?}");
    std::process::exit((cells != 4 || xs.len() != 1) as i32);
}
''')

seed("s06-two-blocks", "C06", "two segments that pairs of numbers solve completely in the same call",
 "solve_minus removes finished segments in the wrong order, so it drops an unfinished one or crashes",
 [("algorithms.rs", '''    let mut remove_blocks_id = vec![];
    for b in (0..block_num).rev() {
        let mut not_mine_rel = vec![];''', '''    let mut remove_blocks_id = vec![];
    for b in 0..block_num {
        let mut not_mine_rel = vec![];''')], '''use ms_toollib::*;
fn main() {
    // the first two segments are solved by pairs, the third and the fourth are not
    let solved = vec![vec![1, 1, 0, 0], vec![0, 1, 1, 0], vec![1, 0, 0, 1]];
    let open = vec![vec![1, 1, 0, 0], vec![0, 0, 1, 1], vec![0, 1, 1, 0]];
    let cells = |r: usize, n: usize| (0..n).map(|c| (r, c)).collect::<Vec<_>>();
    let mut a = vec![solved.clone(), solved, open.clone(), open];
    let mut x = vec![cells(0, 4), cells(2, 4), cells(4, 4), cells(6, 4)];
    let mut b = vec![vec![2, 1, 1], vec![2, 1, 1], vec![1, 1, 1], vec![1, 1, 1]];
    let mut g = vec![vec![10; 4]; 7];
    let r = solve_minus(&mut a, &mut x, &mut b, &mut g);
    println!("{r:?} {x:?}");
    let left: Vec<_> = x.iter().flatten().filter(|c| c.0 >= 4).collect();
    let other: Vec<_> = x.iter().flatten().filter(|c| c.0 < 4).collect();
    std::process::exit((left.len() != 8 || !other.is_empty()) as i32);
}
''')

seed("s05-marked-safe", "C05", "a board with cells marked safe (12) next to a number that is not the first of its segment",
 "cells marked safe are subtracted from the numbers like mines",
 [("utils.rs", '''                                if !matrix_xs[p].contains(&(m, n)) {
                                    matrix_xs[p].push((m, n));
                                }
                            }
                            if board_of_game[m][n] == 11 {''', '''                                if !matrix_xs[p].contains(&(m, n)) {
                                    matrix_xs[p].push((m, n));
                                }
                            } else if board_of_game[m][n] > 10 {''')], '''use ms_toollib::*;
fn main() {
    let g = vec![vec![10, 10, 10, 10, 12], vec![1, 1, 1, 1, 1]];
    let (_, _, b, _, _) = refresh_matrixs(&g);
    println!("{b:?}");
    std::process::exit((b.iter().flatten().any(|&v| v != 1)) as i32);
}
''')

seed("s08-limit", "C08", "a segment of exactly 55 cells, the largest that the enumeration is documented to handle",
 "a segment of exactly the limit gets the average probability instead of the exact one",
 [("algorithms.rs", '''        if matrix_x_s_len > ENUM_LIMIT {
            matrix_a_s.remove(i);''', '''        if matrix_x_s_len >= ENUM_LIMIT {
            matrix_a_s.remove(i);''')], '''use ms_toollib::*;
fn main() {
    // a wall of 55 cells above a row of numbers made by mines in every third column
    let w = 55;
    let mine = |j: i32| j % 3 == 1;
    let mut g = vec![vec![10; w], vec![0; w]];
    for j in 0..w as i32 {
        g[1][j as usize] = (-1..=1).filter(|d| j + d >= 0 && j + d < w as i32 && mine(j + d)).count() as i32;
    }
    let n = (0..w as i32).filter(|j| mine(*j)).count();
    let (p, _) = cal_possibility_onboard(&g, n as f64).unwrap();
    // the end of the wall decides everything
    let bad = (0..w).any(|j| (p[0][j] - mine(j as i32) as i32 as f64).abs() > 1e-9);
    println!("{:?}", p[0]);
    std::process::exit(bad as i32);
}
''')

seed("s09-negative", "C09", "an impossible position in which marked mines exceed a number while another number of the segment is fine",
 "a number with too many mines around it is treated as a finished number, so the contradiction is not reported",
 [("algorithms.rs", '''            if bs[b][i] == 0 {
                for k in (0..matrix_column).rev() {''', '''            if bs[b][i] <= 0 {
                for k in (0..matrix_column).rev() {''')], '''use ms_toollib::*;
fn main() {
    // the 1 has two marked mines
    let mut g = vec![vec![11, 11, 10], vec![10, 1, 10], vec![10, 10, 10]];
    let r = mark_board(&mut g);
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}
''')

seed("s11-corner-filter", "C11", "a layout whose bottom right corner nearly has the filter's shape",
 "one template of the structure filter checks a wrong cell, so it rejects layouts that can be cleared without guessing",
 [("utils.rs", '''        || Board[row - 3][column - 1] == -1
            && Board[row - 3][column - 2] == -1
            && Board[row - 1][column - 1] + Board[row - 2][column - 1] == -1''', '''        || Board[row - 3][column - 1] == -1
            && Board[row - 3][column - 1] == -1
            && Board[row - 1][column - 1] + Board[row - 2][column - 1] == -1''')],
 '''use ms_toollib::*;''' + NUM + '''
fn main() {
    let b = numbered(&["........", "........", "........", "........", "........", ".......*", ".......*", "........"]);
    let c = numbered(&["........", "........", "........", "........", "........", ".......*", "........", ".......*"]);
    let f = |b: &Vec<Vec<i32>>| (unsolvable_structure(b), is_solvable(b, 0, 0));
    println!("{:?} {:?}", f(&b), f(&c));
    // opened from the top left, all numbers are visible and each mine is named by them
    std::process::exit((f(&b) != (false, true)) as i32);
}
''')

seed("s12-lost-attempts", "C12", "a number of attempts that is not a multiple of eight, most clearly one below eight",
 "the parallel generator drops the remainder when it divides the attempts among its workers",
 [("algorithms.rs", '''        let max_time = max_times / ii;
        max_times -= max_time;''', '''        let max_time = max_times / 8;
        if ii == 0 {
            max_times -= max_time;
        }''')],
 '''use ms_toollib::*;
fn main() {
    // almost every layout with two mines is solvable, so seven attempts succeed practically always
    let won = (0..60).filter(|_| laymine_solvable_thread(8, 8, 1, 3, 3, 7).1).count();
    println!("{won} of 60");
    std::process::exit((won < 30) as i32);
}
''')

seed("s13-region", "C13", "an interior cell in a region where only pairs of numbers (not single numbers) prove a safe cell",
 "the verdict on an interior cell overlooks safe cells that only pairs of numbers prove",
 [("algorithms.rs", '''                let (n, _) = solve_minus(As, xs, bs, board_of_game).unwrap();;
                if !flag_border && !n.is_empty() {
                    return 3;
                }
                flag_need = flag_need && n.is_empty();''', '''                let (n, _) = solve_minus(As, xs, bs, board_of_game).unwrap();
                flag_need = flag_need && (!flag_border || n.is_empty());''')],
 '''use ms_toollib::*;
fn main() {
    // 1 1 at the wall: the third cell is safe by the pair
    let g = vec![vec![0, 0, 0, 0, 0], vec![1, 1, 1, 1, 1], vec![10, 10, 10, 10, 10], vec![10, 10, 10, 10, 10], vec![10, 10, 10, 10, 10]];
    let mut h = g.clone();
    let v = is_guess_while_needless(&mut h, &(4, 2));
    println!("{v}");
    std::process::exit((v != 3) as i32);
}
''')

seed("s14-marked-safe", "C14", "a position with cells marked safe (12) next to an opening",
 "flooding stops at cells marked as safe",
 [("utils.rs", '''if (i != m || j != n) && (boardofGame[m][n] == 10 || boardofGame[m][n] == 12) {''', '''if (i != m || j != n) && boardofGame[m][n] == 10 {''')],
 '''use ms_toollib::*;''' + NUM + '''
fn main() {
    let b = numbered(&["....", "....", "...*"]);
    let mut g = vec![vec![10; 4]; 3];
    g[0][3] = 12;
    g[1][1] = 12;
    refresh_board(&b, &mut g, vec![(0, 0)]);
    println!("{g:?}");
    std::process::exit((g != vec![vec![0, 0, 0, 0], vec![0, 0, 1, 1], vec![0, 0, 1, 10]]) as i32);
}
''')

seed("s15-reflag", "C15", "flagging a mine, taking the flag off and flagging it again",
 "flagging the same mine again counts as another effective click",
 [("videos/minesweeper_board.rs", '''                        self.game_board[x][y] = 10;
                        self.flag -= 1;
                    }
                    _ => return Err(()),
                }
            }
            Ok(1)''', '''                        self.game_board[x][y] = 10;
                        self.flagedList.retain(|c| *c != (x, y));
                        self.flag -= 1;
                    }
                    _ => return Err(()),
                }
            }
            Ok(1)''')], '''use ms_toollib::*;''' + NUM + '''
fn main() {
    let mut b = MinesweeperBoard::<Vec<Vec<i32>>>::new(numbered(&["....", ".*..", "...*"]));
    for (e, p) in [("lc", (2, 0)), ("lr", (2, 0)), ("rc", (1, 1)), ("rr", (1, 1)), ("rc", (1, 1)), ("rr", (1, 1)), ("rc", (1, 1)), ("rr", (1, 1))] {
        b.step(e, p).unwrap();
    }
    println!("ce {} right {} flag {}", b.ce, b.right, b.flag);
    std::process::exit(((b.ce, b.right, b.flag) != (2, 3, 1)) as i32);
}
''')

LIVE = '''
use ms_toollib::*;
#[allow(dead_code)]
fn live(rows: &[&str], pix: usize, evs: &[(&str, usize, usize)]) -> BaseVideo<SafeBoard> {
    let b = numbered(rows);
    let mut v = BaseVideo::<Vec<Vec<i32>>>::new_before_game(b, pix as u8);
    for (e, x, y) in evs {
        std::thread::sleep(std::time::Duration::from_millis(12));
        v.step(e, (*x, *y)).unwrap();
    }
    v
}
'''
seed("s16-scale", "C16", "a cell size other than 16 pixels and a drag that leaves the board",
 "the path of a live game is scaled by the cell size the wrong way round",
 [("videos/base_video.rs", '''                    path += ((pos.0 as f64 - p.y as f64).powf(2.0)
                        + (pos.1 as f64 - p.x as f64).powf(2.0))
                    .powf(0.5)
                        * 16.0
                        / (self.cell_pixel_size as f64);''', '''                    path += ((pos.0 as f64 - p.y as f64).powf(2.0)
                        + (pos.1 as f64 - p.x as f64).powf(2.0))
                    .powf(0.5)
                        * 16.0f64.min(self.cell_pixel_size as f64)
                        / 16.0f64.max(self.cell_pixel_size as f64);''')] , NUM + LIVE + '''
fn main() {
    let v = live(&["....", ".*..", "...*"], 8, &[("lc", 20, 4), ("lr", 20, 4), ("mv", 20, 20), ("mv", 4, 20)]);
    println!("{}", v.get_path());
    std::process::exit(((v.get_path() - 64.0).abs() > 1e-9) as i32);
}
''')

seed("s17-truncated-ms", "C17", "an event time in milliseconds that is not exact as a float (for example 0.069 s)",
 "event times are cut to milliseconds instead of rounded when the recording is written",
 [("videos/base_video.rs", '''            let t_ms = s_to_ms(event.time);''', '''            let t_ms = (event.time * 1000.0) as u32;''')],
 NUM + LIVE + '''
fn main() {
    let v = live(&["....", ".*..", "...*"], 16, &[("lc", 40, 4), ("lr", 40, 4)]);
    let mut bad = 0;
    let mut w = v;
    for k in 0..1500 {
        let _ = w.step("mv", (k % 40, 4));
        std::thread::sleep(std::time::Duration::from_micros(1500));
    }
    let _ = w.step("lc", (20, 20));
    w.step("lr", (20, 20)).unwrap();
    w.generate_evf_v0_raw_data();
    w.save_to_evf_file("game");
    let mut e = EvfVideo::new("game.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    for (a, b) in w.video_action_state_recorder.iter().zip(&e.data.video_action_state_recorder) {
        if (a.time - b.time).abs() > 0.0005 { bad += 1; }
    }
    println!("{bad} times differ");
    std::process::exit((bad > 0) as i32);
}
''')

seed("s18-bits", "C18", "a board whose number of cells is no multiple of eight",
 "the last, partial byte of the mine bits is not shifted to the top, as the layout demands",
 [("videos/base_video.rs", '''            byte <<= 8 - ptr;
            self.raw_data.push(byte);''', '''            byte <<= (8 - ptr) % 4;
            self.raw_data.push(byte);''')], NUM + LIVE + '''
fn main() {
    // 9 cells: the last one is the top bit of the second byte
    let mut v = live(&["...", "...", "..*"], 16, &[("lc", 40, 40), ("lr", 40, 40)]);
    v.generate_evf_v0_raw_data();
    let raw = v.get_raw_data().unwrap();
    let mut at = 14;
    let mut zeros = 0;
    while zeros < 8 { if raw[at] == 0 { zeros += 1; } at += 1; }
    println!("{:08b} {:08b}", raw[at], raw[at + 1]);
    std::process::exit(((raw[at], raw[at + 1]) != (0, 128)) as i32);
}
''')

seed("s20-avf-time", "C20", "an AVF recording with an event after 255 seconds",
 "the high byte of the seconds of an AVF event is lost",
 [("videos/avf_video.rs", '''                time: ((buffer[6] as u16) << 8 | buffer[2] as u16) as f64 - 1.0
                    + (buffer[4] as f64) / 100.0,
                mouse: match''', '''                time: (buffer[6] << 7 << 1 | buffer[2]) as f64 - 1.0
                    + (buffer[4] as f64) / 100.0,
                mouse: match''')], '''use ms_toollib::*;
fn main() {
    let mut f = vec![0u8, 0, 0, 0, 0, 6, 7, 7, 0, 1, 1, 1];
    f.extend(b"[0|01.02.2020|02.02.2020|B9T301.5]");
    for (m, s, h, x, y) in [(3u8, 1u16, 10u8, 120u16, 120u16), (5, 1, 20, 120, 120), (1, 300, 40, 10, 10)] {
        f.extend([m, (x >> 8) as u8, s as u8, x as u8, h, (y >> 8) as u8, (s >> 8) as u8, y as u8]);
    }
    f.extend([0; 8]);
    f.extend(b"Skin: x\\rme\\r");
    std::fs::write("a.avf", &f).unwrap();
    let mut v = AvfVideo::new("a.avf");
    if v.parse_video().is_err() { std::process::exit(2); }
    let t = v.data.video_action_state_recorder.last().unwrap().time;
    println!("{t}");
    std::process::exit(((t - 299.4).abs() > 1e-6) as i32);
}
''')

seed("s22-end", "C22", "a recording whose last event is later than its result time (an unfinished game, or moves after the end)",
 "playback ends at the result time instead of the last event",
 [("videos/base_video.rs", '''        Ok(self.video_action_state_recorder.last().unwrap().time - self.delta_time)''', '''        Ok((self.video_action_state_recorder.last().unwrap().time - self.delta_time)
            .min(self.game_dynamic_params.rtime))''')], NUM + LIVE + '''
fn main() {
    let mut v = live(&["....", ".*..", "...*"], 16, &[("lc", 40, 4), ("lr", 40, 4), ("lc", 20, 20), ("lr", 20, 20)]);
    v.generate_evf_v0_raw_data();
    let mut raw = v.get_raw_data().unwrap();
    raw.pop();
    // a move three seconds later
    raw.extend([1, 0, 11, 184, 0, 5, 0, 5, 255]);
    std::fs::write("a.evf", &raw).unwrap();
    let mut e = EvfVideo::new("a.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    e.data.analyse();
    let e = e.data;
    let d = -e.get_video_start_time().unwrap();
    let end = e.get_video_end_time().unwrap();
    println!("{end} {d}");
    std::process::exit(((end - (3.0 - d)).abs() > 1e-6) as i32);
}
''')

seed("s03-order", "C03", "asking a position object for its probabilities before asking for its certain mines",
 "the position object forgets that it was analysed when the analysis was made for the probabilities, so the mines are listed twice",
 [("board.rs", '''        self.enum_is_mine = is_mine;
        self.is_marked = true;
''', '''        self.enum_is_mine = is_mine;
''')], '''use ms_toollib::GameBoard;
fn main() {
    let g = vec![vec![10, 1, 0], vec![1, 1, 0], vec![0, 0, 0]];
    let ask = |first: bool| {
        let mut b = GameBoard::new(1);
        b.set_game_board(&g);
        if first { b.get_poss(); }
        b.get_basic_is_mine().clone()
    };
    println!("{:?} {:?}", ask(false), ask(true));
    std::process::exit((ask(false) != ask(true)) as i32);
}
''')

seed("s04-overflow", "C04", "about one protected cell in a hundred thousand (three random masks of extreme size together)",
 "the masks of the protected board are so large that their sum can exceed 32 bits, and building or reading the board then panics",
 [("safe_board.rs", '''code + rng.gen_range(-1000_0000i32..1000_0001) * 20 - a - b;''', '''code + rng.gen_range(-9750_0000i32..9750_0001) * 20 - a - b;''')], '''use ms_toollib::SafeBoard;
fn main() {
    let b: Vec<Vec<i32>> = (0..100).map(|i| (0..100).map(|j| (i + j) % 10 - 1).collect()).collect();
    for _ in 0..1500 {
        let s = SafeBoard::new(b.clone());
        if s.into_vec_vec() != b { std::process::exit(1); }
    }
}
''')

seed("s07-stop-early", "C07", "a position where single numbers or pairs decide some cells and only enumeration decides others",
 "full deduction stops before the enumeration when the simpler steps already found a safe cell",
 [("algorithms.rs", '''    let mut ans = solve_enumerate(As, xs, bs);
    not_mine.append(&mut ans.0);
    is_mine.append(&mut ans.1);
    (not_mine, is_mine)
''', '''    if not_mine.is_empty() {
        let mut ans = solve_enumerate(As, xs, bs);
        not_mine.append(&mut ans.0);
        is_mine.append(&mut ans.1);
    }
    (not_mine, is_mine)
''')], '''use ms_toollib::*;
fn main() {
    // every cell that all layouts agree on, found by trying all layouts of the border
    let mut bad = 0;
    let mut seed = 1u64;
    let mut rnd = |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
    for _ in 0..3000 {
        let (r, c) = (4usize, 5usize);
        let mut m = vec![vec![0i32; c]; r];
        for x in m.iter_mut().flatten() { if rnd(5) == 0 { *x = -1; } }
        let b: Vec<Vec<i32>> = (0..r).map(|i| (0..c).map(|j| if m[i][j] < 0 { -1 } else {
            let mut n = 0;
            for x in 0..r { for y in 0..c { if m[x][y] < 0 && x.abs_diff(i) < 2 && y.abs_diff(j) < 2 { n += 1; } } }
            n
        }).collect()).collect();
        let mut g = vec![vec![10; c]; r];
        for i in 0..r { for j in 0..c { if b[i][j] >= 0 && rnd(2) == 0 { g[i][j] = b[i][j]; } } }
        let cells: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| g[p.0][p.1] == 10).collect();
        if cells.len() > 14 || cells.is_empty() { continue; }
        let mut mine = vec![0usize; cells.len()];
        let mut total = 0;
        for s in 0..1usize << cells.len() {
            let is = |i: i32, j: i32| cells.iter().position(|p| (p.0 as i32, p.1 as i32) == (i, j)).map_or(0, |k| (s >> k & 1) as i32);
            let ok = (0..r as i32).all(|i| (0..c as i32).all(|j| g[i as usize][j as usize] == 10 || g[i as usize][j as usize] == (-1..2).flat_map(|a| (-1..2).map(move |d| (a, d))).map(|(a, d)| is(i + a, j + d)).sum::<i32>()));
            if ok { total += 1; for k in 0..cells.len() { mine[k] += s >> k & 1; } }
        }
        let near = |p: &(usize, usize)| (0..r).any(|i| (0..c).any(|j| g[i][j] < 10 && i.abs_diff(p.0) < 2 && j.abs_diff(p.1) < 2));
        let safe = cells.iter().enumerate().filter(|(k, p)| mine[*k] == 0 && near(p)).count();
        let mines = cells.iter().enumerate().filter(|(k, p)| mine[*k] == total && near(p)).count();
        let (mut a, mut x, mut bb, _, _) = refresh_matrixs(&g);
        let (n, i) = get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut bb, &mut g);
        let set = |v: Vec<(usize, usize)>| v.into_iter().collect::<std::collections::HashSet<_>>().len();
        if (set(n), set(i)) != (safe, mines) { bad += 1; }
    }
    println!("{bad}");
    std::process::exit((bad > 0) as i32);
}
''')

seed("s10-hoist", "C10", "a cell whose row of neighbours has two unopened cells that depend on each other",
 "the probabilities are computed once per row of neighbours instead of after every neighbour that was assumed safe",
 [("algorithms.rs", '''            for n in max(1, cell[1]) - 1..min(column, cell[1] + 2) {
                if (board_of_game[m][n] < 10 && m == cell[0] && n == cell[1])''', '''            let board_of_row = board_of_game_modified.clone();
            for n in max(1, cell[1]) - 1..min(column, cell[1] + 2) {
                if (board_of_game[m][n] < 10 && m == cell[0] && n == cell[1])'''),
  ('algorithms.rs', '''                    match cal_possibility_onboard(&board_of_game_modified, minenum) {
                        Ok((ppp, _)) => p = ppp,
                        Err(_) => {
                            poss[cell_id] = 0.0;''', '''                    match cal_possibility_onboard(&board_of_row, minenum) {
                        Ok((ppp, _)) => p = ppp,
                        Err(_) => {
                            poss[cell_id] = 0.0;''')], '''use ms_toollib::cal_is_op_possibility_cells;
fn main() {
    // 2 mines in 6 unopened cells: the corner is an opening in C(2, 2) of C(6, 2) layouts
    let g = vec![vec![10, 10, 10], vec![10, 10, 10]];
    let p = cal_is_op_possibility_cells(&g, 2.0, &vec![[0, 0]]);
    println!("{p:?}");
    std::process::exit(((p[0] - 1.0 / 15.0).abs() > 1e-9) as i32);
}
''')

seed("s15-middle", "C15", "a drag with the middle button held that ends outside the board, then a press of it",
 "releasing the middle button outside the board leaves it held",
 [("videos/minesweeper_board.rs", '''                if !self.middle_hold && (pos.0 < self.row && pos.1 < self.column) {
                    return self.chording_click(pos.0, pos.1);
                }''', '''                if !self.middle_hold && (pos.0 < self.row && pos.1 < self.column) {
                    return self.chording_click(pos.0, pos.1);
                }
                self.middle_hold &= pos.0 < self.row;''')], NUM + '''use ms_toollib::*;
fn main() {
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(numbered(&["...", ".*.", "..."]));
    m.step_flow(vec![("lc", (0, 0)), ("lr", (0, 0)), ("rc", (1, 1)), ("rr", (1, 1))]).unwrap();
    // pressed outside, released over the opened number: a chord
    m.step_flow(vec![("m", (3, 3)), ("m", (0, 0))]).unwrap();
    println!("{} {}", m.double, m.bbbv_solved);
    std::process::exit((m.double != 1) as i32);
}
''')

seed("s16-drag-path", "C16", "a game in which the mouse rests on the last row of pixels of the board",
 "an event that lies exactly on the last row of pixels counts as outside for the path",
 [("videos/base_video.rs", '''                if !(p.y as usize >= self.height * self.cell_pixel_size as usize
                    || p.x as usize >= self.width * self.cell_pixel_size as usize)
                {
                    path = p.path;''', '''                if !(p.y as usize + 1 >= self.height * self.cell_pixel_size as usize
                    || p.x as usize >= self.width * self.cell_pixel_size as usize)
                    || outside_skip == 0
                {
                    path = p.path;''')], NUM + LIVE + '''
fn main() {
    let v = live(&["...", ".*.", "..."], 16, &[("lc", 4, 4), ("lr", 4, 4), ("mv", 47, 4), ("mv", 47, 24)]);
    let p = v.video_action_state_recorder.last().unwrap().path;
    println!("{p}");
    std::process::exit(((p - 63.0).abs() > 1e-9) as i32);
}
''')

seed("s18-swapped-flags", "C18", "a recording that is fair but not official (or the other way round)",
 "writer and reader agree with each other but have exchanged the bits for official and fair in the header",
 [("videos/base_video.rs", '''        if self.is_offical {
            self.raw_data[1] |= 0b0100_0000;
        }
        if self.is_fair {
            self.raw_data[1] |= 0b0010_0000;
        }''', '''        if self.is_offical {
            self.raw_data[1] |= 0b0010_0000;
        }
        if self.is_fair {
            self.raw_data[1] |= 0b0100_0000;
        }'''),
  ("videos/evf_video.rs", '''        self.data.is_offical = the_byte & 0b0100_0000 != 0;
        self.data.is_fair = the_byte & 0b0010_0000 != 0;''', '''        self.data.is_offical = the_byte & 0b0010_0000 != 0;
        self.data.is_fair = the_byte & 0b0100_0000 != 0;''')], NUM + LIVE + '''
fn main() {
    let mut v = live(&["...", ".*.", "..."], 16, &[("lc", 4, 4), ("lr", 4, 4), ("lc", 20, 20), ("lr", 20, 20)]);
    v.set_is_offical(true).unwrap();
    v.set_is_fair(false).unwrap();
    v.generate_evf_v0_raw_data();
    let raw = v.get_raw_data().unwrap();
    println!("{:08b}", raw[1]);
    std::process::exit((raw[1] & 0b0110_0000 != 0b0100_0000) as i32);
}
''')

seed("s20-rmv-outside", "C20", "an RMV recording in which the mouse leaves the board on one side only",
 "an event is only taken to be outside the board when it is both right of it and below it",
 [("videos/rmv_video.rs", '''                    if x >= self.data.width as u16 * 16 || y >= self.data.height as u16 * 16 {''', '''                    if x >= self.data.width as u16 * 16 && y >= self.data.height as u16 * 16 {''')], '''use ms_toollib::*;
fn main() {
    let mut f = b"*rmv\\x00\\x01".to_vec();
    f.extend([0; 4]);
    f.extend([0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4]);
    f.extend([0; 7]);
    f.extend([0, 0]);
    f.extend([0, 0]);
    f.extend([0; 4]);
    f.extend([4, 4, 0, 1, 2, 2]);
    f.extend([0, 0, 0, 3]);
    for (c, t, x, y) in [(3u8, 1u8, 4u16, 4u16), (1, 2, 100, 10), (1, 3, 20, 20), (2, 4, 40, 40), (3, 5, 40, 40)] {
        let (x, y) = (x + 12, y + 56);
        f.extend([c, 0, 0, t, 0, (x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8]);
    }
    f.push(15);
    std::fs::write("a.rmv", &f).unwrap();
    let mut v = RmvVideo::new("a.rmv");
    match v.parse_video() {
        Err(_) => { println!("refused"); std::process::exit(2) }
        Ok(_) => (),
    }
    let e: Vec<(u16, u16)> = v.data.video_action_state_recorder.iter().map(|e| (e.x, e.y)).collect();
    println!("{e:?}");
    std::process::exit((!e.contains(&(64, 64)) || e.contains(&(100, 10))) as i32);
}
''')

seed("s21-rmv-result", "C21", "a damaged RMV recording that states a result text of 31 bytes",
 "the length of the result text is taken for long from another limit on, and the reader panics on lengths just above it",
 [("videos/rmv_video.rs", '''        if result_string_size > 35 {
            self.data.offset += (result_string_size - 32) as usize;''', '''        if result_string_size > 30 {
            self.data.offset += (result_string_size - 32) as usize;''')], '''use ms_toollib::*;
fn main() {
    let mut bad = 0;
    for n in 0..=80u16 {
        let mut f = b"*rmv\\x00\\x01".to_vec();
        f.extend([0; 4]);
        f.extend(n.to_be_bytes());
        f.extend([b'5'; 300]);
        std::fs::write("a.rmv", &f).unwrap();
        let r = std::panic::catch_unwind(|| { let mut v = RmvVideo::new("a.rmv"); v.parse_video().is_ok() });
        if r.is_err() { println!("panic for {n}"); bad += 1; }
    }
    std::process::exit((bad > 0) as i32);
}
''')

seed("s22-tie", "C22", "a seek forward to a time at which several events happened",
 "after a forward seek to the exact time of several events the first of them is shown",
 [("videos/base_video.rs", '''                if self.video_action_state_recorder[self.current_event_id].time <= time {
                    continue;''', '''                if self.video_action_state_recorder[self.current_event_id].time < time {
                    continue;''')], NUM + LIVE + '''
fn main() {
    let mut v = live(&["....", ".*..", "...*"], 16, &[("lc", 40, 4), ("lr", 40, 4), ("lc", 20, 20), ("lr", 20, 20)]);
    v.generate_evf_v0_raw_data();
    let mut raw = v.get_raw_data().unwrap();
    raw.pop();
    for _ in 0..2 { raw.extend([1, 0, 11, 184, 0, 5, 0, 5]); }
    raw.extend([1, 0, 15, 184, 0, 5, 0, 5, 255]);
    std::fs::write("a.evf", &raw).unwrap();
    let mut e = EvfVideo::new("a.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    e.data.analyse();
    let mut e = e.data;
    let d = -e.get_video_start_time().unwrap();
    let n = e.video_action_state_recorder.len();
    e.set_current_time(3.2 - d);
    let a = e.current_event_id;
    e.set_current_event_id(0).unwrap();
    e.set_current_time(3.0 - d);
    println!("{a} {} of {n}", e.current_event_id);
    std::process::exit((a != n - 2 || e.current_event_id != n - 2) as i32);
}
''')

seed("s23-clicks", "C23", "a game with right clicks, read after the end",
 "the clicks of a finished game are added up before its right clicks are known",
 [("videos/base_video.rs", '''        self.game_dynamic_params.left = self.minesweeper_board.left;
        self.game_dynamic_params.right = self.minesweeper_board.right;
        self.game_dynamic_params.double = self.minesweeper_board.double;
        self.game_dynamic_params.flag = self.minesweeper_board.flag;
        self.game_dynamic_params.cl = self.minesweeper_board.left
            + self.game_dynamic_params.right
            + self.game_dynamic_params.double;
''', '''        self.game_dynamic_params.left = self.minesweeper_board.left;
        self.game_dynamic_params.double = self.minesweeper_board.double;
        self.game_dynamic_params.cl = self.minesweeper_board.left
            + self.game_dynamic_params.right
            + self.game_dynamic_params.double;
        self.game_dynamic_params.right = self.minesweeper_board.right;
        self.game_dynamic_params.flag = self.minesweeper_board.flag;
''')], NUM + LIVE + '''
fn main() {
    let mut v = live(&["....", ".*..", "...*"], 16, &[("lc", 40, 4), ("lr", 40, 4), ("rc", 20, 20), ("rr", 20, 20)]);
    std::thread::sleep(std::time::Duration::from_millis(30));
    v.step("lc", (20, 20)).unwrap();
    v.step("lr", (20, 20)).unwrap();
    v.step("lc", (44, 60)).unwrap();
    v.step("lr", (44, 60)).unwrap();
    let a = v.get_cl_s();
    let b = v.get_left_s() + v.get_right_s() + v.get_double_s();
    println!("{a} {b} {:?}", v.game_board_state);
    std::process::exit(((a - b).abs() > 1e-6 * b) as i32);
}
''')

seed("s24-country", "C24", "setting the country after a lost game",
 "the country can only be set after a win",
 [("videos/base_video.rs", '''    pub fn set_country(&mut self, country: Vec<u8>) -> Result<u8, ()> {
        if self.game_board_state != GameBoardState::Loss
            && self.game_board_state != GameBoardState::Win
        {''', '''    pub fn set_country(&mut self, country: Vec<u8>) -> Result<u8, ()> {
        if self.game_board_state != GameBoardState::Win {''')], NUM + LIVE + '''
fn main() {
    let mut v = live(&["....", ".*..", "...*"], 16, &[("lc", 40, 4), ("lr", 40, 4), ("lc", 20, 20), ("lr", 20, 20)]);
    let x = v.set_country(b"de".to_vec());
    println!("{:?} {x:?}", v.game_board_state);
    std::process::exit((x.is_err() || v.country != b"de") as i32);
}
''')

seed("s24-shape", "C24", "setting late a board of another shape with the same number of cells",
 "a board whose rows and columns are exchanged is accepted in place of the one the game was started with",
 [("videos/base_video.rs", '''                if self.width != board[0].len() || self.height != board.len() {''',
   '''                if self.width * self.height != board[0].len() * board.len() {''')], NUM + LIVE + '''
fn main() {
    let mut v = ms_toollib::BaseVideo::<ms_toollib::SafeBoard>::new_before_game(vec![vec![0; 6]; 4], 16);
    let wrong = v.set_board(numbered(&["....", "....", ".*..", "....", "....", "...*"]));
    let right = v.set_board(numbered(&["......", ".*....", "......", ".....*"]));
    println!("{wrong:?} {right:?}");
    std::process::exit((wrong.is_ok() || right.is_err()) as i32);
}
''')

seed("s17-resting", "C17", "mouse moves reported without a change of the position",
 "a move to where the mouse already is is not recorded",
 [("videos/base_video.rs", '''        let a = self.minesweeper_board.step(e, (x, y))?;
        self.game_board_state''', '''        let a = match (e, self.video_action_state_recorder.last()) {
            ("mv", Some(l)) if (l.y as usize, l.x as usize) == pos => return Ok(0),
            _ => self.minesweeper_board.step(e, (x, y))?,
        };
        self.game_board_state''')], NUM + LIVE + '''
fn main() {
    let mut v = live(&["....", ".*..", "...*"], 16, &[("lc", 40, 4), ("lr", 40, 4), ("mv", 40, 4), ("mv", 30, 30), ("mv", 30, 30), ("lc", 20, 20), ("lr", 20, 20)]);
    let n = v.video_action_state_recorder.len();
    v.generate_evf_v0_raw_data();
    println!("{n} of 7 events");
    std::process::exit((n != 7) as i32);
}
''')

seed("s25-same-sample", "C25", "any sample, but only its variance shows it: every single count is plausible",
 "all sixteen threads draw the same layouts, so the sample has a sixteenth of the requested size",
 [("algorithms.rs", '''    let mut rng = thread_rng();
    // let area: usize = 16 * 30 - 1;''', '''    let mut rng: rand::rngs::StdRng = rand::SeedableRng::seed_from_u64((x0 * 30 + y0) as u64);
    // let area: usize = 16 * 30 - 1;''')], '''use ms_toollib::sample_3BVs_exp;
fn main() {
    let a = sample_3BVs_exp(0, 0, 1600);
    let lumps = a.iter().all(|x| x % 16 == 0);
    println!("{lumps}");
    std::process::exit(lumps as i32);
}
''')

seed("s26-right-release", "C26", "a curved path that begins or ends with the release of the right button",
 "the review of mouse paths ignores releases of the right button",
 [("videos/analyse_methods.rs", '''            || video.video_action_state_recorder[ide].mouse == "rc"
            || video.video_action_state_recorder[ide].mouse == "rr"
        {
            let path_straight''', '''            || video.video_action_state_recorder[ide].mouse == "rc"
        {
            let path_straight''')], NUM + LIVE + '''
fn main() {
    // after releasing the right button the mouse makes a detour; the next click is near
    let mut v = live(&["......", "......", ".*....", "......", "......", ".....*"], 16, &[("lc", 90, 4), ("lr", 90, 4), ("rc", 40, 20), ("rr", 42, 22), ("mv", 90, 20), ("mv", 4, 90), ("mv", 90, 90), ("mv", 40, 30), ("lc", 40, 26), ("lr", 40, 26)]);
    for (e, y, x) in [("lc", 90, 90), ("lr", 90, 90)] { v.step(e, (y, x)).unwrap(); }
    v.generate_evf_v0_raw_data();
    std::fs::write("a.evf", v.get_raw_data().unwrap()).unwrap();
    let mut e = EvfVideo::new("a.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    e.data.analyse();
    e.data.analyse_for_features(vec!["mouse_trace"]);
    let rr = e.data.video_action_state_recorder.iter().find(|x| x.mouse == "rr").unwrap();
    let all: Vec<&str> = e.data.video_action_state_recorder.iter().map(|x| x.comments.as_str()).collect();
    println!("{all:?}");
    std::process::exit(rr.comments.is_empty() as i32);
}
''')

seed("s27-ten", "C27", "a recording with exactly ten events for each 3BV",
 "a recording with exactly ten events for each 3BV is called undecided",
 [("videos/base_video.rs", '''(self.static_params.bbbv as f64) < 10.0 {''', '''(self.static_params.bbbv as f64) <= 10.0 {''')], NUM + LIVE + '''
fn main() {
    // 3BV 2: twenty events
    let mut ev = vec![];
    for i in 0..16 { ev.push(("mv", 10 + i, 10)); }
    let mut all = vec![("lc", 100, 4), ("lr", 100, 4)];
    all.extend(ev);
    all.extend([("lc", 4, 4), ("lr", 4, 4)]);
    let mut v = live(&[".*..", "**..", "....", "....", "....", "....", "...."], 16, &all);
    v.set_checksum([1; 32]).unwrap();
    v.set_software("元3.1.7".as_bytes().to_vec()).unwrap_or(0);
    let mut c = [0u8; 32];
    c[3] = 9;
    v.set_checksum(c).unwrap();
    v.set_is_fair(true).unwrap();
    v.generate_evf_v0_raw_data();
    std::fs::write("a.evf", v.get_raw_data().unwrap()).unwrap();
    let mut e = EvfVideo::new("a.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    e.data.analyse();
    println!("{} events {:?} {}", e.data.video_action_state_recorder.len(), e.data.get_bbbv_solved(), e.data.is_valid());
    std::process::exit((e.data.is_valid() != 0) as i32);
}
''')

seed("s28-binomial", "C28", "seven cells that no number tells apart, with two or three mines among them",
 "two neighbouring entries of the table of binomial coefficients are exchanged",
 [("utils.rs", "[1, 7, 21, 35, 35, 21, 7, 1, 0],", "[1, 7, 35, 21, 35, 21, 7, 1, 0],")], '''use ms_toollib::cal_possibility_onboard;
fn main() {
    // the common neighbour of a 3 and a 1, both alone among unopened cells, 5 mines on the board
    let mut g = vec![vec![10; 5]; 5];
    g[1][1] = 3;
    g[3][3] = 1;
    let p = cal_possibility_onboard(&g, 5.0).map_err(|_| ()).unwrap().0[2][2];
    let want = 588.0 / (588.0 + 1960.0);
    println!("{p} {want}");
    std::process::exit(((p - want).abs() > 1e-9) as i32);
}
''')

seed("s29-tie", "C29", "two chords side by side that would open the same number of cells",
 "a chord is called worse than its left neighbour when both open the same number of cells",
 [("utils.rs", '''        if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 - 1)) {''', '''        if mid_num <= surround_cell_num(board_of_game, (pos.0, pos.1 - 1)) {''')], '''use ms_toollib::is_good_chording;
fn main() {
    let g = vec![vec![10, 11, 11, 10], vec![10, 2, 2, 10], vec![10, 10, 10, 10]];
    let a = is_good_chording(&g, (1, 1));
    let b = is_good_chording(&g, (1, 2));
    println!("{a} {b}");
    std::process::exit((!a || !b) as i32);
}
''')

seed("s30-wrong-flags", "C30", "a protected board seen from Python as numbers for learning, with a wrong flag beside a number",
 "the player's flags are taken for mines when probabilities of a protected board are computed in Python",
 [("/python_package/src/board.rs", "                if *x > 10 {", "                if *x > 11 {", 2)], '''import sys
import ms_toollib as ms
board = [[0, 0, 0, 0], [0, 0, 0, 0], [1, 1, 0, 0], [-1, 1, 0, 0], [1, 2, 1, 1], [0, 1, -1, 1]]
out = []
for c in (ms.MinesweeperBoard, ms.SafeMinesweeperBoard):
    g = c(board)
    for e, p in [("lc", (2, 1)), ("lr", (2, 1)), ("rc", (2, 0)), ("rr", (2, 0))]:
        g.step(e, p)
    try:
        out.append(g.get_game_board_2(2.0))
    except BaseException as e:
        out.append(repr(e))
print(out)
sys.exit(0 if out[0] == out[1] and isinstance(out[0], list) else 1)
''', "py")

seed("s31-mvf-eight", "C31", "a Clone recording of a board with a cell showing 8, its number of such cells read from Python",
 "the number of cells showing 8 of a Clone recording is that of the cells showing 7",
 [("/python_package/src/mvf_video.rs", "Ok(self.core.data.static_params.cell8)", "Ok(self.core.data.static_params.cell7)")], '''import sys
import ms_toollib as ms
open("t.mvf", "wb").write(bytes.fromhex("114db347d6fbfddf0f1a67268abbf0e1738f417728222ba6aa47bf35200a972c7a1623d2fceb6c5ab0ebfbe3378f2daa0cbed2c5af9fd744f79dd21983cdeb1994eecb5bf5ef3b64b020cc445c8aaac09a010100020000054d41090b768fc061820808000a030201020201080602030303010308080301010106506c61796572109b00000600808140c310808140873cc09010e02cd09030a434000412440401040008180462e97d7c6c68a61194"))
v = ms.MvfVideo("t.mvf")
v.parse_video()
v.analyse()
print(v.cell7, v.cell8)
sys.exit(0 if (v.cell7, v.cell8) == (0, 1) else 1)
''', "py")

seed("s31-reset-size", "C31", "a live game reset from Python to a size that is not square",
 "rows and columns are exchanged when a live game is reset from Python",
 [("/python_package/src/base_video.rs", "self.core.reset(row, column, pix_size);", "self.core.reset(column, row, pix_size);")], '''import sys
import ms_toollib as ms
v = ms.BaseVideo([[0, 0], [0, 0]], 16)
v.reset(3, 5, 16)
print(v.row, v.column)
sys.exit(0 if (v.row, v.column) == (3, 5) else 1)
''', "py")

seed("s32-sattolo", "C32", "many layouts generated by the web build: an element never stays where it is",
 "the shuffle of the web build never leaves an element where it is, so some layouts never come up",
 [("utils.rs", "let id = get_random_int(i + 1);", "let id = get_random_int(i);")], '''use iface::*;
fn main() {
    // one mine among three cells: each of them a third of the time
    let mut seen = std::collections::BTreeMap::new();
    for _ in 0..600 {
        *seen.entry(laymine_number(1, 4, 1, 0, 0)).or_insert(0) += 1;
    }
    println!("{seen:?}");
    std::process::exit((seen.len() != 3 || seen.values().any(|n| *n < 100)) as i32);
}
''', "js")

seed("s32-event-list", "C32", "an event in a list of events whose column is different from its row",
 "events given as a list to the game of the JavaScript interface happen at the mirrored position",
 [("/wasm/src/transfor.rs", '''                board__[i].get(1).unwrap().as_u64().unwrap() as usize,
                board__[i].get(2).unwrap().as_u64().unwrap() as usize,''', '''                board__[i].get(2).unwrap().as_u64().unwrap() as usize,
                board__[i].get(1).unwrap().as_u64().unwrap() as usize,''')], '''use iface::board::MinesweeperBoard;
fn main() {
    let mut g = MinesweeperBoard::new("[[0,1,1],[0,1,-1],[0,1,1]]");
    g.step_flow(r#"[["lc",1,2],["lr",1,2]]"#);
    println!("{}", g.get_game_board_state());
    std::process::exit((g.get_game_board_state() != 4) as i32);
}
''', "js")

seed("s33-fields", "C33", "the numbers of mines a position allows read by a C program",
 "two fields of a struct handed to C are exchanged with respect to its header",
 [("/c/src/lib.rs", '''    min_mine_num: usize,
    mine_num: usize,''', '''    mine_num: usize,
    min_mine_num: usize,''')], '''#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include "ms_toollib.h"
int main(void) {
    int32_t d[4][4] = {{10, 1, 10, 10}, {1, 1, 10, 10}, {10, 10, 10, 10}, {10, 10, 10, 10}};
    struct Row q[4];
    for (int i = 0; i < 4; i++) { q[i].cells = d[i]; q[i].n_column = 4; }
    struct Board e = {q, 4};
    struct BoardPossReturn s = cal_possibility_onboard(e, 4.0);
    printf("%zu %zu %zu\\n", s.min_mine_num, s.mine_num, s.max_mine_num);
    int bad = s.mine_num != 4 || s.min_mine_num > 2;
    free_board_poss(s);
    return bad;
}
''', "c")

DRAW = '''use ms_toollib::OBR_board;
// a picture of covered cells and 1s in the classic look: 30 pixels a cell, 20 of dark surround
const ONE: [&str; 10] = ["....##....", "...###....", "..####....", ".#####....", "...###....", "...###....", "...###....", "...###....", ".#######..", ".#######.."];
fn pixel(v: i32, y: usize, x: usize) -> [usize; 3] {
    if v == 10 {
        return if y + x < 15 && (y < 2 || x < 2) { [255; 3] } else if y + x > 15 && (y >= 14 || x >= 14) { [128; 3] } else { [192; 3] };
    }
    if y == 0 || x == 0 {
        return [128; 3];
    }
    if v == 1 && (3..13).contains(&y) && (3..13).contains(&x) && ONE[y - 3].as_bytes()[x - 3] == b'#' { [0, 0, 255] } else { [192; 3] }
}
fn read(b: &Vec<Vec<i32>>, alpha: usize) -> Vec<Vec<i32>> {
    let (h, w) = (b.len() * 30 + 40, b[0].len() * 30 + 40);
    let mut d = vec![];
    for i in 0..h {
        for j in 0..w {
            let c = if i < 20 || j < 20 || i >= h - 20 || j >= w - 20 { [20; 3] } else { pixel(b[(i - 20) / 30][(j - 20) / 30], (i - 20) % 30 * 16 / 30, (j - 20) % 30 * 16 / 30) };
            d.extend([c[2], c[1], c[0], alpha]);
        }
    }
    let r = OBR_board(d, h, w).unwrap();
    println!("{r:?}");
    r
}
fn main() {
    std::env::set_current_dir(std::env::var("OBR_PARAMS").unwrap()).unwrap();
'''

seed("s34-alpha", "C34", "a picture without opacity, as some programs capture the screen",
 "pixels without opacity are taken for black",
 [("OBR.rs", '''d[k][i][j] = data_vec[(i * width + j) * 4 + c[k]] as f32 / 255.0;''', '''let p = (i * width + j) * 4;
                    d[k][i][j] = data_vec[p + c[k]].min(data_vec[p + 3] * 255) as f32 / 255.0;''')], DRAW + '''    let mut b = vec![vec![10; 12]; 12];
    for (x, y) in [(3, 4), (5, 8), (7, 2), (9, 9)] {
        b[x][y] = 1;
    }
    let a = std::panic::catch_unwind(|| read(&b, 0)).ok();
    std::process::exit((read(&b, 255) != b || a != Some(b)) as i32);
}
''')

seed("s34-last-column", "C34", "a picture with a number whose only covered neighbours are in the last column",
 "covered cells of the last column do not count for what a number can be when a reading is repaired",
 [("utils.rs", '''                    for j in max(1, y) - 1..min(column, y + 2) {
                        if board[i][j] == 10 || board[i][j] == 11 {
                            // 局面''', '''                    for j in max(1, y) - 1..min(column - 1, y + 2) {
                        if board[i][j] == 10 || board[i][j] == 11 {
                            // 局面''')], DRAW + '''    let mut b = vec![vec![0; 12]; 12];
    for (i, l) in b.iter_mut().enumerate() {
        l[10] = if i > 0 { 1 } else { 0 };
        l[11] = if i > 0 { 10 } else { 0 };
    }
    b[1][11] = 1;
    b[0][0] = 10;
    b[0][1] = 1;
    b[1][0] = 1;
    b[1][1] = 1;
    std::process::exit((read(&b, 255) != b) as i32);
}
''')

CHECKED = NUM + '''
// every statement of the solver about the unopened cells of `game` must be true of `board`
#[allow(dead_code)]
fn wrong(board: &Vec<Vec<i32>>, safe: &[(usize, usize)], mines: &[(usize, usize)]) -> bool {
    safe.iter().any(|p| board[p.0][p.1] == -1) || mines.iter().any(|p| board[p.0][p.1] != -1)
}
'''

seed("s07-limit", "C07", "one border segment of exactly 55 cells",
 "a border segment of exactly the documented limit is not enumerated",
 [("algorithms.rs", '''        if xs[i].len() > ENUM_LIMIT {
            return''', '''        if xs[i].len() >= ENUM_LIMIT {
            return''')], '''use ms_toollib::*;
fn main() {
    // a wall of 55 cells above a row of numbers: mines 0 1 1 0 1 1 0 ...
    let n = 55usize;
    let mine: Vec<i32> = (0..n).map(|j| (j % 3 != 0) as i32).collect();
    let row: Vec<i32> = (0..n).map(|j| (j.saturating_sub(1)..(j + 2).min(n)).map(|k| mine[k]).sum()).collect();
    let g = vec![vec![10; n], row, vec![0; n]];
    let (a, x, b, _, _) = refresh_matrixs(&g);
    let (s, m) = solve_enumerate(&a, &x, &b);
    println!("{} cells: {} safe, {} mines", x[0].len(), s.len(), m.len());
    std::process::exit((s.len() + m.len() != n) as i32);
}
''')

seed("s11-square", "C11", "the square template away from the border",
 "the structure filter never finds the square of four cells between four mines",
 [("utils.rs", '''                    && Board[i + 1][j + 1] + Board[i + 1][j + 2] == -1
                    && Board[i + 2][j + 1] + Board[i + 2][j + 2] == -1''', '''                    && Board[i + 1][j + 1] + Board[i + 2][j + 2] == -1
                    && Board[i + 1][j + 2] + Board[i + 2][j + 2] == -1''')], NUM + '''
fn main() {
    let b = numbered(&["........", "........", "..*..*..", "...*....", "....*...", "..*..*..", "........", "........"]);
    let u = ms_toollib::unsolvable_structure(&b);
    println!("{u}");
    std::process::exit(!u as i32);
}
''')

seed("s12-attempts", "C12", "several threads laying a board: each gives up too early, which only the rate of success shows",
 "the threads together make a third of the attempts that were allowed",
 [("algorithms.rs", '''        let max_time = max_times / ii;
        max_times -= max_time;
''', '''        let max_time = max_times / 9;
        max_times -= max_time * (ii == 9) as usize;
''')], '''use ms_toollib::*;
fn main() {
    let (n, t) = (600, 16);
    let a = (0..n).filter(|_| laymine_solvable_thread(8, 8, 18, 4, 3, t).1).count();
    let b = (0..n).filter(|_| laymine_solvable(8, 8, 18, 4, 3, t).1).count();
    println!("{a} and {b} of {n}");
    let s = (n as f64 / 2.0).sqrt();
    std::process::exit(((a as f64 - b as f64).abs() > 6.0 * s) as i32);
}
''')

seed("s11-enclosed", "C11", "a mine at the edge with mines on all sides",
 "a mine at the edge enclosed by mines is taken for a cell that has to be guessed",
 [("utils.rs", '''                && Board[i + 1][1] == -1
                && Board[i + 2][1] == -1
                && Board[i + 2][0] == -1
                && Board[i + 1][0] == 0
''', '''                && Board[i + 1][1] == -1
                && Board[i + 2][1] == -1
                && Board[i + 2][0] == -1
''')], NUM + '''
use ms_toollib::is_solvable;
fn main() {
    let b = numbered(&["........", "........", "........", "**......", "**......", "**......", "........", "........", "........"]);
    std::process::exit(!is_solvable(&b, 4, 6) as i32);
}
''')

seed("s13-forgotten", "C13", "a guess while a single number proves a safe cell of the same region and no two numbers do",
 "a safe cell that a single number proves is forgotten when pairs of numbers are compared",
 [("algorithms.rs", '''                flag_need = flag_need && n.is_empty();
                match board_of_game[xy.0][xy.1] {''', '''                flag_need = n.is_empty();
                match board_of_game[xy.0][xy.1] {''')], '''use ms_toollib::*;
fn main() {
    // the number 1 of the second row is satisfied by the cell that must be a mine; the end cells are undecided
    let mut bad = 0;
    for k in 0..3000 {
        let board = laymine_op(6, 7, 6 + k % 6, 3, 3);
        let mut g = vec![vec![10; 7]; 6];
        refresh_board(&board, &mut g, vec![(3, 3)]);
        let (mut a, mut x, mut b, _, _) = refresh_matrixs(&g);
        let one = x.len() == 1;
        let mut h = g.clone();
        let (safe, _) = solve_direct(&mut a, &mut x, &mut b, &mut h).unwrap();
        if !one || safe.is_empty() { continue; }
        for i in 0..6 { for j in 0..7 {
            // an undecided cell of the border
            let border = (i.max(1) - 1..(i + 2).min(6)).any(|m| (j.max(1) - 1..(j + 2).min(7)).any(|n| g[m][n] < 10));
            if h[i][j] == 10 && border && is_guess_while_needless(&mut g.clone(), &(i, j)) == 2 { bad += 1; }
        } }
    }
    println!("{bad} guesses called necessary although a safe cell is known");
    std::process::exit((bad > 0) as i32);
}
''')

seed("s14-after-mine", "C14", "revealing several cells at once, one of which is a mine",
 "the cells that are still to be revealed stay closed once one of them is a mine",
 [("utils.rs", '''            boardofGame[i][j] = 15; // 标红雷，此处是雷，且踩到了
            loss_flag = true;
''', '''            boardofGame[i][j] = 15; // 标红雷，此处是雷，且踩到了
            loss_flag = true;
            clicked_poses.clear();
''')], NUM + '''
use ms_toollib::refresh_board;
fn main() {
    let b = numbered(&["..*", "...", "*.."]);
    let mut g = vec![vec![10; 3]; 3];
    refresh_board(&b, &mut g, vec![(0, 1), (0, 2)]);
    println!("{g:?}");
    std::process::exit((g[0][1] != 1 || g[0][2] != 15) as i32);
}
''')

seed("s09-marks", "C09", "more marks on the board than mines in the game",
 "a position with more marks than mines is answered as if no mine were left",
 [("algorithms.rs", '''            true => return Err(17),''', '''            true => 0,''')], '''use ms_toollib::*;
fn main() {
    let g = vec![vec![11, 2, 10, 10], vec![11, 2, 10, 10], vec![1, 1, 10, 10]];
    let r = cal_possibility(&g, 1.0);
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}
''')

MVF = '''
use ms_toollib::*;
fn bits(leading: usize) -> Vec<usize> {
    const M: f64 = 100000000.0;
    let n1 = (leading as f64).sqrt();
    let n2 = (leading as f64 + 1000.0).sqrt();
    let n3 = (n1 + 1000.0).sqrt();
    let s: String = [(n3 + 1000.0).cos(), n2.sqrt().sin(), n3.cos(), (n1.sqrt() + 1000.0).sin(), (n2 + 1000.0).sqrt().cos()]
        .iter().map(|x| format!("{:08}", (x * M).abs().round() as usize).chars().take(8).collect::<String>()).collect();
    ('0'..='9').flat_map(|d| s.chars().enumerate().filter(move |x| x.1 == d).map(|x| x.0).collect::<Vec<_>>()).collect()
}
// samples: left, right, middle, milliseconds, y, x
fn mvf(board: &Vec<Vec<i32>>, samples: &[(bool, bool, bool, usize, usize, usize)]) -> Vec<u8> {
    let mut o = vec![0x11, 0x4d];
    o.extend([7u8; 25]);
    o.push(b'5');
    o.extend([9u8; 46]);
    o.extend([1u8; 7]);
    o.extend([4, 3, 0, 5, 0, 0, 3]);
    o.extend([0u8; 9]);
    o.extend([board[0].len() as u8, board.len() as u8]);
    let m: Vec<(usize, usize)> = (0..board.len()).flat_map(|i| (0..board[0].len()).map(move |j| (i, j))).filter(|p| board[p.0][p.1] == -1).collect();
    o.extend([0, m.len() as u8]);
    for (i, j) in m { o.extend([j as u8 + 1, i as u8 + 1]); }
    o.extend([1, b'x', 0x12, 0x34, 0, 0, samples.len() as u8]);
    let map = bits(0x1234);
    for (l, r, m, t, y, x) in samples {
        let (sec, hun) = (t / 1000, t % 1000 / 10);
        let mut w = [false; 40];
        w[0] = *r; w[1] = *m; w[2] = *l;
        for k in 0..9 { w[3 + k] = y >> k & 1 == 1; w[12 + k] = x >> k & 1 == 1; }
        for k in 0..7 { w[21 + k] = hun >> k & 1 == 1; }
        for k in 0..10 { w[28 + k] = sec >> k & 1 == 1; }
        let mut e = [0u8; 5];
        for k in 0..40 { if w[k] { e[map[k] / 8] |= 1 << (map[k] % 8); } }
        o.extend(e);
    }
    o
}
'''

seed("s20-mvf-move", "C20", "an MVF recording where the mouse moves and a button changes in the same sample",
 "a move of the mouse is dropped when a button changes in the same sample",
 [("videos/mvf_video.rs", '''        if x != prev_x || y != prev_y {
            evs''', '''        if (x != prev_x || y != prev_y) && lb == prev_lb && rb == prev_rb {
            evs''')], NUM + MVF + '''
fn main() {
    let b = numbered(&["....", ".*..", "...*"]);
    std::fs::write("a.mvf", mvf(&b, &[(false, false, false, 0, 4, 4), (true, false, false, 100, 4, 40), (false, false, false, 200, 4, 40), (false, false, false, 300, 9, 40)])).unwrap();
    let mut v = MvfVideo::new("a.mvf");
    if v.parse_video().is_err() { std::process::exit(2); }
    let e: Vec<String> = v.data.video_action_state_recorder.iter().map(|e| e.mouse.clone()).collect();
    println!("{e:?}");
    std::process::exit((e != ["mv", "mv", "lc", "lr", "mv"]) as i32);
}
''')

seed("s21-width", "C21", "an AVF recording of a board 256 cells wide",
 "the width of an AVF recording is counted in a byte, which overflows for 256",
 [("videos/avf_video.rs", '''self.data.width = self.data.get_u8()? as usize + 1;''', '''self.data.width = (self.data.get_u8()? + 1) as usize;''')], '''use ms_toollib::*;
fn main() {
    let mut f = vec![0u8, 0, 0, 0, 0, 6, 255, 7, 0, 1, 1, 1];
    f.extend(b"[0|01.02.2020|02.02.2020|B9T301.5]");
    for (m, s, h, x, y) in [(3u8, 1u16, 10u8, 120u16, 120u16), (5, 1, 20, 120, 120)] {
        f.extend([m, (x >> 8) as u8, s as u8, x as u8, h, (y >> 8) as u8, (s >> 8) as u8, y as u8]);
    }
    f.extend([0; 8]);
    f.extend(b"Skin: x\\rme\\r");
    std::fs::write("a.avf", &f).unwrap();
    let mut v = AvfVideo::new("a.avf");
    let r = v.parse_video().is_ok();
    println!("{r} {}", v.data.width);
    std::process::exit((!r || v.data.width != 256) as i32);
}
''')

seed("s22-outside", "C22", "the mouse exactly at the right border of the board during playback",
 "a position exactly at the right border counts as inside",
 [("videos/base_video.rs", '''            if self.video_action_state_recorder[self.current_event_id - k].x
                < self''', '''            if self.video_action_state_recorder[self.current_event_id - k].x
                <= self''')], NUM + LIVE + '''
fn main() {
    let mut v = live(&["....", ".*..", "...*"], 16, &[("lc", 40, 4), ("lr", 40, 4), ("mv", 4, 64), ("lc", 20, 20), ("lr", 20, 20)]);
    v.generate_evf_v0_raw_data();
    std::fs::write("a.evf", v.get_raw_data().unwrap()).unwrap();
    let mut e = EvfVideo::new("a.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    e.data.analyse();
    let mut e = e.data;
    let k = e.video_action_state_recorder.iter().position(|x| x.x == 64).unwrap();
    e.set_current_event_id(k).unwrap();
    println!("{:?}", e.get_x_y());
    std::process::exit((e.get_x_y() != Ok((4, 40))) as i32);
}
''')

seed("s26-spot", "C26", "flags after a chord, in a fluent run that ends with a bad step",
 "flags placed before the last chord are taken off the number of steps of a fluent run",
 [("videos/analyse_methods.rs", '''                    SuperFLState::StartNotOk | SuperFLState::IsOk => {
                        counter += 1;
                        last_rc_num = 0;
''', '''                    SuperFLState::StartNotOk | SuperFLState::IsOk => {
                        counter += 1;
''')], NUM + LIVE + '''
fn main() {
    // flag and chord three times; then a left click elsewhere
    let mut rows = vec![String::new(); 3];
    for j in 0..18 {
        rows[0].push(if [2, 5, 8, 11, 14].contains(&j) { '*' } else { '.' });
        rows[1].push('.');
        rows[2].push('.');
    }
    let rows: Vec<&str> = rows.iter().map(|x| x.as_str()).collect();
    let c = |x: usize, y: usize| (x * 16 + 5, y * 16 + 5);
    let mut ev = vec![("lc", c(2, 0)), ("lr", c(2, 0))];
    for j in [2usize, 5, 8] {
        ev.push(("rc", c(0, j)));
        ev.push(("rr", c(0, j)));
        ev.push(("lc", c(1, j + 1)));
        ev.push(("rc", c(1, j + 1)));
        ev.push(("rr", c(1, j + 1)));
        ev.push(("lr", c(1, j + 1)));
    }
    ev.push(("lc", c(0, 12)));
    ev.push(("lr", c(0, 12)));
    for y in 0..18 { for x in 0..3 { if ![2, 5, 8, 11, 14].contains(&y) || x > 0 { ev.push(("lc", c(x, y))); ev.push(("lr", c(x, y))); } } }
    let ev: Vec<(&str, usize, usize)> = ev.into_iter().map(|e| (e.0, e.1 .0, e.1 .1)).collect();
    let mut v = live(&rows, 16, &ev);
    v.generate_evf_v0_raw_data();
    std::fs::write("a.evf", v.get_raw_data().unwrap()).unwrap();
    let mut e = EvfVideo::new("a.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    e.data.analyse();
    e.data.analyse_for_features(vec!["super_fl_local"]);
    let t: Vec<String> = e.data.video_action_state_recorder.iter().map(|e| e.comments.clone()).filter(|c| !c.is_empty()).collect();
    println!("{t:?}");
    std::process::exit(!(t.len() == 1 && t[0].contains("6")) as i32);
}
''')

seed("s27-checksum", "C27", "a recording whose checksum repeats one byte other than zero",
 "a checksum of one repeated byte is accepted unless the byte is zero",
 [("videos/base_video.rs", '''self.checksum.iter().all(|&e| e == self.checksum[0])''', '''self.checksum.iter().all(|&e| e == 0)''')], NUM + LIVE + '''
fn main() {
    let mut all = vec![("lc", 100, 4), ("lr", 100, 4)];
    for i in 0..26 { all.push(("mv", 10 + i, 10)); }
    all.extend([("lc", 4, 4), ("lr", 4, 4)]);
    let mut v = live(&[".*..", "**..", "....", "....", "....", "....", "...."], 16, &all);
    v.set_software("元3.1.7".as_bytes().to_vec()).unwrap_or(0);
    v.generate_evf_v0_raw_data();
    v.set_checksum([5; 32]).unwrap();
    std::fs::write("a.evf", v.get_raw_data().unwrap()).unwrap();
    let mut e = EvfVideo::new("a.evf");
    e.parse_video().map_err(|_| ()).unwrap();
    e.data.is_fair = true;
    e.data.analyse();
    println!("{} events {}", e.data.video_action_state_recorder.len(), e.data.is_valid());
    std::process::exit((e.data.is_valid() != 1) as i32);
}
''')
