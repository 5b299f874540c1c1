//! Pictures of boards in the classic look.
use crate::*;

const DIGITS: [[&str; 10]; 8] = [
    ["....##....", "...###....", "..####....", ".#####....", "...###....", "...###....", "...###....", "...###....", ".#######..", ".#######.."],
    [".########.", "##########", "###...####", ".......###", ".....####.", "...#####..", ".#####....", "####......", "##########", "##########"],
    ["#########.", "##########", ".......###", ".......###", "...######.", "...######.", ".......###", ".......###", "##########", "#########."],
    ["..###.###.", "..###.###.", ".###..###.", ".###..###.", "##########", "##########", "......###.", "......###.", "......###.", "......###."],
    ["##########", "##########", "###.......", "###.......", "#########.", "##########", ".......###", ".......###", "##########", "#########."],
    ["..#######.", ".########.", ".###......", ".###......", ".########.", ".#########", ".###...###", ".###...###", ".#########", "..#######."],
    ["##########", "##########", ".......###", ".......###", "......###.", "......###.", ".....###..", ".....###..", "....###...", "....###..."],
    [".########.", "##########", "###....###", "###....###", ".########.", ".########.", "###....###", "###....###", "##########", ".########."],
];
const COLOURS: [[u8; 3]; 8] = [[0, 0, 255], [0, 128, 0], [255, 0, 0], [0, 0, 128], [128, 0, 0], [0, 128, 128], [0, 0, 0], [128, 128, 128]];

/// a pixel of a cell drawn on 16 by 16 pixels: a raised button, or sunk with a digit
fn pixel(v: i32, y: usize, x: usize) -> [u8; 3] {
    if v >= 10 {
        return if y + x < 15 && (y < 2 || x < 2) {
            [255; 3]
        } else if y + x > 15 && (y >= 14 || x >= 14) {
            [128; 3]
        } else {
            [192; 3]
        };
    }
    if y == 0 || x == 0 {
        return [128; 3];
    }
    if v > 0 && (3..13).contains(&y) && (3..13).contains(&x) && DIGITS[v as usize - 1][y - 3].as_bytes()[x - 3] == b'#' {
        return COLOURS[v as usize - 1];
    }
    [192; 3]
}

/// The picture as the library wants it (blue, green, red, alpha), its height and width.
/// `s` pixels a cell; `m` pixels of surround above, below, left and right.
pub fn picture(b: &B, s: usize, m: [usize; 4], surround: [u8; 3], alpha: usize) -> (Vec<usize>, usize, usize) {
    let (h, w) = (b.len() * s + m[0] + m[1], b[0].len() * s + m[2] + m[3]);
    let mut d = Vec::with_capacity(h * w * 4);
    for i in 0..h {
        for j in 0..w {
            let c = if i < m[0] || j < m[2] || i >= h - m[1] || j >= w - m[3] {
                surround
            } else {
                let (y, x) = (i - m[0], j - m[2]);
                pixel(b[y / s][x / s], y % s * 16 / s, x % s * 16 / s)
            };
            d.extend([c[2] as usize, c[1] as usize, c[0] as usize, alpha]);
        }
    }
    (d, h, w)
}
