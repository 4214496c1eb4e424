//! C13: every view of the board shows the same position.
use crate::geom::*;
use crate::model::*;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, MaybeColor};

fn maybe(c: u8) -> MaybeColor {
    if c == 0 {
        None
    } else {
        Some(color(c))
    }
}
/// cases: window(8)
pub fn arrays() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let n = b.n();
    let v = gb.to_vec();
    sym::check(v.len() == n, 1);
    for p in 0..n {
        sym::check(code(v[p]) == b.c[p], 2);
        sym::check(code(gb.get_color(p)) == b.c[p], 3);
        sym::check(code(gb.get_color(((p / b.w) as u8, (p % b.w) as u8))) == b.c[p], 4);
    }
    let m = gb.matrix();
    sym::check(m.len() == b.h, 5);
    for r in 0..b.h {
        sym::check(m[r].len() == b.w, 6);
        for c in 0..b.w {
            sym::check(code(m[r][c]) == b.c[r * b.w + c], 7);
        }
    }
    let s = gb.number_of_stones();
    sym::check(s.0 == b.count(1), 8);
    sym::check(s.1 == b.count(2), 9);
    sym::observe(1, s.0 as u64);
    sym::cover(s.0 > s.1, 1);
}
/// The listings: each point exactly where it belongs, once.  cases: window(8), part
pub fn listings() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let n = b.n();
    let mut t = [0u8; MAX];
    let mut hit = |i: usize| {
        for p in 0..n {
            t[p] += (p == i) as u8;
        }
    };
    let want: u8 = match sym::case(8) {
        0 => {
            for s in gb.get_stones() {
                let i = s.coord.0 as usize * b.w + s.coord.1 as usize;
                hit(i);
                let mut c = 0;
                for p in 0..n {
                    if p == i {
                        c = b.c[p];
                    }
                }
                sym::check(codec(s.color) == c, 1);
            }
            3
        }
        k @ 1..=3 => {
            let k = (k - 1) as u8;
            for s in gb.get_stones_by_color(maybe(k)) {
                hit(s.coord.0 as usize * b.w + s.coord.1 as usize);
                sym::check(code(s.color) == k, 2);
            }
            k
        }
        k @ 4..=6 => {
            let k = (k - 4) as u8;
            for s in gb.get_coords_by_color(maybe(k)) {
                hit(s.0 as usize * b.w + s.1 as usize);
            }
            k
        }
        7 => {
            for i in gb.get_empty_idx() {
                hit(i);
            }
            0
        }
        _ => {
            for s in gb.get_empty_coords() {
                hit(s.0 as usize * b.w + s.1 as usize);
            }
            0
        }
    };
    for p in 0..n {
        let e = if want == 3 { b.c[p] != 0 } else { b.c[p] == want };
        sym::check(t[p] == e as u8, 3);
    }
}
/// The printed board, and the board rebuilt from its own vector.  cases: window(8)
pub fn text() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let blank = Goban::new((b.h as u8, b.w as u8)).pretty_string();
    let s = gb.pretty_string();
    let (x, y) = (s.as_bytes(), blank.as_bytes());
    let black = "●".as_bytes();
    let white = "○".as_bytes();
    sym::check(x.len() == b.h * (3 * b.w + 1), 1);
    for r in 0..b.h {
        for c in 0..b.w {
            let o = r * (3 * b.w + 1) + 3 * c;
            let v = b.c[r * b.w + c];
            for k in 0..3 {
                let e = if v == 1 {
                    black[k]
                } else if v == 2 {
                    white[k]
                } else {
                    y[o + k]
                };
                sym::check(x[o + k] == e, 2);
            }
            sym::check((y[o..o + 3] != *black) & (y[o..o + 3] != *white), 3);
        }
        sym::check(x[r * (3 * b.w + 1) + 3 * b.w] == b'\n', 4);
    }
}
/// Only square boards: the vector loses the shape.  cases: window(8)
pub fn rebuilt() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let v: Vec<MaybeColor> = (0..b.n()).map(|p| maybe(b.c[p])).collect();
    let h = Goban::from(&v[..]);
    sym::check(h.size() == (b.h as u8, b.w as u8), 1);
    sym::check(same(&h, &b), 2);
    sym::check(h == gb, 3);
    sym::check(h.zobrist_hash() == gb.zobrist_hash(), 4);
    let w = Goban::from(&gb.to_vec()[..]);
    sym::check(w == gb, 5);
    let _ = Color::Black;
}
