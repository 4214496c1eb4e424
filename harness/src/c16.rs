//! C16: what counts as an eye.
use crate::geom::*;
use crate::sym;
use goban::pieces::stones::Stone;

/// cases: window(8), cell (255 every cell)
pub fn eye() {
    let g = Win::from_cases(0);
    let only = sym::casez(8);
    let (gb, b) = sym_board(&g);
    let mut other = goban::pieces::goban::Goban::new((b.h as u8, b.w as u8));
    for p in 0..b.n() {
        let at = ((p / b.w) as u8, (p % b.w) as u8);
        if b.c[p] == 1 {
            other.push(at, color(2));
        }
        if b.c[p] == 2 {
            other.push(at, color(1));
        }
    }
    let game = game_on(gb, 1, rule(0, 0, 0.0));
    let swapped = game_on(other, 1, rule(0, 0, 0.0));
    let mut yes = false;
    let mut partial = false;
    for k in 0..g.cells() {
        if only != 255 && only != k {
            continue;
        }
        let (r, c) = g.cell(k);
        let p = r * b.w + c;
        let (nb, m) = b.nb(r, c);
        for col in 1..3u8 {
            let mut cross = b.c[p] == 0;
            for j in 0..m {
                cross &= b.c[nb[j]] == col;
            }
            let mut good = 0u8;
            for (dr, dc) in [(-1i32, -1i32), (-1, 1), (1, -1), (1, 1)] {
                let (y, x) = (r as i32 + dr, c as i32 + dc);
                if y < 0 || x < 0 || y >= b.h as i32 || x >= b.w as i32 {
                    good += 1;
                } else {
                    good += (b.c[y as usize * b.w + x as usize] == col) as u8;
                }
            }
            let e = game.check_eye(Stone { coord: (r as u8, c as u8), color: color(col) });
            sym::check(!e | cross, 1);
            sym::check(!e | (good >= 2), 2);
            sym::check(e | !(cross & (good == 4)), 3);
            let f = swapped.check_eye(Stone { coord: (r as u8, c as u8), color: color(3 - col) });
            sym::check(e == f, 4);
            sym::observe(1, e as u64);
            yes |= e & (good == 4);
            partial |= e & (good < 4);
        }
    }
    sym::cover(yes, 1);
    sym::cover(partial, 2);
}
