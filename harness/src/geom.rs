//! Symbolic positions, built through the public API of the crate.
use crate::model::*;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::pieces::stones::Color;
use goban::rules::game::Game;
use goban::rules::{GobanSizes, IllegalRules, Rule, ScoreRules};

pub fn color(c: u8) -> Color {
    if c == 1 {
        Color::Black
    } else {
        Color::White
    }
}
pub fn code(c: Option<Color>) -> u8 {
    match c {
        None => 0,
        Some(Color::Black) => 1,
        Some(Color::White) => 2,
    }
}
pub fn codec(c: Color) -> u8 {
    match c {
        Color::Black => 1,
        Color::White => 2,
    }
}

/// insertion order of `n` cells: 0 row-major, 1 reversed, 2.. shuffles
pub fn order(n: usize, kind: usize) -> [usize; MAX] {
    let mut o = [0; MAX];
    for i in 0..n {
        o[i] = if kind == 1 { n - 1 - i } else { i };
    }
    if kind >= 2 {
        let mut x: u64 = 0x9E3779B97F4A7C15u64.wrapping_mul(kind as u64 + 1);
        let mut i = n;
        while i > 1 {
            i -= 1;
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let j = ((x >> 33) % (i as u64 + 1)) as usize;
            o.swap(i, j);
        }
    }
    o
}

#[derive(Clone, Copy)]
pub struct Win {
    pub h: usize,
    pub w: usize,
    pub r0: usize,
    pub c0: usize,
    pub wh: usize,
    pub ww: usize,
    pub ord: usize,
    pub bg: usize,
}
impl Win {
    /// cases k.. = h, w, order
    pub fn full(k: u32) -> Win {
        let h = sym::casez(k);
        let w = sym::casez(k + 1);
        Win { h, w, r0: 0, c0: 0, wh: h, ww: w, ord: sym::casez(k + 2), bg: 0 }
    }
    /// cases k.. = h, w, order, r0, c0, wh, ww, bg   (wh = 0: the whole board)
    pub fn from_cases(k: u32) -> Win {
        let h = sym::casez(k);
        let w = sym::casez(k + 1);
        let mut g = Win {
            h,
            w,
            ord: sym::casez(k + 2),
            r0: sym::casez(k + 3),
            c0: sym::casez(k + 4),
            wh: sym::casez(k + 5),
            ww: sym::casez(k + 6),
            bg: sym::casez(k + 7),
        };
        if g.wh == 0 {
            g.r0 = 0;
            g.c0 = 0;
            g.wh = h;
            g.ww = w;
        }
        g
    }
    pub fn inside(&self, r: usize, c: usize) -> bool {
        r >= self.r0 && r < self.r0 + self.wh && c >= self.c0 && c < self.c0 + self.ww
    }
    pub fn cells(&self) -> usize {
        self.wh * self.ww
    }
    pub fn cell(&self, k: usize) -> (usize, usize) {
        (self.r0 + k / self.ww, self.c0 + k % self.ww)
    }
    /// concrete stones outside the window
    pub fn background(&self, r: usize, c: usize) -> u8 {
        if self.inside(r, c) {
            return 0;
        }
        let dr = if r < self.r0 {
            self.r0 - r
        } else if r >= self.r0 + self.wh {
            r + 1 - self.r0 - self.wh
        } else {
            0
        };
        let dc = if c < self.c0 {
            self.c0 - c
        } else if c >= self.c0 + self.ww {
            c + 1 - self.c0 - self.ww
        } else {
            0
        };
        let d = dr.max(dc);
        match self.bg {
            0 => 0,
            // a ring around the window
            1 | 2 => {
                if d == 1 {
                    self.bg as u8
                } else {
                    0
                }
            }
            // the whole rest of the board, but for one eye far away
            3 | 4 => {
                let far = (
                    if self.r0 * 2 + self.wh <= self.h { self.h - 1 } else { 0 },
                    if self.c0 * 2 + self.ww <= self.w { self.w - 1 } else { 0 },
                );
                if (r, c) == far {
                    0
                } else {
                    (self.bg - 2) as u8
                }
            }
            // ring of black, then everything else white with an eye
            5 => {
                if d == 1 {
                    1
                } else if d == 2 && (r + c) % 2 == 0 {
                    0
                } else if d == 2 {
                    2
                } else {
                    0
                }
            }
            // the whole rest of the board, no liberty outside the window
            6 | 7 => (self.bg - 5) as u8,
            // many small groups, each stone beside an empty point
            8 => {
                let v = |r: usize, c: usize| if self.inside(r, c) { 9 } else { (r + 2 * c) % 5 };
                let free = (r > 0 && v(r - 1, c) == 0) || v(r, c) == 0 || (c > 0 && v(r, c - 1) == 0)
                    || (r + 1 < self.h && v(r + 1, c) == 0) || (c + 1 < self.w && v(r, c + 1) == 0);
                if v(r, c) == 0 || !free {
                    0
                } else {
                    (v(r, c) % 2 + 1) as u8
                }
            }
            // arms of one colour from the window to the edges, the other colour around them (one eye per quarter)
            11 | 12 => {
                let (a, o) = if self.bg == 11 { (2u8, 1u8) } else { (1, 2) };
                let row = r == self.r0 + self.wh / 2;
                let col = c == self.c0 + self.ww / 2;
                if row || col {
                    a
                } else if (r == 0 || r + 1 == self.h) && (c == 0 || c + 1 == self.w) {
                    0
                } else {
                    o
                }
            }
            // as many groups as possible: single stones of both colours, each beside an empty point
            10 => {
                let v = |r: usize, c: usize| if self.inside(r, c) { 9 } else { (r + 2 * c) % 5 };
                let free = (r > 0 && v(r - 1, c) == 0) || v(r, c) == 0 || (c > 0 && v(r, c - 1) == 0)
                    || (r + 1 < self.h && v(r + 1, c) == 0) || (c + 1 < self.w && v(r, c + 1) == 0);
                if v(r, c) == 0 || !free {
                    0
                } else {
                    ((r + c) % 2 + 1) as u8
                }
            }
            // stripes
            9 => {
                if c % 3 == 0 && c + 1 == self.w {
                    0
                } else {
                    [1, 0, 2][c % 3]
                }
            }
            _ => 0,
        }
    }
}

/// Stones that come and go: the board is empty again afterwards, its inner tables are not fresh.
pub fn used_board(g: &Win) -> Goban {
    let mut gb = Goban::new((g.h as u8, g.w as u8));
    for q in 0..g.cells() {
        if q % 2 == 0 {
            let (r, c) = g.cell(q);
            gb.push((r as u8, c as u8), color((q / 2 % 2) as u8 + 1));
        }
    }
    for r in 0..g.h {
        for c in 0..g.w {
            for id in gb.get_connected_groups_idx((r as u8, c as u8)) {
                gb.remove_chain(id);
            }
        }
    }
    gb
}
/// All assignments of the window's cells, stones pushed in the given order (8 and more: on a board that
/// has been used before).
pub fn sym_board(g: &Win) -> (Goban, B) {
    let mut gb = if g.ord >= 8 && g.h * g.w > 1 { used_board(g) } else { Goban::new((g.h as u8, g.w as u8)) };
    let mut b = B::new(g.h, g.w);
    for r in 0..g.h {
        for c in 0..g.w {
            let k = g.background(r, c);
            if k != 0 {
                b.c[r * g.w + c] = k;
                gb.push((r as u8, c as u8), color(k));
            }
        }
    }
    let n = g.cells();
    let o = order(n, g.ord % 8);
    for q in 0..n {
        let (r, c) = g.cell(o[q]);
        let k = sym::u8(0, 2);
        b.c[r * g.w + c] = k;
        if k == 1 {
            gb.push((r as u8, c as u8), Color::Black);
        }
        if k == 2 {
            gb.push((r as u8, c as u8), Color::White);
        }
    }
    (gb, b)
}
/// The same, restricted to legal positions (every group has a liberty).
pub fn sym_position(g: &Win) -> (Goban, B) {
    let (gb, b) = sym_board(g);
    sym::assume(b.legal());
    (gb, b)
}

pub fn rule(illegal: u32, score: u32, komi: f32) -> Rule {
    Rule {
        komi,
        flag_illegal: IllegalRules::from_bits_truncate(illegal),
        flag_score: ScoreRules::from_bits_truncate(score),
    }
}
pub fn is_set(f: u32, b: u32) -> bool {
    f & b != 0
}
/// A fresh game whose board is replaced by `gb`.  (Equivalent to the builder's `add` of the same
/// stones; that equivalence is checked by C14.)
pub fn game_on(gb: Goban, turn: u8, ru: Rule) -> Game {
    let (h, w) = gb.size();
    let mut g = Game::builder()
        .size((h, w))
        .rule(ru)
        .turn(color(turn))
        .build()
        .unwrap();
    set_board(&mut g, gb);
    g
}
pub fn set_board(g: &mut Game, gb: Goban) {
    // Game only hands out `&Goban`; its place inside the Game is what the accessor reports, and
    // the write goes through our own `&mut Game`.
    let base = g as *mut Game as *mut u8;
    let off = (g.goban() as *const Goban as usize).wrapping_sub(base as usize);
    if off > core::mem::size_of::<Game>() - core::mem::size_of::<Goban>() {
        panic!("harness: the board is not stored inside Game");
    }
    unsafe {
        let p = base.add(off) as *mut Goban;
        core::ptr::drop_in_place(p);
        core::ptr::write(p, gb);
    }
}
pub fn custom(h: usize, w: usize) -> GobanSizes {
    GobanSizes::Custom(h, w)
}
/// a symbolic point of the window, as a selector map and coordinates
pub fn sym_point(g: &Win) -> (Map, u8, u8) {
    let k = sym::u16(0, g.cells() as u16 - 1) as usize;
    point_at(g, k)
}
pub fn point_at(g: &Win, k: usize) -> (Map, u8, u8) {
    let mut m = [false; MAX];
    for q in 0..g.cells() {
        let (r, c) = g.cell(q);
        m[r * g.w + c] = q == k;
    }
    let r = g.r0 + k / g.ww;
    let c = g.c0 + k % g.ww;
    (m, r as u8, c as u8)
}
pub fn at(b: &B, sel: &Map) -> u8 {
    let mut v = 0;
    for p in 0..b.n() {
        if sel[p] {
            v |= b.c[p];
        }
    }
    v
}
/// the board agrees with the model on every point
pub fn same(gb: &Goban, b: &B) -> bool {
    let mut ok = true;
    for r in 0..b.h {
        for c in 0..b.w {
            ok &= code(gb.get_color((r as u8, c as u8))) == b.c[r * b.w + c];
        }
    }
    ok
}
