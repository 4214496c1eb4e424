//! C03: equality and hash of boards depend on the stones and nothing else.
use crate::geom::*;
use crate::model::*;
use crate::sim::*;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::pieces::stones::Color;
use std::hash::{Hash, Hasher};

/// everything a board feeds into a hasher
pub struct Fold(u64);
impl Hasher for Fold {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = (self.0 << 8 | self.0 >> 56) ^ b as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 << 1 | self.0 >> 63) ^ x;
    }
}
pub fn hash(g: &Goban) -> u64 {
    let mut f = Fold(0);
    g.hash(&mut f);
    f.finish()
}
/// the stones of `b` pushed onto a fresh board, the window's in order `ord`
pub fn fresh(g: &Win, b: &B, ord: usize) -> Goban {
    let mut gb = Goban::new((g.h as u8, g.w as u8));
    let n = g.cells();
    let o = order(n, ord);
    for q in 0..n {
        let (r, c) = g.cell(o[q]);
        let k = b.c[r * g.w + c];
        if k == 1 {
            gb.push((r as u8, c as u8), Color::Black);
        }
        if k == 2 {
            gb.push((r as u8, c as u8), Color::White);
        }
    }
    for p in 0..b.n() {
        let (r, c) = (p / g.w, p % g.w);
        if !g.inside(r, c) {
            let k = b.c[p];
            if k == 1 {
                gb.push((r as u8, c as u8), Color::Black);
            }
            if k == 2 {
                gb.push((r as u8, c as u8), Color::White);
            }
        }
    }
    gb
}
pub fn check_same(a: &Goban, b: &Goban, base: u32) {
    sym::check(a == b, base);
    sym::check(!(a != b), base + 1);
    sym::check(a.zobrist_hash() == b.zobrist_hash(), base + 2);
    sym::check(hash(a) == hash(b), base + 3);
}
/// The same stones in two orders; then one point changed.
/// cases: window(8), second order, changed cell
pub fn orders() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let ord = sym::casez(8);
    let cell = sym::casez(9);
    let gb2 = fresh(&g, &b, ord);
    check_same(&gb, &gb2, 1);
    check_same(&gb, &gb.clone(), 1);
    let (r, c) = g.cell(cell);
    let mut b3 = b;
    let k = sym::u8(0, 2);
    b3.c[r * g.w + c] = k;
    let gb3 = fresh(&g, &b3, g.ord);
    let differ = k != b.c[r * g.w + c];
    sym::check((gb3 != gb) == differ, 5);
    sym::check((gb3.zobrist_hash() != gb.zobrist_hash()) == differ, 6);
    sym::check((gb3 != gb2) == differ, 7);
    sym::cover(differ, 1);
    sym::cover(!differ, 2);
}
/// Two independent boards.  cases: window(8)
pub fn pair() {
    let g = Win::from_cases(0);
    let (x, bx) = sym_board(&g);
    let (y, by) = sym_board(&g);
    let e = bx.eq(&by);
    sym::check((x == y) == e, 1);
    sym::check((x.zobrist_hash() == y.zobrist_hash()) == e, 2);
    sym::cover(e, 1);
    sym::cover(!e, 2);
}
/// After play (captures, suicides) the board is the one freshly set up with the same stones.
/// cases: scene
pub fn played() {
    let sc = scene(0);
    let f = fresh(&sc.g, &sc.s.b, 0);
    check_same(sc.game.goban(), &f, 1);
    sym::cover(sc.caps, 1);
    sym::cover(sc.suis, 2);
}
/// Single stones at every point of a 19x19 board hash differently from each other and from nothing.
pub fn keys() {
    let mut h = [0u64; 722];
    let zero = Goban::new((19, 19)).zobrist_hash();
    for p in 0..722 {
        let mut gb = Goban::new((19, 19));
        let q = p % 361;
        gb.push(((q / 19) as u8, (q % 19) as u8), color(1 + (p / 361) as u8));
        h[p] = gb.zobrist_hash();
    }
    let i = sym::u16(0, 721) as usize;
    let hi = h[i];
    sym::check(hi != zero, 1);
    for j in 0..722 {
        sym::check((hi == h[j]) == (i == j), 2);
    }
}
/// Boards of different sizes are never equal.  (empty, or with one stone each)
pub fn sizes() {
    let (h, w) = (sym::u8(1, 19), sym::u8(1, 19));
    let (h2, w2) = (sym::u8(1, 19), sym::u8(1, 19));
    let a = Goban::new((h, w));
    let b = Goban::new((h2, w2));
    let e = h == h2 && w == w2;
    sym::check((a == b) == e, 1);
    sym::cover(e, 1);
    sym::cover(!e, 2);
}
