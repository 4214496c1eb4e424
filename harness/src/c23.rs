//! C23: the recorded positions are the ones the game went through.
use crate::geom::*;
use crate::model::*;
use crate::sim::*;
use crate::sym;

/// Each position that was on the board before a stone was played, once, in the order of its first
/// occurrence.   cases: scene
pub fn recorded() {
    let sc = scene(0);
    let h = &sc.s.hist;
    // which entries of the reference are new, and how many new ones come before
    let mut new = Vec::with_capacity(h.len());
    let mut before = Vec::with_capacity(h.len());
    let mut rank = 0usize;
    let mut repeated = false;
    for j in 0..h.len() {
        let mut v = true;
        for k in 0..j {
            v &= !h[j].eq(&h[k]);
        }
        new.push(v);
        before.push(rank);
        rank += v as usize;
        repeated |= !v;
    }
    let mut fits = true;
    let mut n = 0usize;
    for (i, b) in sc.game.history().enumerate() {
        n += 1;
        // the i-th distinct reference position
        let mut ok = false;
        for j in i..h.len() {
            if new[j] & (before[j] == i) {
                ok |= same(b, &h[j]);
            }
        }
        fits &= ok;
    }
    sym::check(n == rank, 1);
    sym::check(fits, 2);
    sym::observe(1, n as u64);
    sym::cover(repeated, 1);
    sym::cover(n > 1, 2);
    let _ = MAX;
}
