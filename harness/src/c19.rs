//! C19: removing a group from the board.
use crate::c02::check_listing;
use crate::geom::*;
use crate::model::*;
use crate::sym;
use goban::pieces::goban::Goban;

/// A group beside a given point (the j-th one) is taken off.   cases: window(8), point, j
pub fn removed() {
    let g = Win::from_cases(0);
    let (mut gb, b) = sym_board(&g);
    let (r, c) = g.cell(sym::casez(8));
    let j = sym::casez(9);
    let ids = gb.get_connected_groups_idx((r as u8, c as u8));
    sym::assume(ids.len() > j);
    let id = ids[j];
    let n = b.n();
    let mut gone = [false; MAX];
    for s in gb.chain_stones(id) {
        let i = s.coord.0 as usize * b.w + s.coord.1 as usize;
        for p in 0..n {
            gone[p] |= p == i;
        }
    }
    gb.remove_chain(id);
    let mut a = b;
    let mut many = 0;
    for p in 0..n {
        if gone[p] {
            a.c[p] = 0;
            many += 1;
        }
    }
    sym::check(same(&gb, &a), 1);
    check_listing(&gb, &a, &g, 10);
    let mut f = Goban::new((b.h as u8, b.w as u8));
    for p in 0..n {
        if a.c[p] != 0 {
            f.push(((p / b.w) as u8, (p % b.w) as u8), color(a.c[p]));
        }
    }
    sym::check(f == gb, 2);
    sym::check(f.zobrist_hash() == gb.zobrist_hash(), 3);
    // and the points can be played again
    if a.c[r * b.w + c] == 0 {
        gb.push((r as u8, c as u8), color(1));
        a.c[r * b.w + c] = 1;
        check_listing(&gb, &a, &g, 30);
    }
    sym::cover(many > 1, 1);
}
