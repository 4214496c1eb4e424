//! C27: however points are named and stones are given, the board is the same.
use crate::c03::{check_same, hash};
use crate::geom::*;
use crate::model::*;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, MaybeColor, Point, Stone};
use goban::pieces::util::coord::Coord;
use goban::rules::game::Game;
use goban::rules::Move;

/// A point named by its place in the row-major vector and by its coordinates.   cases: window(8)
pub fn named() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    for q in 0..g.cells() {
        let (r, c) = g.cell(q);
        let i = r * g.w + c;
        let at: Coord = (r as u8, c as u8);
        sym::check(code(gb.get_color(i)) == b.c[i], 1);
        sym::check(code(gb.get_color(at)) == b.c[i], 2);
        let (x, y) = (gb.get_connected_groups_idx(i), gb.get_connected_groups_idx(at));
        sym::check(x.len() == y.len(), 3);
        for k in 0..4 {
            if k < x.len() && k < y.len() {
                sym::check(x[k] == y[k], 4);
            }
        }
        let (nb, n) = b.nb(r, c);
        let mut stones = 0u8;
        for k in 0..n {
            stones += (b.c[nb[k]] != 0) as u8;
        }
        let (mut m1, mut m2) = (0u8, 0u8);
        for s in gb.get_connected_stones(i) {
            m1 += 1;
            sym::check(codec(s.color) == b.c[s.coord.0 as usize * g.w + s.coord.1 as usize], 5);
        }
        for s in gb.get_connected_stones(at) {
            m2 += 1;
            sym::check(codec(s.color) == b.c[s.coord.0 as usize * g.w + s.coord.1 as usize], 6);
        }
        sym::check(m1 == stones, 7);
        sym::check(m2 == stones, 8);
        sym::cover(stones == n as u8, 1);
    }
}
/// The same stones given one by one, as stones, colour by colour, as an array, and to the builder.   cases: window(8)
pub fn placed() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let mut one = Goban::new((g.h as u8, g.w as u8));
    let mut sets: [Vec<Coord>; 2] = [Vec::with_capacity(400), Vec::with_capacity(400)];
    let mut all: Vec<MaybeColor> = Vec::with_capacity(400);
    let mut bu = Game::builder();
    bu.size((g.h as u8, g.w as u8));
    for p in 0..b.n() {
        let at = ((p / g.w) as u8, (p % g.w) as u8);
        match b.c[p] {
            1 => {
                one.push_stone(Stone { coord: at, color: Color::Black });
                sets[0].push(at);
                bu.add((at, Color::Black).into());
            }
            2 => {
                one.push_stone(Stone { coord: at, color: Color::White });
                sets[1].push(at);
                bu.add((at, Color::White).into());
            }
            _ => (),
        }
        all.push(match b.c[p] {
            1 => Some(Color::Black),
            2 => Some(Color::White),
            _ => None,
        });
    }
    check_same(&gb, &one, 10);
    let mut many = Goban::new((g.h as u8, g.w as u8));
    many.push_many(&sets[0], Color::Black);
    many.push_many(&sets[1], Color::White);
    check_same(&gb, &many, 20);
    sym::check(same(&many, &b), 1);
    if g.h == g.w {
        let from = Goban::from(&all[..]);
        check_same(&gb, &from, 30);
        sym::check(same(&from, &b), 2);
    }
    match bu.build() {
        Ok(game) => {
            check_same(&gb, game.goban(), 40);
            sym::check(game.size() == gb.size() && game.number_of_stones() == (b.count(1), b.count(2)), 3);
        }
        Err(_) => sym::check(false, 4),
    }
    sym::observe(1, hash(&many));
    sym::cover(b.count(1) > 1, 1);
}
/// Points, stones, moves and colours turned into each other.
pub fn converted() {
    let at: Coord = (sym::u8(0, 255), sym::u8(0, 255));
    let k = sym::u8(0, 2);
    let c: MaybeColor = match k {
        1 => Some(Color::Black),
        2 => Some(Color::White),
        _ => None,
    };
    let p = Point::from((at, c));
    sym::check((p.coord.0 == at.0) & (p.coord.1 == at.1) & (code(p.color) == k), 1);
    match Stone::try_from(p) {
        Ok(s) => {
            sym::check(k != 0, 2);
            sym::check((s.coord.0 == at.0) & (s.coord.1 == at.1) & (codec(s.color) == k), 3);
            let back: Coord = s.into();
            sym::check((back.0 == at.0) & (back.1 == at.1), 4);
            let col = Color::from(c);
            sym::check(codec(col) == k, 5);
            sym::check(codec(!col) == 3 - k, 6);
            let t = Stone::from((at, col));
            sym::check(t == s, 7);
            sym::check(format!("{}", col) == if k == 1 { "Black" } else { "White" }, 8);
        }
        Err(_) => sym::check(k == 0, 9),
    }
    let back: Coord = p.into();
    sym::check((back.0 == at.0) & (back.1 == at.1), 10);
    match Move::from(at) {
        Move::Play(x, y) => sym::check((x == at.0) & (y == at.1), 11),
        _ => sym::check(false, 12),
    }
    sym::cover(k == 0, 1);
    sym::cover(k == 2, 2);
    let _ = B::new(1, 1);
}
