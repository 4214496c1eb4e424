//! C04: suicide and capture are recognised exactly.
use crate::geom::*;
use crate::model::*;
use crate::sim::scene;
use crate::sym;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{IllegalRules, PlayError};

/// cases: window(8), point (255 = every point)
pub fn all() {
    let g = Win::from_cases(0);
    let only = sym::casez(8);
    let (gb, b) = sym_position(&g);
    let turn = sym::u8(1, 2);
    let game = game_on(gb, turn, rule(0, 0, 0.0));
    asked(&game, &g, b, turn, only);
}
/// The same inside a game.   cases: scene, point (255 = every point)
pub fn after() {
    let sc = scene(0);
    asked(&sc.game, &sc.g, sc.s.b, sc.s.turn, sym::casez(sc.k));
}
fn asked(game: &Game, g: &Win, b: B, turn: u8, only: usize) {
    let mut any_suicide = false;
    let mut any_capture = false;
    for k in 0..g.cells() {
        if only != 255 && only != k {
            continue;
        }
        let (sel, r, c) = point_at(g, k);
        let p1 = play(&b, &sel, 1);
        let p2 = play(&b, &sel, 2);
        if at(&b, &sel) == 0 {
            let s1 = game.check_suicide(Stone { coord: (r, c), color: color(1) });
            let s2 = game.check_suicide(Stone { coord: (r, c), color: color(2) });
            sym::check(s1 == p1.suicide, 1);
            sym::check(s2 == p2.suicide, 2);
            sym::observe(1, s1 as u64);
            let (su, cap) = if turn == 1 { (p1.suicide, p1.captured > 0) } else { (p2.suicide, p2.captured > 0) };
            any_suicide |= su;
            any_capture |= cap;
            sym::check(game.will_capture((r, c)) == cap, 3);
            let e = game.check_point_by((r, c), IllegalRules::SUICIDE);
            sym::check((e == Some(PlayError::Suicide)) == su, 4);
            sym::check(e.is_none() == !su, 5);
            sym::check(game.check_point_by((r, c), IllegalRules::empty()).is_none(), 6);
        } else {
            let e = game.check_point_by((r, c), IllegalRules::SUICIDE);
            sym::check(e == Some(PlayError::PointNotEmpty), 7);
        }
    }
    sym::cover(any_suicide, 1);
    sym::cover(any_capture, 2);
}
