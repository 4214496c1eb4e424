//! C01: a move that is played changes the board exactly as the rules of Go say.
use crate::geom::*;
use crate::model::*;
use crate::sim::scene;
use crate::sym;
use goban::rules::{IllegalRules, Move};

/// One move by either side at any empty point of any legal position.
/// cases: window(8), point (255 = symbolic)
pub fn one() {
    let g = Win::from_cases(0);
    let fixed = sym::casez(8);
    let (gb, b) = sym_position(&g);
    let turn = sym::u8(1, 2);
    let nosuicide = sym::boolean();
    let (sel, r, c) = if fixed == 255 { sym_point(&g) } else { point_at(&g, fixed) };
    sym::assume(at(&b, &sel) == 0);
    let p = play(&b, &sel, turn);
    sym::assume(!(p.suicide & nosuicide));
    let f = if nosuicide { IllegalRules::SUICIDE.bits() } else { 0 };
    let mut game = game_on(gb, turn, rule(f, 0, 0.0));
    game.play(Move::Play(r, c));
    for q in 0..b.n() {
        let got = code(game.get_color(((q / b.w) as u8, (q % b.w) as u8)));
        sym::check(got == p.after.c[q], 1);
        sym::observe(1, got as u64);
    }
    let pr = game.prisoners();
    let (wb, ww) = if turn == 1 { (p.captured, p.own) } else { (p.own, p.captured) };
    sym::check(pr.0 == wb && pr.1 == ww, 2);
    sym::check(codec(game.turn()) == 3 - turn, 3);
    sym::cover(p.captured > 0, 1);
    sym::cover(p.suicide, 2);
    sym::cover(p.captured > 1, 3);
}
/// The same for moves that belong to a game, not to a position that was set up.   cases: scene, point
pub fn after() {
    let mut sc = scene(0);
    let q = sym::casez(sc.k);
    let (empty, p, at) = sc.look_at(q);
    sym::assume(empty);
    sym::assume(!p.suicide | sc.s.suicide_ok);
    let (x, y) = sc.game.prisoners();
    sc.game.play(Move::Play(at.0, at.1));
    sym::check(same(&sc.game, &p.after), 1);
    let pr = sc.game.prisoners();
    let (wb, ww) = if sc.s.turn == 1 { (p.captured, p.own) } else { (p.own, p.captured) };
    sym::check(pr.0 == x + wb && pr.1 == y + ww, 2);
    sym::check(codec(sc.game.turn()) == 3 - sc.s.turn, 3);
    sym::observe(1, (pr.0 - x) as u64);
    sym::cover(p.captured > 0, 1);
    sym::cover(p.suicide, 2);
    sym::cover(p.captured > 1, 3);
}
