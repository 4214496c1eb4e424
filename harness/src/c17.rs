//! C17: simulating a move shows what playing it does, and changes nothing.
use crate::geom::*;
use crate::sim::*;
use crate::sym;
use goban::rules::Move;

/// cases: scene, point
pub fn simulated() {
    let sc = scene(0);
    let q = sym::casez(sc.k);
    let (empty, p, at) = sc.look_at(q);
    sym::assume(empty);
    sym::assume(!p.suicide | sc.s.suicide_ok);
    let v = sc.game.play_for_verification(at);
    sym::check(same(&v, &p.after), 1);
    // nothing has changed
    sym::check(sc.s.agrees(&sc.game), 2);
    // it is the board that playing gives
    let mut t = sc.game.clone();
    t.play(Move::Play(at.0, at.1));
    sym::check(v == *t.goban(), 3);
    sym::check(v.zobrist_hash() == t.goban().zobrist_hash(), 4);
    sym::check(v.number_of_stones() == t.number_of_stones(), 5);
    // playing on the copy leaves the original alone
    sym::check(sc.s.agrees(&sc.game), 6);
    sym::cover(p.captured > 0, 1);
    sym::cover(p.suicide, 2);
}
