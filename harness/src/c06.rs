//! C06: positional superko.
use crate::geom::color;
use crate::sim::*;
use crate::sym;
use goban::pieces::stones::Stone;
use goban::rules::{IllegalRules, PlayError};

/// cases: scene; then every point is asked about
pub fn after() {
    let sc = scene(0);
    let mut any = false;
    let mut far = false;
    for q in 0..sc.cells() {
        let (empty, p, at) = sc.look_at(q);
        if empty {
            // a suicide that the rules of this game forbid is not a move at all
            if !p.suicide | sc.s.suicide_ok {
                let rep = sc.s.repeats(&p);
                any |= rep;
                far |= rep & !sc.s.is_ko(&p);
                let e = sc.game.check_point_by(at, IllegalRules::SUPERKO);
                sym::check((e == Some(PlayError::Ko)) == rep, 1);
                sym::check(e.is_none() == !rep, 2);
                sym::observe(1, rep as u64);
            }
        }
    }
    sym::cover(any, 1);
    sym::cover(far, 2);
}
/// The superko test itself.   cases: scene
pub fn direct() {
    let sc = scene(0);
    let mut any = false;
    for q in 0..sc.cells() {
        let (empty, p, at) = sc.look_at(q);
        if empty {
            if !p.suicide | sc.s.suicide_ok {
                let rep = sc.s.repeats(&p);
                any |= rep;
                let stone = Stone { coord: at, color: color(sc.s.turn) };
                sym::check(sc.game.check_super_ko(stone) == rep, 3);
            }
        }
    }
    sym::observe(1, any as u64);
    sym::cover(any, 1);
}
