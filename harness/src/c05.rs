//! C05: simple ko.
use crate::sim::*;
use crate::geom::*;
use crate::sym;
use goban::pieces::stones::Stone;
use goban::rules::{IllegalRules, PlayError};

/// cases: scene; then every point is asked about
pub fn after() {
    let sc = scene(0);
    let mut any = false;
    for q in 0..sc.cells() {
        let (empty, p, at) = sc.look_at(q);
        if empty {
            let ko = sc.s.is_ko(&p);
            any |= ko;
            let st = Stone { coord: at, color: color(sc.s.turn) };
            sym::check(sc.game.check_ko(st) == ko, 1);
            let e = sc.game.check_point_by(at, IllegalRules::KO);
            sym::check((e == Some(PlayError::Ko)) == ko, 2);
            sym::check(e.is_none() == !ko, 3);
            sym::observe(1, ko as u64);
        }
    }
    sym::cover(any, 1);
}
