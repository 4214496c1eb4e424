//! C21: long games: the board stays right after hundreds of moves, captures and new groups.
use crate::c02::check_chains;
use crate::sim::*;
use crate::sym;
use goban::rules::IllegalRules;
use goban::rules::PlayError;

/// A fixed opening of m moves (each on the k-th free non-suicidal point, k from a generator), then a
/// scene's symbolic actions.   cases: scene (start 1), m, generator seed
pub fn long() {
    let mut sc = scene_with(0, |sc, k| opening(sc, sym::casez(k), sym::case(k + 1), false), 2);
    sym::check(sc.s.agrees(&sc.game), 1);
    check_chains(&sc.game, &sc.s.b, 10);
    let (bl, wh) = sc.game.number_of_stones();
    let pr = sc.game.prisoners();
    sym::check(bl + pr.1 == sc.s.first.0 + sc.s.placed.0, 2);
    sym::check(wh + pr.0 == sc.s.first.1 + sc.s.placed.1, 3);
    sym::observe(1, pr.0 as u64);
    // superko against the whole history, and the moves that stay possible
    let mut any = false;
    for q in 0..sc.cells() {
        let (empty, p, at) = sc.look_at(q);
        if empty {
            if !p.suicide | sc.s.suicide_ok {
                let rep = sc.s.repeats(&p);
                any |= rep;
                let e = sc.game.check_point_by(at, IllegalRules::SUPERKO);
                sym::check((e == Some(PlayError::Ko)) == rep, 4);
            }
        }
    }
    sym::cover(any, 1);
    sc.pass();
    sym::check(sc.s.agrees(&sc.game), 5);
}
