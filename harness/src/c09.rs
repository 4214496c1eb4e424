//! C09: board, prisoners and side to move over whole sequences.
use crate::sim::*;
use crate::sym;

/// cases: scene
pub fn after() {
    let mut sc = scene(0);
    let n0 = sc.s.b;
    let _ = n0;
    let pr = sc.game.prisoners();
    sym::check(pr.0 == sc.s.pr.0, 1);
    sym::check(pr.1 == sc.s.pr.1, 2);
    sym::check(sc.s.agrees(&sc.game), 3);
    let (bl, wh) = sc.game.number_of_stones();
    // nothing is lost: stones on the board before, plus stones played, minus prisoners taken
    sym::check(bl + pr.1 == sc.s.first.0 + sc.s.placed.0, 4);
    sym::check(wh + pr.0 == sc.s.first.1 + sc.s.placed.1, 5);
    sym::observe(1, pr.0 as u64);
    sym::observe(2, pr.1 as u64);
    sym::cover(pr.0 > 0, 1);
    sym::cover(pr.1 > 0, 2);
    sym::cover(sc.suis, 3);
    // a pass and a resumption change none of it
    sc.pass();
    sc.game.resume();
    sym::check(sc.s.agrees(&sc.game), 6);
}
