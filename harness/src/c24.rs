//! C24: the moves offered to the dead stone search (feature deadstones).
#[cfg(feature = "deadstones")]
pub fn offered() {
    use crate::geom::*;
    use crate::model::*;
    use crate::sim::*;
    use crate::sym;
    use goban::pieces::stones::Stone;
    use goban::rules::game::Game;
    use goban::rules::Move;
    use oxymcts::GameTrait;

    // cases: scene
    let sc = scene(0);
    let g: &Game = &sc.game;
    let n = sc.s.b.n();
    let mut times = [0u8; MAX];
    let (mut total, mut passes, mut other) = (0usize, 0usize, 0usize);
    for m in g.legals_moves() {
        total += 1;
        match m {
            Move::Play(r, c) => {
                let i = r as usize * sc.g.w + c as usize;
                for p in 0..n {
                    times[p] += (p == i) as u8;
                }
            }
            Move::Pass => passes += 1,
            Move::Resign(_) => other += 1,
        }
    }
    sym::check(other == 0, 1);
    let mut any = false;
    let mut eye = false;
    for q in 0..sc.cells() {
        let (r, c) = sc.g.cell(q);
        let at = (r as u8, c as u8);
        let fills = g.check_eye(Stone { coord: at, color: g.turn() });
        let ok = g.check_point(at).is_none() && !fills;
        any |= ok;
        eye |= g.check_point(at).is_none() && fills;
        sym::check(times[r * sc.g.w + c] == ok as u8, 2);
    }
    // (points outside the window are offered too)
    sym::check(passes == (total == passes + other && !g.is_over()) as usize, 3);
    sym::check(!any || total > passes, 8);
    sym::check(total != 0 || g.is_over(), 4);
    sym::check(g.is_final() == g.is_over(), 5);
    sym::check(g.player_turn() == g.turn(), 6);
    // a move of the search is a move of the game
    let mut a = sc.game.clone();
    let mut b = sc.game.clone();
    if !g.is_over() {
        a.do_move(&Move::Pass);
        b.play(Move::Pass);
        sym::check(a.turn() == b.turn() && a.is_over() == b.is_over(), 7);
    }
    sym::cover(any, 1);
    sym::cover(!any, 2);
    sym::cover(eye, 3);
}
#[cfg(not(feature = "deadstones"))]
pub fn offered() {}
