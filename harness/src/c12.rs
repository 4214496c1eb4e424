//! C12: every point of every board size is its own point, with its own neighbours.
use crate::geom::*;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::pieces::stones::Color;
use goban::rules::Move;

/// cases: smallest and largest height, smallest and largest width
fn size() -> (u8, u8) {
    let k = |i| sym::casez(i) as u8;
    (sym::u8(k(0), k(1)), sym::u8(k(2), k(3)))
}
fn point(h: u8, w: u8) -> (u8, u8) {
    let p = (sym::u8(0, sym::casez(1) as u8 - 1), sym::u8(0, sym::casez(3) as u8 - 1));
    sym::assume((p.0 < h) & (p.1 < w));
    p
}
fn same(a: (u8, u8), b: (u8, u8)) -> bool {
    (a.0 == b.0) & (a.1 == b.1)
}
fn beside(a: (u8, u8), b: (u8, u8)) -> bool {
    let d = |x: u8, y: u8| if x > y { x - y } else { y - x };
    d(a.0, b.0) + d(a.1, b.1) == 1
}

/// Two stones anywhere on a board of any size; every third point.  cases: sizes(4)
pub fn points() {
    let (h, w) = size();
    let p = point(h, w);
    let q = point(h, w);
    let o = point(h, w);
    sym::assume(!same(p, q));
    let mut g = Goban::new((h, w));
    sym::check(g.size() == (h, w), 1);
    sym::check(g.get_color(p).is_none(), 2);
    g.push(p, Color::Black);
    g.push(q, Color::White);
    let want = if same(o, p) {
        1
    } else if same(o, q) {
        2
    } else {
        0
    };
    sym::check(code(g.get_color(o)) == want, 3);
    let i = o.0 as usize * w as usize + o.1 as usize;
    sym::check(code(g.get_color(i)) == want, 4);
    sym::check(g.number_of_stones() == (1, 1), 5);
    sym::observe(1, want as u64);
    sym::cover(want == 0, 1);
    sym::cover(want == 2, 2);
    sym::cover(h > w, 3);
    sym::cover(h < w, 4);
}
/// What surrounds any point of a board of any size, with one stone anywhere.  cases: sizes(4)
pub fn around() {
    let (h, w) = size();
    let p = point(h, w);
    let q = point(h, w);
    let o = point(h, w);
    let mut g = Goban::new((h, w));
    g.push(p, Color::White);
    // o: a point asked about; it must be listed exactly when it is beside q
    let mut listed = 0u8;
    let mut n = 0u8;
    for x in g.get_connected_points(q) {
        listed += same(x.coord, o) as u8;
        n += 1;
        sym::check(code(x.color) == if same(x.coord, p) { 2 } else { 0 }, 1);
    }
    sym::check(listed == beside(o, q) as u8, 2);
    let want = (q.0 > 0) as u8 + (q.0 + 1 < h) as u8 + (q.1 > 0) as u8 + (q.1 + 1 < w) as u8;
    sym::check(n == want, 3);
    let mut free = 0u8;
    let mut nf = 0u8;
    for c in g.get_liberties(q) {
        free += same(c, o) as u8;
        nf += 1;
    }
    sym::check(free == (beside(o, q) & !same(o, p)) as u8, 4);
    sym::check(g.has_liberties(q) == (nf > 0), 5);
    let mut ns = 0u8;
    for s in g.get_connected_stones(q) {
        ns += 1;
        sym::check(same(s.coord, p) & (codec(s.color) == 2), 6);
    }
    sym::check(ns == beside(p, q) as u8, 7);
    sym::check(nf + ns == n, 8);
    sym::check(g.get_connected_groups_idx(q).len() == ns as usize, 9);
    sym::cover(ns == 1, 1);
    sym::cover(n == 2, 2);
    sym::cover(n == 4, 3);
}
/// A stone anywhere on a board of any size is captured by taking its last liberty.
/// cases: sizes(4), which neighbour is last (0 up, 1 down, 2 left, 3 right)
pub fn capture() {
    let (h, w) = size();
    let p = point(h, w);
    let last = sym::casez(4);
    let nb = [
        (p.0.wrapping_sub(1), p.1, p.0 > 0),
        (p.0 + 1, p.1, p.0 + 1 < h),
        (p.0, p.1.wrapping_sub(1), p.1 > 0),
        (p.0, p.1 + 1, p.1 + 1 < w),
    ];
    sym::assume(nb[last].2);
    let far = sym::boolean();
    let mut g = Goban::new((h, w));
    g.push(p, Color::White);
    for j in 0..4 {
        if j != last && nb[j].2 {
            g.push((nb[j].0, nb[j].1), Color::Black);
        }
    }
    let mut game = game_on(g, 1, rule(0, 0, 0.0));
    let at = (nb[last].0, nb[last].1);
    sym::check(game.will_capture(at), 1);
    if far {
        game.play(Move::Play(at.0, at.1));
        sym::check(game.get_color(p).is_none(), 2);
        sym::check(game.prisoners() == (1, 0), 3);
    } else {
        let b = game.play_for_verification(at);
        sym::check(b.get_color(p).is_none(), 4);
        sym::check(game.get_color(p) == Some(Color::White), 5);
    }
    sym::cover(h == 1, 1);
    sym::cover(p.0 + 1 == h, 2);
    sym::cover(p.1 + 1 == w, 3);
}
/// Listings on a board of any size with two stones.  cases: sizes(4)
pub fn listed() {
    let (h, w) = size();
    let p = point(h, w);
    let q = point(h, w);
    sym::assume(!same(p, q));
    let mut g = Goban::new((h, w));
    g.push(p, Color::Black);
    g.push(q, Color::White);
    let (mut a, mut b, mut n) = (0u8, 0u8, 0u8);
    for s in g.get_stones() {
        n += 1;
        a += (same(s.coord, p) & (codec(s.color) == 1)) as u8;
        b += (same(s.coord, q) & (codec(s.color) == 2)) as u8;
    }
    sym::check(n == 2, 1);
    sym::check((a == 1) & (b == 1), 2);
}
