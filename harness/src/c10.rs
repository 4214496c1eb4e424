//! C10: the score is the sum the scoring rules name, and the outcome follows from it.
use crate::geom::*;
use crate::model::*;
use crate::sim::*;
use crate::sym;
use goban::rules::{EndGame, Move, ScoreRules};

/// 64 times the komi (so that every sum is exact), and the komi
pub const KOMI: [(i32, f32); 16] = [
    (0, 0.0), (32, 0.5), (416, 6.5), (480, 7.5), (-224, -3.5), (64, 1.0), (-64, -1.0), (128, 2.0),
    (16, 0.25), (432, 6.75), (-8, -0.125), (193, 3.015625), (6432, 100.5), (23104, 361.0), (-6400, -100.0), (1, 0.015625),
];
/// the number whose 64fold is x
fn sixtyfourths(x: i32) -> f32 {
    x as f32 / 64.0
}

/// (black, white) empty regions bordered by one colour only
pub fn territory(b: &B) -> (Map, Map) {
    let n = b.n();
    let mut t = [[false; MAX]; 2];
    for col in 0..2 {
        for p in 0..n {
            let (nb, k) = b.nb(p / b.w, p % b.w);
            let mut v = false;
            for j in 0..k {
                v |= b.c[nb[j]] == col as u8 + 1;
            }
            t[col][p] = v & (b.c[p] == 0);
        }
        let mut m = t[col];
        b.close(&mut m);
        t[col] = m;
    }
    let mut x = [[false; MAX]; 2];
    for p in 0..n {
        x[0][p] = t[0][p] & !t[1][p];
        x[1][p] = t[1][p] & !t[0][p];
    }
    (x[0], x[1])
}
pub fn count(m: &Map, n: usize) -> i32 {
    let mut k = 0;
    for p in 0..n {
        k += m[p] as i32;
    }
    k
}
/// cases: scene, komi range lo, hi (indices into KOMI)
pub fn score() {
    let mut sc = scene(0);
    let (lo, hi) = (sym::casez(sc.k), sym::casez(sc.k + 1));
    let ki = sym::u8(lo as u8, hi as u8) as usize;
    let fl = sym::u8(0, 7) as u32;
    let (k2, kf) = KOMI[ki];
    sc.game.set_komi(kf);
    sym::check(sc.game.komi() == kf, 1);
    let b = &sc.s.b;
    let (tb, tw) = territory(b);
    let (mut eb, mut ew) = (count(&tb, b.n()), count(&tw, b.n()));
    if fl & ScoreRules::PRISONNERS.bits() != 0 {
        eb += sc.s.pr.0 as i32;
        ew += sc.s.pr.1 as i32;
    }
    if fl & ScoreRules::STONES.bits() != 0 {
        eb += b.count(1) as i32;
        ew += b.count(2) as i32;
    }
    let (eb2, mut ew2) = (64 * eb, 64 * ew);
    if fl & ScoreRules::KOMI.bits() != 0 {
        ew2 += k2;
    }
    let f = ScoreRules::from_bits_truncate(fl);
    let s = sc.game.calculate_score_by(f);
    sym::check(s.0 == sixtyfourths(eb2), 2);
    sym::check(s.1 == sixtyfourths(ew2), 3);
    sym::observe(1, eb2 as u64);
    // the score under the game's own rule, and the outcome, on a game with that rule
    let mut own = game_on(sc.game.goban().clone(), sc.s.turn, rule(sc.flags, fl, kf));
    let (p0, p1) = if fl & ScoreRules::PRISONNERS.bits() != 0 { (64 * sc.s.pr.0 as i32, 64 * sc.s.pr.1 as i32) } else { (0, 0) };
    let s = own.calculate_score();
    sym::check(s.0 == sixtyfourths(eb2 - p0), 4);
    sym::check(s.1 == sixtyfourths(ew2 - p1), 5);
    own.play(Move::Pass);
    sym::check(own.outcome().is_none(), 6);
    own.play(Move::Pass);
    let d = (eb2 - p0) - (ew2 - p1);
    let o = own.outcome();
    if d == 0 {
        sym::check(o == Some(EndGame::Draw), 7);
        sym::check(o.and_then(|x| x.get_winner()).is_none(), 8);
    } else {
        let win = color(if d > 0 { 1 } else { 2 });
        let m = if d > 0 { d } else { -d };
        let ok = match o {
            Some(EndGame::WinnerByScore(c, x)) => (c == win) & (x == sixtyfourths(m)),
            _ => false,
        };
        sym::check(ok, 9);
        sym::check(o.and_then(|x| x.get_winner()) == Some(win), 10);
    }
    sym::cover(d == 0, 1);
    sym::cover(d > 0, 2);
    sym::cover(d < 0, 3);
    sym::cover(sc.s.pr.0 > 0, 4);
}
/// Outcome of the game itself (prisoners included); the scene's flags carry the scoring rules.
/// cases: scene, komi range lo, hi, score flags
pub fn outcome() {
    let mut sc = scene(0);
    let ki = sym::u8(sym::casez(sc.k) as u8, sym::casez(sc.k + 1) as u8) as usize;
    let fl = sym::case(9) as u32 / 64 % 8;
    let (k2, kf) = KOMI[ki];
    sc.game.set_komi(kf);
    let b = sc.s.b;
    let (tb, tw) = territory(&b);
    let (mut e0, mut e1) = (64 * count(&tb, b.n()), 64 * count(&tw, b.n()));
    if fl & ScoreRules::PRISONNERS.bits() != 0 {
        e0 += 64 * sc.s.pr.0 as i32;
        e1 += 64 * sc.s.pr.1 as i32;
    }
    if fl & ScoreRules::STONES.bits() != 0 {
        e0 += 64 * b.count(1) as i32;
        e1 += 64 * b.count(2) as i32;
    }
    if fl & ScoreRules::KOMI.bits() != 0 {
        e1 += k2;
    }
    let d = e0 - e1;
    sym::check(sc.s.passes == 2 || sc.game.outcome().is_none(), 4);
    sc.pass();
    if sc.s.passes < 2 {
        sym::check(sc.game.outcome().is_none(), 5);
        sc.pass();
    }
    let o = sc.game.outcome();
    let ok = match o {
        Some(EndGame::Draw) => d == 0,
        Some(EndGame::WinnerByScore(c, x)) => {
            let m = if d > 0 { d } else { -d };
            (d != 0) & (codec(c) == if d > 0 { 1 } else { 2 }) & (x == sixtyfourths(m))
        }
        _ => false,
    };
    sym::check(ok, 1);
    let s = sc.game.calculate_score();
    sym::check(s.0 == sixtyfourths(e0), 2);
    sym::check(s.1 == sixtyfourths(e1), 3);
    // going on after the passes puts the result off
    sc.game.resume();
    sym::check(sc.game.outcome().is_none() && !sc.game.is_over(), 6);
    sym::cover(d != 0, 1);
    sym::cover(sc.s.pr.0 + sc.s.pr.1 > 0, 2);
}
