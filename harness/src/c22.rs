//! C22: a point outside the board is never played.
use crate::geom::*;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Stone};
use goban::rules::Move;

/// Coordinates outside a board of any size, with one stone anywhere: the call is refused (by an error or
/// a panic), so it never returns as if it had played, and an error leaves the game as it was.
/// cases: sizes(4), call (0 push, 1 push_stone, 2 push_many, 3 play, 4 try_play, 5 simulation, 6 handicap),
/// largest row, largest column, smallest row, smallest column of the point played
pub fn outside() {
    let k = |i| sym::casez(i) as u8;
    let (h, w) = (sym::u8(k(0), k(1)), sym::u8(k(2), k(3)));
    let p = (sym::u8(0, k(1) - 1), sym::u8(0, k(3) - 1));
    sym::assume((p.0 < h) & (p.1 < w));
    let mut at = (sym::u8(k(7), k(5)), sym::u8(k(8), k(6)));
    if sym::boolean() {
        at = (0, 0);
    }
    let on = (at.0 < h) & (at.1 < w);
    // (the first point of the board is among them, so that the call returns at all)
    sym::assume((at.0 != p.0) | (at.1 != p.1));
    let mut g = Goban::new((h, w));
    g.push(p, Color::White);
    let what = sym::case(4);
    sym::cover(!on & (at.0 < h), 1);
    sym::cover(!on & (at.1 < w), 2);
    let mut played = true;
    match what {
        0 => {
            g.push(at, Color::Black);
        }
        1 => {
            g.push_stone(Stone { coord: at, color: Color::Black });
        }
        2 => {
            g.push_many(&[at], Color::Black);
        }
        3 => {
            let mut game = game_on(g, 1, rule(7, 0, 0.0));
            game.play(Move::Play(at.0, at.1));
        }
        4 => {
            let mut game = game_on(g, 1, rule(4, 0, 0.0));
            played = game.try_play(Move::Play(at.0, at.1)).is_ok();
            sym::cover(!played, 3);
            if !played {
                sym::check(game.turn() == Color::Black, 2);
                sym::check(game.number_of_stones() == (0, 1), 3);
                sym::check(game.get_color(p) == Some(Color::White), 4);
            }
        }
        5 => {
            let game = game_on(g, 1, rule(7, 0, 0.0));
            let b = game.play_for_verification(at);
            played = b.number_of_stones() != (0, 0);
        }
        _ => {
            let mut game = game_on(g, 1, rule(7, 0, 0.0));
            game.put_handicap(&[at]);
        }
    }
    sym::check(!played | on, 1);
    sym::cover(played, 4);
}
