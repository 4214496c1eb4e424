//! C08: turns, passes, resumption and the end of the game.
use crate::geom::*;
use crate::sym;
use goban::pieces::stones::Color;
use goban::rules::{EndGame, Move, PlayError};

/// Any sequence of n actions (try_play of a pass, a move on a free point, a move on the first stone,
/// a resignation; or a resumption).   cases: h, w, n
pub fn machine() {
    let (h, w, n) = (sym::casez(0), sym::casez(1), sym::casez(2));
    let fl = sym::u8(0, 7) as u32;
    let first = sym::u8(1, 2);
    let mut game = game_on(
        goban::pieces::goban::Goban::new((h as u8, w as u8)),
        first,
        rule(fl, 3, 0.5),
    );
    let mut turn = first;
    let mut passes = 0u32;
    let mut resigned = 0u8;
    let mut used = [false; 64];
    let mut refused = false;
    let mut resumed = false;
    let mut after = false;
    for k in 0..n {
        let a = sym::u8(0, 5);
        // even points of the diagonal order: never adjacent
        let (r, c) = (2 * (k * 2 / w), k * 2 % w);
        if resigned != 0 {
            // whatever is called now (but another resignation), the result stays
            sym::assume((a != 2) & (a != 3));
            match a {
                0 => {
                    let e = game.try_play(Move::Pass).err();
                    if passes == 2 {
                        sym::check(e == Some(PlayError::GamePaused), 18);
                    } else if e.is_none() {
                        passes += 1;
                    }
                }
                1 => {
                    let e = game.try_play(Move::Play(r as u8, c as u8)).err();
                    if passes == 2 {
                        sym::check(e == Some(PlayError::GamePaused), 19);
                    } else if e.is_none() {
                        passes = 0;
                    }
                }
                4 => {
                    game.resume();
                    passes = 0;
                }
                _ => {
                    if game.try_play(Move::Play(0, 0)).is_ok() {
                        passes = 0;
                    }
                }
            }
            after = true;
        } else {
            match a {
                0 => {
                    let e = game.try_play(Move::Pass).err();
                    if passes == 2 {
                        sym::check(e == Some(PlayError::GamePaused), 1);
                        refused = true;
                    } else {
                        sym::check(e.is_none(), 2);
                        passes += 1;
                        turn = 3 - turn;
                    }
                }
                1 => {
                    let e = game.try_play(Move::Play(r as u8, c as u8)).err();
                    if passes == 2 {
                        sym::check(e == Some(PlayError::GamePaused), 3);
                        refused = true;
                    } else {
                        sym::check(e.is_none(), 4);
                        used[k] = true;
                        passes = 0;
                        turn = 3 - turn;
                    }
                }
                2 | 3 => {
                    let e = game.try_play(Move::Resign(color(a - 1))).err();
                    if passes == 2 {
                        sym::check(e == Some(PlayError::GamePaused), 5);
                        refused = true;
                    } else {
                        sym::check(e.is_none(), 6);
                        resigned = a - 1;
                        // (a pass before it need not count on)
                        passes = 0;
                    }
                }
                4 => {
                    game.resume();
                    resumed |= passes == 2;
                    passes = 0;
                }
                _ => {
                    // a move on an occupied point (if there is one): refused, nothing changes
                    if k > 0 && used[0] {
                        let e = game.try_play(Move::Play(0, 0)).err();
                        if passes == 2 {
                            sym::check(e == Some(PlayError::GamePaused), 7);
                        } else {
                            sym::check(e == Some(PlayError::PointNotEmpty), 8);
                        }
                    }
                }
            }
        }
        sym::check(after | (codec(game.turn()) == turn), 10);
        let over = passes == 2 || resigned != 0;
        sym::check(game.is_over() == over, 11);
        let o = game.outcome();
        sym::check(o.is_some() == over, 12);
        if resigned != 0 {
            sym::check(o == Some(EndGame::WinnerByResign(color(resigned))), 13);
            sym::check(o.and_then(|x| x.get_winner()) == Some(color(resigned)), 14);
        }
        sym::check(after | (game.prisoners() == (0, 0)), 15);
        for j in 0..=k {
            let (r, c) = (2 * (j * 2 / w), j * 2 % w);
            sym::check(after | (game.get_color((r as u8, c as u8)).is_some() == used[j]), 16);
        }
    }
    if !after {
        let (b, wst) = game.number_of_stones();
        let mut cnt = 0;
        for j in 0..n {
            cnt += used[j] as u32;
        }
        sym::check(b + wst == cnt, 17);
    }
    sym::cover(after, 5);
    sym::cover(refused, 1);
    sym::cover(resumed, 2);
    sym::cover(resigned != 0, 3);
    sym::cover(passes == 2, 4);
    let _ = Color::Black;
}
