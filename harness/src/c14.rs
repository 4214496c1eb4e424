//! C14: a built game is the configured one, or an error.
use crate::geom::*;
use crate::model::*;
use crate::sim::*;
use crate::sym;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::{EndGame, GobanSizes, IllegalRules, Move, ScoreRules, CHINESE, JAPANESE};

/// cases: h, w, handicap points, setup stones, moves, fixed handicap points before these, and
/// which coordinates the others may have: first row, first column, how many rows and columns (0: any near the board)
pub fn configured() {
    let (h, w) = (sym::casez(0), sym::casez(1));
    let (nh, ns, nm) = (sym::casez(2), sym::casez(3), sym::casez(4));
    let (nf, r0, c0, span) = (sym::casez(5), sym::casez(6), sym::casez(7), sym::casez(8));
    let (lr, hr, lc, hc) = if span == 0 {
        (0, h as u8, 0, w as u8)
    } else {
        (r0 as u8, (r0 + span - 1) as u8, c0 as u8, (c0 + span - 1) as u8)
    };
    let point = || (sym::u8(lr, hr), sym::u8(lc, hc));
    let fl = sym::u8(0, 15) as u32;
    let sf = sym::u8(0, 7) as u32;
    let nosuicide = fl & IllegalRules::SUICIDE.bits() != 0;
    let mut b = B::new(h, w);
    let mut bad = false;
    let put = |b: &mut B, bad: &mut bool, r: u8, c: u8, col: u8| {
        let on = (r as usize) < h && (c as usize) < w;
        let mut free = false;
        for p in 0..h * w {
            let here = on & (p / w == r as usize) & (p % w == c as usize);
            free |= here & (b.c[p] == 0);
            if here & (b.c[p] == 0) {
                b.c[p] = col;
            }
        }
        *bad |= !free;
    };
    let mut hp = vec![];
    for k in 0..nf {
        // a 3x3 pattern of star points
        let at = ((h / 2 - h / 4 + k / 3 * (h / 4)) as u8, (w / 2 - w / 4 + k % 3 * (w / 4)) as u8);
        hp.push(at);
    }
    for _ in 0..nh {
        hp.push(point());
    }
    let mut st = vec![];
    for _ in 0..ns {
        let at = point();
        let col = sym::u8(1, 2);
        st.push((at, col));
    }
    for &at in &hp {
        put(&mut b, &mut bad, at.0, at.1, 1);
    }
    for &(at, col) in &st {
        put(&mut b, &mut bad, at.0, at.1, col);
    }
    sym::assume(bad | b.legal());
    let t = sym::u8(0, 2);
    let ha = sym::u8(0, 3) as u32;
    let km = sym::u8(0, 2);
    let order = sym::boolean();
    let stones = if ha > 0 { ha - 1 } else { (nf + nh) as u32 };
    let first = if t != 0 {
        t
    } else if stones != 0 {
        2
    } else {
        1
    };
    let komi = if km == 1 {
        0.5
    } else if km == 2 {
        -3.5
    } else {
        6.5
    };
    let mut s = Sim::new(b, first, !nosuicide);
    let mut mv = vec![];
    let mut resigned = 0;
    for k in 0..nm {
        let a = sym::u8(0, 3);
        let (r, c) = point();
        // a resignation ends the list
        sym::assume((a < 2) | (k + 1 == nm));
        mv.push(if a == 0 {
            Move::Pass
        } else if a == 1 {
            Move::Play(r, c)
        } else {
            Move::Resign(color(a - 1))
        });
        if a == 0 {
            bad |= s.passes >= 2;
            s.pass();
        } else if a == 1 {
            let mut sel = [false; MAX];
            let mut free = false;
            for p in 0..h * w {
                sel[p] = (p / w == r as usize) & (p % w == c as usize) & ((c as usize) < w);
                free |= sel[p] & (s.b.c[p] == 0);
            }
            bad |= !free;
            let p = s.look(&sel);
            sym::assume(bad | !p.suicide | s.suicide_ok);
            s.apply(&p);
        } else {
            resigned = a - 1;
        }
    }
    let out = sym::u8(0, 2);
    let mut x = Game::builder();
    x.size((h as u8, w as u8));
    x.put_handicap(&hp);
    if order {
        x.rule(rule(fl, sf, 6.5));
    }
    if km != 0 {
        x.komi(komi);
    }
    if !order {
        x.rule(rule(fl, sf, 6.5));
    }
    if ha > 0 {
        x.handicap(ha - 1);
    }
    if t != 0 {
        x.turn(color(t));
    }
    for &(at, col) in &st {
        x.add(Stone { coord: at, color: color(col) });
    }
    x.moves(&mv);
    if out != 0 {
        x.outcome(EndGame::WinnerByTime(color(out)));
    }
    let r = x.build();
    sym::check(r.is_err() == bad, 1);
    sym::observe(1, bad as u64);
    if let Ok(g) = r {
        sym::check(g.size() == (h as u8, w as u8), 2);
        sym::check(same(&g, &s.b), 3);
        sym::check(codec(g.turn()) == s.turn, 4);
        sym::check(g.komi() == komi, 5);
        let pr = g.prisoners();
        sym::check((pr.0 == s.pr.0) & (pr.1 == s.pr.1), 6);
        sym::check(g.is_over() == (out != 0 || resigned != 0 || s.passes == 2), 7);
        if resigned != 0 {
            sym::check(g.outcome() == Some(EndGame::WinnerByResign(color(resigned))), 8);
        } else if out != 0 {
            sym::check(g.outcome() == Some(EndGame::WinnerByTime(color(out))), 9);
        } else if s.passes < 2 {
            sym::check(g.outcome().is_none(), 10);
        }
        sym::check(g.calculate_score() == g.calculate_score_by(ScoreRules::from_bits_truncate(sf)), 11);
        for p in 0..h * w {
            let at = ((p / w) as u8, (p % w) as u8);
            sym::check(g.check_point(at) == g.check_point_by(at, IllegalRules::from_bits_truncate(fl)), 12);
        }
        sym::cover(true, 1);
        sym::cover(s.pr.0 > 0, 3);
    }
    sym::cover(bad, 2);
}
/// Every size, one stone anywhere (also outside).
pub fn sizes() {
    let (h, w) = (sym::u8(1, 19), sym::u8(1, 19));
    let at = (sym::u8(0, 20), sym::u8(0, 20));
    let how = sym::u8(0, 2);
    let mut x = Game::builder();
    x.size((h, w));
    match how {
        0 => {
            x.put_handicap(&[at]);
        }
        1 => {
            x.add(Stone { coord: at, color: Color::White });
        }
        _ => {
            x.moves(&[Move::Play(at.0, at.1)]);
        }
    }
    let on = (at.0 < h) & (at.1 < w);
    let r = x.build();
    sym::check(r.is_ok() == on, 1);
    if let Ok(g) = r {
        sym::check(g.size() == (h, w), 2);
        sym::check(code(g.get_color(at)) == if how == 1 { 2 } else { 1 }, 3);
        sym::check(g.number_of_stones() == if how == 1 { (0, 1) } else { (1, 0) }, 4);
        sym::check(codec(g.turn()) == if how == 1 { 1 } else { 2 }, 5);
        sym::cover(h != w, 1);
    }
    sym::cover(!on, 2);
}
/// What is given when nothing is asked for, and the other ways to start a game.
pub fn presets() {
    let (h, w) = (sym::u8(1, 19), sym::u8(1, 19));
    let g = Game::builder().build().unwrap();
    sym::check(g.size() == (19, 19), 1);
    sym::check(g.turn() == Color::Black, 2);
    sym::check(g.komi() == 7.5, 3);
    sym::check(!g.is_over() && g.outcome().is_none() && g.prisoners() == (0, 0), 4);
    let g = Game::default();
    sym::check(g.size() == (19, 19) && g.turn() == Color::Black && g.komi() == 7.5, 5);
    for (s, n) in [(GobanSizes::Nine, 9), (GobanSizes::Thirteen, 13), (GobanSizes::Nineteen, 19)] {
        let g = Game::new(s, JAPANESE);
        sym::check(g.size() == (n, n) && g.komi() == 6.5, 6);
        sym::check(GobanSizes::from(n as usize) == s, 7);
    }
    let mut g = Game::new(GobanSizes::Custom(h as usize, w as usize), CHINESE);
    sym::check(g.size() == (h, w), 8);
    sym::check(g.turn() == Color::Black, 9);
    sym::check(!g.is_over() && g.outcome().is_none() && g.prisoners() == (0, 0), 10);
    // handicap stones are Black's, then White begins
    let p = (sym::u8(0, 18), sym::u8(0, 18));
    let q = (0, 0);
    sym::assume((p.0 < h) & (p.1 < w) & ((p.0 != 0) | (p.1 != 0)));
    g.put_handicap(&[p, q]);
    sym::check(g.turn() == Color::White, 11);
    sym::check(code(g.get_color(p)) == 1 && code(g.get_color(q)) == 1, 12);
    sym::check(g.number_of_stones() == (2, 0), 13);
    sym::check(g.komi() == 7.5, 14);
    let k = sym::u8(0, 40);
    g.set_komi(k as f32 / 2.0);
    sym::check(g.komi() == k as f32 / 2.0, 15);
    // the presets
    use goban::rules::Rule;
    sym::check("JAP".parse::<Rule>() == Ok(JAPANESE), 16);
    sym::check("CHI".parse::<Rule>() == Ok(CHINESE), 17);
    sym::check("XYZ".parse::<Rule>().is_err(), 18);
    let (j, c) = (JAPANESE, CHINESE);
    sym::check(j.komi == 6.5 && c.komi == 7.5, 19);
    sym::check(j.flag_score == ScoreRules::KOMI | ScoreRules::PRISONNERS, 20);
    sym::check(c.flag_score == ScoreRules::KOMI | ScoreRules::STONES, 21);
    sym::check(j.flag_illegal == IllegalRules::KO | IllegalRules::SUICIDE, 22);
    sym::check(c.flag_illegal == IllegalRules::KO | IllegalRules::SUPERKO | IllegalRules::SUICIDE, 23);
    sym::cover(h != w, 1);
}
