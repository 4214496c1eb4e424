//! C07: legality queries, legal move lists and try_play tell the same story.
use crate::geom::*;
use crate::model::*;
use crate::sim::*;
use crate::sym;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{IllegalRules, Move, PlayError};

/// cases: scene (flags 32: every combination)
pub fn lists() {
    let sc = scene(0);
    let n = sc.s.b.n();
    let w = sc.s.b.w;
    let mut legal = [0u8; MAX];
    for (r, c) in sc.game.legals() {
        let i = r as usize * w + c as usize;
        for p in 0..n {
            legal[p] += (p == i) as u8;
        }
    }
    let mut pseudo = [0u8; MAX];
    for (r, c) in sc.game.pseudo_legals() {
        let i = r as usize * w + c as usize;
        for p in 0..n {
            pseudo[p] += (p == i) as u8;
        }
    }
    let mut pv = [0u8; MAX];
    for (r, c) in sc.game.pseudo_legals_vec() {
        let i = r as usize * w + c as usize;
        for p in 0..n {
            pv[p] += (p == i) as u8;
        }
    }
    // the list under rules passed by the caller
    let f2 = IllegalRules::from_bits_truncate(sym::u8(0, 15) as u32);
    let mut by = [0u8; MAX];
    for (r, c) in sc.game.legals_by(f2) {
        let i = r as usize * w + c as usize;
        for p in 0..n {
            by[p] += (p == i) as u8;
        }
    }
    let mut some = false;
    let mut refused = false;
    for p in 0..n {
        if !sc.g.inside(p / w, p % w) {
            sym::check(sc.s.b.c[p] == 0 || (legal[p] == 0 && pseudo[p] == 0 && pv[p] == 0 && by[p] == 0), 5);
        }
    }
    for q in 0..sc.cells() {
        let (r, c) = sc.g.cell(q);
        let p = r * w + c;
        let e = sc.game.check_point((r as u8, c as u8));
        sym::check(legal[p] == e.is_none() as u8, 1);
        let empty = sc.s.b.c[p] == 0;
        let e2 = sc.game.check_point_by((r as u8, c as u8), f2);
        sym::check(by[p] == e2.is_none() as u8, 6);
        sym::check(pseudo[p] == empty as u8, 2);
        sym::check(pv[p] == empty as u8, 3);
        sym::check((e == Some(PlayError::PointNotEmpty)) == !empty, 4);
        some |= e.is_none();
        refused |= e.is_some() && empty;
    }
    sym::cover(some, 1);
    sym::cover(refused, 2);
}

/// The verdict on one point, and its reason, against the rules that are switched on.
/// cases: scene, point
pub fn verdict() {
    let sc = scene(0);
    let q = sym::casez(sc.k);
    let (empty, p, at) = sc.look_at(q);
    sym::assume(empty);
    let f = sc.flags;
    let on = |x: IllegalRules| f & x.bits() != 0;
    let st = Stone { coord: at, color: color(sc.s.turn) };
    let su = on(IllegalRules::SUICIDE) & p.suicide;
    let ko = on(IllegalRules::KO) & sc.s.is_ko(&p);
    let sk = on(IllegalRules::SUPERKO) & sc.s.repeats(&p) & !su;
    let eye = on(IllegalRules::FILLEYE) & sc.game.check_eye(st);
    let e = sc.game.check_point(at);
    sym::check(e.is_some() == (su | ko | sk | eye), 1);
    let ok = match e {
        None => true,
        Some(PlayError::Suicide) => su,
        Some(PlayError::Ko) => ko | sk,
        Some(PlayError::FillEye) => eye,
        Some(_) => false,
    };
    sym::check(ok, 2);
    // the same question with the rules passed explicitly
    sym::check(sc.game.check_point_by(at, IllegalRules::from_bits_truncate(f)) == e, 3);
    sym::check(sc.game.check_point_by(at, IllegalRules::empty()).is_none(), 4);
    sym::cover(su, 1);
    sym::cover(ko | sk, 2);
    sym::cover(eye, 3);
    sym::cover(e.is_none(), 4);
}

fn same_state(a: &Game, b: &Game, g: &Win) -> bool {
    let mut ok = a.goban() == b.goban();
    ok &= a.prisoners() == b.prisoners();
    ok &= a.turn() == b.turn();
    ok &= a.is_over() == b.is_over();
    ok &= a.history().count() == b.history().count();
    for q in 0..g.cells() {
        let (r, c) = g.cell(q);
        let at = (r as u8, c as u8);
        ok &= code(a.get_color(at)) == code(b.get_color(at));
        ok &= a.check_point(at) == b.check_point(at);
    }
    ok
}
/// cases: scene, point
pub fn tried() {
    let sc = scene(0);
    let q = sym::casez(sc.k);
    let (empty, p, at) = sc.look_at(q);
    let e = sc.game.check_point(at);
    let mut t = sc.game.clone();
    let r = match t.try_play(Move::Play(at.0, at.1)) {
        Ok(_) => None,
        Err(x) => Some(x),
    };
    // a game stopped by two passes refuses every move for that reason alone (C08)
    let stopped = sc.s.passes == 2;
    sym::check(r == if stopped { Some(PlayError::GamePaused) } else { e }, 1);
    if r.is_none() {
        sym::check(empty, 2);
        sym::check(same(&t, &p.after), 3);
        sym::check(codec(t.turn()) == 3 - sc.s.turn, 4);
    } else {
        sym::check(same_state(&t, &sc.game, &sc.g), 5);
    }
    sym::cover(r.is_none(), 1);
    sym::cover(r.is_some() && empty, 2);
    sym::cover(!empty, 3);
}
