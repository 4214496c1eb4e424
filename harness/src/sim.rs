//! A reference game: position, side to move, prisoners, passes, past positions.
use crate::geom::*;
use crate::model::*;
use goban::rules::game::Game;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::rules::{IllegalRules, Move};

pub struct Sim {
    pub b: B,
    pub turn: u8,
    pub passes: u32,
    /// (taken by black, taken by white)
    pub pr: (u32, u32),
    pub placed: (u32, u32),
    /// stones on the board at the start
    pub first: (u32, u32),
    /// positions before each play, oldest first
    pub hist: Vec<B>,
    /// the position before the last action when that was a play
    pub before_last: Option<B>,
    pub suicide_ok: bool,
}
impl Sim {
    pub fn new(b: B, turn: u8, suicide_ok: bool) -> Sim {
        let first = (b.count(1), b.count(2));
        Sim { b, turn, passes: 0, pr: (0, 0), placed: (0, 0), first, hist: Vec::with_capacity(64), before_last: None, suicide_ok }
    }
    pub fn look(&self, sel: &Map) -> Played {
        play(&self.b, sel, self.turn)
    }
    /// the mover's stone stays on the board when suicide is ruled out (then it never happens)
    pub fn apply(&mut self, p: &Played) {
        self.hist.push(self.b);
        self.before_last = Some(self.b);
        self.b = p.after;
        let (o, w) = (p.captured, p.own);
        if self.turn == 1 {
            self.pr.0 += o;
            self.pr.1 += w;
            self.placed.0 += 1;
        } else {
            self.pr.1 += o;
            self.pr.0 += w;
            self.placed.1 += 1;
        }
        self.turn = 3 - self.turn;
        self.passes = 0;
    }
    pub fn pass(&mut self) {
        self.before_last = None;
        self.turn = 3 - self.turn;
        self.passes += 1;
    }
    /// simple ko: the move takes something and recreates the position before the opponent's play
    pub fn is_ko(&self, p: &Played) -> bool {
        match &self.before_last {
            None => false,
            Some(o) => (p.captured > 0) & p.after.eq(o),
        }
    }
    /// positional superko: the position has been on the board before, counting the current one
    pub fn repeats(&self, p: &Played) -> bool {
        let mut r = p.after.eq(&self.b);
        for o in &self.hist {
            r |= p.after.eq(o);
        }
        r
    }
    /// board, prisoners, turn of the real game are the reference's
    pub fn agrees(&self, g: &Game) -> bool {
        let pr = g.prisoners();
        same(g, &self.b) & (pr.0 == self.pr.0) & (pr.1 == self.pr.1) & (codec(g.turn()) == self.turn)
    }
}

/// A game brought to a position by a start and a list of actions, next to its reference.
/// cases k..: window(8), start, flags, n, a_1..a_n
///   start: 1000 * seed + m: an opening of m moves inside the window, else
///   start: 0 any legal position of the window, 1 empty board, 2 the opening `lattice` then empty window,
///          3 the opening, then any legal position cannot be had: same as 2 with passes
///   flags: IllegalRules bits; 16 = suicide ruled out or not (symbolic); 32 = all 16 sets (symbolic); + 64 * ScoreRules bits;
///          + 512: moves and passes by try_play (only those it accepts)
///   a: index of a cell of the window, 253 any cell or pass, 254 pass, 255 any cell
pub struct Scene {
    pub g: Win,
    pub game: Game,
    pub s: Sim,
    pub flags: u32,
    /// next unread case
    pub k: u32,
    /// what the last action did (if it was a move)
    pub captured: u32,
    pub own: u32,
    pub caps: bool,
    pub trying: bool,
    pub suis: bool,
}
pub fn scene(k: u32) -> Scene {
    scene_with(k, |_, _| (), 0)
}
/// `pre` runs before the actions; it has `np` cases of its own, which follow the actions
pub fn scene_with(k: u32, pre: impl FnOnce(&mut Scene, u32), np: u32) -> Scene {
    let g = Win::from_cases(k);
    let start = sym::casez(k + 8);
    let fl = sym::case(k + 9) as u32;
    let n = sym::casez(k + 10);
    let mut turn = 1;
    let (fl, score, trying) = (fl % 64, fl / 64 % 8, fl >= 512);
    let flags = if fl == 16 {
        if sym::boolean() {
            IllegalRules::SUICIDE.bits()
        } else {
            0
        }
    } else if fl == 32 {
        sym::u8(0, 15) as u32
    } else {
        fl
    };
    let nosuicide = flags & IllegalRules::SUICIDE.bits() != 0;
    let (game, b) = if start == 0 {
        let (gb, b) = sym_position(&g);
        turn = sym::u8(1, 2);
        (game_on(gb, turn, rule(flags, score, 0.0)), b)
    } else {
        let mut b = B::new(g.h, g.w);
        let mut gb = Goban::new((g.h as u8, g.w as u8));
        for r in 0..g.h {
            for c in 0..g.w {
                let q = g.background(r, c);
                if q != 0 {
                    b.c[r * g.w + c] = q;
                    gb.push((r as u8, c as u8), color(q));
                }
            }
        }
        (game_on(gb, turn, rule(flags, score, 0.0)), b)
    };
    let s = Sim::new(b, turn, !nosuicide);
    let mut sc = Scene { g, game, s, flags, k: k + 11 + n as u32, captured: 0, own: 0, caps: false, trying: false, suis: false };
    if start >= 1000 {
        opening(&mut sc, start % 1000, (start / 1000) as u64, fl == 0);
    } else if start >= 2 {
        lattice(&mut sc, start);
    }
    pre(&mut sc, k + 11 + n as u32);
    sc.k += np;
    sc.trying = trying;
    for j in 0..n {
        let a = sym::casez(k + 11 + j as u32);
        sc.act(a);
    }
    sc
}
/// concrete alternating moves on isolated points outside the window, `start` moves of them
fn lattice(sc: &mut Scene, start: usize) {
    let mut left = start;
    for r in 0..sc.g.h {
        for c in 0..sc.g.w {
            let far = r + 1 < sc.g.r0 || r > sc.g.r0 + sc.g.wh || c + 1 < sc.g.c0 || c > sc.g.c0 + sc.g.ww;
            if left > 0 && far && c % 2 == 0 && r % 2 == 0 && sc.s.b.c[r * sc.g.w + c] == 0 {
                let mut sel = [false; MAX];
                sel[r * sc.g.w + c] = true;
                let p = sc.s.look(&sel);
                sc.game.play(Move::Play(r as u8, c as u8));
                sc.s.apply(&p);
                left -= 1;
            }
        }
    }
    if left > 0 {
        panic!("harness: no room for the opening");
    }
}
/// A fixed opening of m moves (each on the k-th free point, k from a generator; a suicide only if `suicides`)
pub fn opening(sc: &mut Scene, m: usize, seed: u64, suicides: bool) {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(99991);
    let n = sc.cells();
    for _ in 0..m {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let from = (x >> 33) as usize % n;
        let mut done = false;
        for d in 0..n {
            let q = (from + d) % n;
            let (r, c) = sc.g.cell(q);
            if !done && sc.s.b.c[r * sc.g.w + c] == 0 {
                let (_, p, _) = sc.look_at(q);
                if !p.suicide || suicides {
                    sc.act(q);
                    done = true;
                }
            }
        }
        if !done {
            sc.pass();
            sc.game.resume();
            sc.s.passes = 0;
        }
    }
}
impl Scene {
    pub fn act(&mut self, a: usize) {
        if a == 254 {
            self.pass();
            return;
        }
        if a == 253 {
            // one input: the inputs drawn must not depend on earlier ones
            let k = sym::u16(0, self.g.cells() as u16) as usize;
            if k == self.g.cells() {
                self.pass();
            } else {
                self.at(k);
            }
            return;
        }
        let k = if a == 255 { sym::u16(0, self.g.cells() as u16 - 1) as usize } else { a };
        self.at(k);
    }
    fn at(&mut self, k: usize) {
        let (sel, r, c) = point_at(&self.g, k);
        sym::assume(at(&self.s.b, &sel) == 0);
        let p = self.s.look(&sel);
        sym::assume(!p.suicide | self.s.suicide_ok);
        self.captured = p.captured;
        self.own = p.own;
        self.caps |= p.captured > 0;
        self.suis |= p.suicide;
        self.really(Move::Play(r, c));
        self.s.apply(&p);
    }
    fn really(&mut self, m: Move) {
        if self.trying {
            let ok = self.game.try_play(m).is_ok();
            sym::assume(ok);
        } else {
            self.game.play(m);
        }
    }
    pub fn pass(&mut self) {
        self.captured = 0;
        self.own = 0;
        if self.s.passes == 2 {
            self.game.resume();
            self.s.passes = 0;
        }
        self.really(Move::Pass);
        self.s.pass();
    }
    /// every point of the window, with its selector
    pub fn cells(&self) -> usize {
        self.g.cells()
    }
    pub fn look_at(&self, q: usize) -> (bool, Played, (u8, u8)) {
        let (sel, r, c) = point_at(&self.g, q);
        (at(&self.s.b, &sel) == 0, self.s.look(&sel), (r, c))
    }
}
