//! C02: the groups the board reports are the real ones.
use crate::geom::*;
use crate::model::*;
use crate::sim::scene;
use crate::sym;
use goban::pieces::goban::Goban;
use goban::rules::{IllegalRules, Move};

/// Groups seen from every point of the window: the ids of the adjacent groups, and the stones
/// behind each id.
pub fn check_ids(gb: &Goban, b: &B, g: &Win, base: u32) {
    for k in 0..g.cells() {
        let (r, c) = g.cell(k);
        check_ids_at(gb, b, r, c, base);
    }
}
pub fn check_ids_at(gb: &Goban, b: &B, r: usize, c: usize, base: u32) {
    let (nb, k) = b.nb(r, c);
    let mut gr = [[false; MAX]; 4];
    for j in 0..k {
        gr[j] = b.group(nb[j]);
    }
    // distinct groups around the point
    let mut want = 0;
    for j in 0..k {
        let mut first = b.c[nb[j]] != 0;
        for i in 0..j {
            first &= !gr[j][nb[i]];
        }
        want += first as usize;
    }
    let ids = gb.get_connected_groups_idx((r as u8, c as u8));
    sym::check(ids.len() == want, base);
    let mut covered = [0u8; 4];
    for &id in ids.iter() {
        let mut s = [false; MAX];
        let mut cnt = 0u32;
        for st in gb.chain_stones(id) {
            let i = st.coord.0 as usize * b.w + st.coord.1 as usize;
            cnt += 1;
            for p in 0..b.n() {
                s[p] |= p == i;
            }
            let mut colour = 0;
            for p in 0..b.n() {
                if p == i {
                    colour = b.c[p];
                }
            }
            sym::check(codec(st.color) == colour, base + 1);
        }
        let mut size = 0;
        for p in 0..b.n() {
            size += s[p] as u32;
        }
        sym::check(cnt == size, base + 2);
        let mut some = false;
        for j in 0..k {
            let here = s[nb[j]] & (b.c[nb[j]] != 0);
            some |= here;
            covered[j] += here as u8;
            let mut eq = true;
            for p in 0..b.n() {
                eq &= s[p] == gr[j][p];
            }
            sym::check(!here | eq, base + 3);
        }
        sym::check(some, base + 4);
    }
    for j in 0..k {
        sym::check(covered[j] == (b.c[nb[j]] != 0) as u8, base + 5);
    }
}

/// The listing of all groups: one per connected component, with its colour, size and liberties.
pub fn check_chains(gb: &Goban, b: &B, base: u32) {
    let n = b.n();
    let mut groups = 0usize;
    let mut seen = [0u8; MAX];
    for ch in gb.chains() {
        let o = ch.origin as usize;
        for p in 0..n {
            if o == p {
                seen[p] += 1;
            }
        }
        groups += 1;
    }
    let mut want = 0usize;
    for p in 0..n {
        if b.c[p] != 0 {
            let m = b.group(p);
            let mut first = true;
            for q in 0..p {
                first &= !m[q];
            }
            want += first as usize;
            // exactly one listed group starts in this component
            let mut cnt = 0;
            for q in 0..n {
                if m[q] {
                    cnt += seen[q];
                }
            }
            sym::check(cnt == 1, base + 1);
            let mut size = 0u16;
            let mut lib = [false; MAX];
            for q in 0..n {
                size += m[q] as u16;
                let (nb, k) = b.nb(q / b.w, q % b.w);
                for j in 0..k {
                    lib[q] |= m[nb[j]];
                }
                lib[q] &= b.c[q] == 0;
            }
            let mut nl = 0usize;
            for q in 0..n {
                nl += lib[q] as usize;
            }
            for ch in gb.chains() {
                if ch.origin as usize == p {
                    sym::check(codec(ch.color) == b.c[p], base + 2);
                    sym::check(ch.num_stones == size, base + 3);
                    let mut ok = true;
                    for q in 0..n {
                        ok &= ch.contains_liberty(q) == lib[q];
                    }
                    sym::check(ok, base + 4);
                    sym::check(ch.number_of_liberties() == nl, base + 5);
                    sym::check(ch.is_dead() == (nl == 0), base + 6);
                    sym::check(ch.is_atari() == (nl == 1), base + 7);
                }
            }
        }
    }
    sym::check(groups == want, base);
}

/// The groups of the stones in and around the window, where the board is too large to look at all groups.
pub fn check_near(gb: &Goban, b: &B, g: &Win, base: u32) {
    let n = b.n();
    for r in g.r0.saturating_sub(1)..(g.r0 + g.wh + 1).min(b.h) {
        for c in g.c0.saturating_sub(1)..(g.c0 + g.ww + 1).min(b.w) {
            let p = r * b.w + c;
            let corner = (r < g.r0 || r >= g.r0 + g.wh) && (c < g.c0 || c >= g.c0 + g.ww);
            if corner || b.c[p] == 0 {
                continue;
            }
            let m = b.group(p);
            let mut size = 0u16;
            let mut lib = [false; MAX];
            let mut nl = 0usize;
            for q in 0..n {
                size += m[q] as u16;
                let (nb, k) = b.nb(q / b.w, q % b.w);
                for j in 0..k {
                    lib[q] |= m[nb[j]];
                }
                lib[q] &= b.c[q] == 0;
                nl += lib[q] as usize;
            }
            let mut cnt = 0;
            for ch in gb.chains() {
                let o = ch.origin as usize;
                let mut here = false;
                for q in 0..n {
                    here |= (o == q) & m[q];
                }
                if here {
                    cnt += 1;
                    sym::check(codec(ch.color) == b.c[p], base + 2);
                    sym::check(ch.num_stones == size, base + 3);
                    let mut ok = true;
                    for q in 0..n {
                        ok &= ch.contains_liberty(q) == lib[q];
                    }
                    sym::check(ok, base + 4);
                    sym::check(ch.number_of_liberties() == nl, base + 5);
                    sym::check(ch.is_dead() == (nl == 0), base + 6);
                    sym::check(ch.is_atari() == (nl == 1), base + 7);
                }
            }
            sym::check(cnt == 1, base + 1);
        }
    }
}
/// All groups, or, on a large crowded board, those near the window.
pub fn check_listing(gb: &Goban, b: &B, g: &Win, base: u32) {
    if g.bg >= 6 && b.n() > 200 {
        check_near(gb, b, g, base);
    } else {
        check_chains(gb, b, base);
    }
}

/// Any assignment of stones, pushed in a given order (positions need not be legal).
/// cases: window(8), part (0 listing, 1 ids)
pub fn after_push() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    if sym::case(8) == 0 {
        check_listing(&gb, &b, &g, 10);
    } else {
        check_ids(&gb, &b, &g, 20);
    }
}
/// The same after one move has been played on a legal position.
/// cases: window(8), point, part
pub fn after_move() {
    let g = Win::from_cases(0);
    let fixed = sym::casez(8);
    let (gb, b) = sym_position(&g);
    let turn = sym::u8(1, 2);
    let (sel, r, c) = if fixed == 255 { sym_point(&g) } else { point_at(&g, fixed) };
    sym::assume(at(&b, &sel) == 0);
    let p = play(&b, &sel, turn);
    let nosuicide = sym::boolean();
    sym::assume(!(p.suicide & nosuicide));
    let f = if nosuicide { IllegalRules::SUICIDE.bits() } else { 0 };
    let mut game = game_on(gb, turn, rule(f, 0, 0.0));
    game.play(Move::Play(r, c));
    sym::cover(p.captured > 0, 1);
    sym::cover(p.suicide, 2);
    if sym::case(9) == 0 {
        check_listing(&game, &p.after, &g, 10);
    } else {
        check_ids(&game, &p.after, &g, 20);
    }
}
/// The same inside a game.   cases: scene, part
pub fn after_game() {
    let sc = scene(0);
    sym::cover(sc.caps, 1);
    sym::cover(sc.suis, 2);
    if sym::case(sc.k) == 0 {
        check_listing(&sc.game, &sc.s.b, &sc.g, 10);
    } else {
        check_ids(&sc.game, &sc.s.b, &sc.g, 20);
    }
}
