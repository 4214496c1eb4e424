//! C18: liberty sets and stone rings of groups.
use crate::sym;
use goban::pieces::group::Group;
use goban::pieces::stones::Color;

/// Any sequence of n operations on a liberty set, on points lo..=hi.   cases: lo, hi, n
pub fn liberties() {
    let (lo, hi, n) = (sym::casez(0), sym::casez(1), sym::casez(2));
    let m = hi - lo + 1;
    let mut g = Group::new(Color::White, lo);
    let mut set = [false; 361];
    sym::check(g.is_dead(), 1);
    for _ in 0..n {
        let op = sym::u8(0, 4);
        let a = sym::u16(lo as u16, hi as u16) as usize;
        let b = sym::u16(lo as u16, hi as u16) as usize;
        let (mut ina, mut inb) = (false, false);
        for p in 0..m {
            ina |= set[p] & (lo + p == a);
            inb |= set[p] & (lo + p == b);
        }
        match op {
            0 => {
                // adding is for new ones, removing for present ones
                sym::assume(!ina);
                g.add_liberty(a);
            }
            1 => {
                sym::assume(ina);
                g.remove_liberty(a);
            }
            2 => {
                g.union_liberties_slice(&[a, b]);
            }
            3 => {
                sym::assume(!ina & !inb & (a != b));
                g.add_liberties([a, b].into_iter());
            }
            _ => {
                let mut o = Group::new(Color::Black, lo);
                o.union_liberties_slice(&[a, b]);
                g.union_liberties(o.liberties);
            }
        }
        for p in 0..m {
            let is_a = lo + p == a;
            let is_b = lo + p == b;
            set[p] = match op {
                0 => set[p] | is_a,
                1 => set[p] & !is_a,
                _ => set[p] | is_a | is_b,
            };
        }
    }
    let mut cnt = 0;
    for p in 0..m {
        cnt += set[p] as usize;
        sym::check(g.contains_liberty(lo + p) == set[p], 2);
    }
    sym::check(g.number_of_liberties() == cnt, 3);
    sym::check(g.is_dead() == (cnt == 0), 4);
    sym::check(g.is_atari() == (cnt == 1), 5);
    let mut times = [0u8; 361];
    let mut from = 0;
    let l = g.liberties();
    sym::check(l.len() == cnt, 6);
    for &x in l.iter() {
        for p in 0..m {
            times[p] += (lo + p == x) as u8;
        }
        sym::check(x >= from, 7);
        from = x + 1;
    }
    for p in 0..m {
        sym::check(times[p] == set[p] as u8, 8);
    }
    sym::observe(1, cnt as u64);
    sym::cover(cnt == 0, 1);
    sym::cover(cnt > 2, 2);
}
/// Any subset of the points lo..=hi, besides f fixed points.   cases: lo, hi, f
pub fn dense() {
    let (lo, hi, f) = (sym::casez(0), sym::casez(1), sym::casez(2));
    let mut g = Group::new(Color::Black, 0);
    let mut set = [false; 361];
    let mut left = f;
    for p in 0..361 {
        if p < lo || p > hi {
            if left > 0 {
                set[p] = true;
                left -= 1;
                g.add_liberty(p);
            }
        } else {
            set[p] = sym::boolean();
            if set[p] {
                g.add_liberty(p);
            }
        }
    }
    let mut cnt = 0;
    for p in 0..361 {
        cnt += set[p] as usize;
        sym::check(g.contains_liberty(p) == set[p], 2);
    }
    sym::check(g.number_of_liberties() == cnt, 3);
    sym::check(g.is_dead() == (cnt == 0), 4);
    sym::check(g.is_atari() == (cnt == 1), 5);
    let mut at = 0;
    let l = g.liberties();
    sym::check(l.len() == cnt, 6);
    for p in 0..361 {
        if set[p] {
            sym::check(at < l.len() && l[at] == p, 8);
            at += 1;
        }
    }
    sym::observe(1, cnt as u64);
    sym::cover(cnt == f, 1);
    sym::cover(cnt > f + 1, 2);
}
/// The ring of stones of a group: any ring of k out of m stones.   cases: m, k
pub fn ring() {
    let (m, k) = (sym::casez(0), sym::casez(1));
    let mut next = vec![0u16; m];
    let mut s = [0u16; 16];
    for i in 0..k {
        s[i] = sym::u16(0, m as u16 - 1);
        for j in 0..i {
            sym::assume(s[i] != s[j]);
        }
    }
    for i in 0..k {
        next[s[i] as usize] = s[(i + 1) % k];
    }
    let mut g = Group::new(Color::Black, s[0] as usize);
    g.num_stones = k as u16;
    g.last = s[k - 1];
    let mut it = g.iter(&next);
    for i in 0..k {
        sym::check(it.size_hint() == (k - i, Some(k - i)), 1);
        sym::check(it.len() == k - i, 2);
        sym::check(it.next() == Some(s[i] as usize), 3);
    }
    sym::check(it.len() == 0, 4);
    sym::check(it.next().is_none(), 5);
    sym::check(it.next().is_none(), 6);
}
