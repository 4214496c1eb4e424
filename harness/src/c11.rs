//! C11: territories and regions.
use crate::c10::territory;
use crate::geom::*;
use crate::model::*;
use crate::sym;
use goban::pieces::stones::Point;

/// cases: window(8)
pub fn territories() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let (tb, tw) = territory(&b);
    let n = b.n();
    let (bi, wi) = gb.get_territories();
    let mut cb = [0u8; MAX];
    let mut cw = [0u8; MAX];
    let (mut nb, mut nw) = (0usize, 0usize);
    for p in bi {
        let i = p.coord.0 as usize * b.w + p.coord.1 as usize;
        for q in 0..n {
            cb[q] += (q == i) as u8;
        }
        sym::check(p.color.is_none(), 1);
        nb += 1;
    }
    for p in wi {
        let i = p.coord.0 as usize * b.w + p.coord.1 as usize;
        for q in 0..n {
            cw[q] += (q == i) as u8;
        }
        sym::check(p.color.is_none(), 1);
        nw += 1;
    }
    for q in 0..n {
        sym::check(cb[q] == tb[q] as u8, 2);
        sym::check(cw[q] == tw[q] as u8, 3);
        sym::observe(1, tb[q] as u64);
    }
    let t = gb.calculate_territories();
    sym::check(t.0 == nb, 4);
    sym::check(t.1 == nw, 5);
    sym::cover(nb > 0, 1);
    sym::cover(nw > 0, 2);
    sym::cover((nb > 0) & (nw > 0), 3);
}
/// The region around one point (of either colour, or empty).  cases: window(8), cell
pub fn region() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let (r, c) = g.cell(sym::casez(8));
    let p = r * g.w + c;
    let want = b.group(p);
    let color = gb.get_color((r as u8, c as u8));
    let set = gb.get_group_from_point(Point { coord: (r as u8, c as u8), color });
    let mut got = [0u8; MAX];
    for x in set.iter() {
        let i = x.coord.0 as usize * b.w + x.coord.1 as usize;
        for q in 0..b.n() {
            got[q] += (q == i) as u8;
        }
        sym::check(x.color == color, 1);
    }
    for q in 0..b.n() {
        sym::check(got[q] == want[q] as u8, 2);
    }
}
/// All stones of one colour, split into groups.  cases: window(8), colour
pub fn partition() {
    let g = Win::from_cases(0);
    let (gb, b) = sym_board(&g);
    let col = sym::case(8) as u8;
    let mc = if col == 0 { None } else { Some(color(col)) };
    let list = gb.get_chains_from_stones(gb.get_stones_by_color(mc));
    let mut groups = 0usize;
    let n = b.n();
    let mut times = [0u8; MAX];
    for set in list.iter() {
        groups += 1;
        let mut got = [false; MAX];
        for x in set.iter() {
            let i = x.coord.0 as usize * b.w + x.coord.1 as usize;
            for q in 0..n {
                got[q] |= q == i;
            }
        }
        for q in 0..n {
            times[q] += got[q] as u8;
        }
        // every member's group is this set
        for q in 0..n {
            let (nb, k) = b.nb(q / b.w, q % b.w);
            for j in 0..k {
                let linked = (b.c[q] == col) & (b.c[nb[j]] == col);
                sym::check(!(got[q] & linked) | got[nb[j]], 1);
            }
        }
    }
    let mut want = 0usize;
    for q in 0..n {
        sym::check(times[q] == (b.c[q] == col) as u8, 2);
        let m = b.group(q);
        let mut first = b.c[q] == col;
        for p in 0..q {
            first &= !m[p];
        }
        want += first as usize;
    }
    sym::check(groups == want, 3);
    sym::cover(groups > 1, 1);
}
