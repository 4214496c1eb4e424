//! C20: groups that do not have two eyes (feature deadstones).
#[cfg(feature = "deadstones")]
pub fn floating() {
    use crate::geom::*;
    use crate::model::*;
    use crate::sym;
    use goban::pieces::stones::Stone;
    // cases: window(8)
    let g = Win::from_cases(0);
    let (gb, b) = sym_position(&g);
    let n = b.n();
    let game = game_on(gb, 1, rule(0, 0, 0.0));
    let mut eye = [false; MAX];
    for k in 0..n {
        let (r, c) = (k / b.w, k % b.w);
        if g.background(r, c) != 0 {
            continue;
        }
        for col in 1..3 {
            eye[r * b.w + c] |= game.check_eye(Stone { coord: (r as u8, c as u8), color: color(col) });
        }
    }
    let mut listed = [0u8; MAX];
    let mut entries = 0usize;
    for id in game.get_floating_stones() {
        entries += 1;
        for s in game.chain_stones(id) {
            let i = s.coord.0 as usize * b.w + s.coord.1 as usize;
            for p in 0..n {
                listed[p] += (p == i) as u8;
            }
        }
    }
    let mut want = 0usize;
    let mut safe = false;
    // every group has a stone in the window or within two steps of it (crowded boards: anywhere)
    let near = |p: usize| {
        let (r, c) = (p / b.w, p % b.w);
        if g.bg >= 8 {
            return g.inside(r, c) || g.background(r, c) != 0;
        }
        r + 2 >= g.r0 && r < g.r0 + g.wh + 2 && c + 2 >= g.c0 && c < g.c0 + g.ww + 2 && (g.inside(r, c) || g.background(r, c) != 0)
    };
    for p in 0..n {
        if !near(p) {
            continue;
        }
        let m = b.group(p);
        let mut eyes = 0u8;
        for q in 0..n {
            if g.background(q / b.w, q % b.w) != 0 {
                continue;
            }
            let (nb, k) = b.nb(q / b.w, q % b.w);
            let mut touch = false;
            for j in 0..k {
                touch |= m[nb[j]];
            }
            eyes += (touch & eye[q]) as u8;
        }
        let floats = (b.c[p] != 0) & (eyes < 2);
        safe |= (b.c[p] != 0) & (eyes >= 2);
        sym::check(listed[p] == floats as u8, 1);
        let mut first = floats;
        for q in 0..p {
            if near(q) {
                first &= !m[q];
            }
        }
        want += first as usize;
    }
    sym::check(entries == want, 2);
    sym::cover(want > 0, 1);
    sym::cover(safe, 2);
}
#[cfg(not(feature = "deadstones"))]
pub fn floating() {}
