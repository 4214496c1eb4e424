//! The reference: the rules of Go on a plain array, written as straight-line relaxations.
use crate::sym;

pub const MAX: usize = 361;
/// check id used for "the relaxation reached its fixpoint" (a bound of the harness, not a property)
pub const BOUND: u32 = 990;

/// 0 empty, 1 black, 2 white, row-major
#[derive(Clone, Copy)]
pub struct B {
    pub h: usize,
    pub w: usize,
    /// sweeps of the relaxations
    pub k: usize,
    pub c: [u8; MAX],
}
pub type Map = [bool; MAX];

impl B {
    pub fn new(h: usize, w: usize) -> B {
        let n = h * w;
        B { h, w, k: if n <= 16 { n } else { 24 }, c: [0; MAX] }
    }
    pub fn n(&self) -> usize {
        self.h * self.w
    }
    pub fn i(&self, r: usize, c: usize) -> usize {
        r * self.w + c
    }
    pub fn eq(&self, o: &B) -> bool {
        let mut e = true;
        for p in 0..self.n() {
            e &= self.c[p] == o.c[p];
        }
        e
    }
    pub fn nb(&self, r: usize, c: usize) -> ([usize; 4], usize) {
        let mut a = [0; 4];
        let mut n = 0;
        if r > 0 {
            a[n] = self.i(r - 1, c);
            n += 1;
        }
        if r + 1 < self.h {
            a[n] = self.i(r + 1, c);
            n += 1;
        }
        if c > 0 {
            a[n] = self.i(r, c - 1);
            n += 1;
        }
        if c + 1 < self.w {
            a[n] = self.i(r, c + 1);
            n += 1;
        }
        (a, n)
    }
    /// closure of `seed` along adjacent points of equal colour
    pub fn close(&self, seed: &mut Map) {
        for it in 0..self.k {
            self.sweep(seed, it % 2 == 1);
        }
        // the bound must have been enough
        let before = *seed;
        self.sweep(seed, false);
        let mut same = true;
        for p in 0..self.n() {
            same &= before[p] == seed[p];
        }
        sym::check(same, BOUND);
    }
    fn sweep(&self, m: &mut Map, back: bool) {
        let n = self.n();
        for q in 0..n {
            let p = if back { n - 1 - q } else { q };
            let (nb, k) = self.nb(p / self.w, p % self.w);
            let mut v = m[p];
            for j in 0..k {
                v |= m[nb[j]] & (self.c[nb[j]] == self.c[p]);
            }
            m[p] = v;
        }
    }
    /// stones whose group has a liberty
    pub fn alive(&self) -> Map {
        let mut m = [false; MAX];
        for r in 0..self.h {
            for c in 0..self.w {
                let p = self.i(r, c);
                let (nb, k) = self.nb(r, c);
                let mut v = false;
                for j in 0..k {
                    v |= self.c[nb[j]] == 0;
                }
                m[p] = v & (self.c[p] != 0);
            }
        }
        self.close(&mut m);
        m
    }
    /// every group has a liberty
    pub fn legal(&self) -> bool {
        let a = self.alive();
        let mut l = true;
        for p in 0..self.n() {
            l &= a[p] | (self.c[p] == 0);
        }
        l
    }
    /// points connected to p (p a concrete index) through its colour
    pub fn group(&self, p: usize) -> Map {
        let mut m = [false; MAX];
        m[p] = true;
        self.close(&mut m);
        m
    }
    pub fn count(&self, col: u8) -> u32 {
        let mut n = 0;
        for p in 0..self.n() {
            n += (self.c[p] == col) as u32;
        }
        n
    }
}

pub struct Played {
    /// position after removing what dies; a suicidal group is removed too
    pub after: B,
    /// position before removing anything
    pub placed: B,
    pub captured: u32,
    /// stones of the mover's own group that die (0 unless suicide)
    pub own: u32,
    pub suicide: bool,
    /// the only stone captured, when captured == 1 (index)
    pub single: [bool; MAX],
}

/// `sel[p]` marks the point played (exactly one); colour `col`
pub fn play(b: &B, sel: &Map, col: u8) -> Played {
    let mut a = *b;
    let n = b.n();
    for p in 0..n {
        if sel[p] {
            a.c[p] = col;
        }
    }
    let placed = a;
    let opp = 3 - col;
    let al = a.alive();
    let mut captured = 0;
    let mut single = [false; MAX];
    for p in 0..n {
        let d = (a.c[p] == opp) & !al[p];
        captured += d as u32;
        single[p] = d;
    }
    for p in 0..n {
        if single[p] {
            a.c[p] = 0;
        }
    }
    let al = a.alive();
    let mut own = 0;
    let mut dead = [false; MAX];
    for p in 0..n {
        let d = (a.c[p] == col) & !al[p];
        own += d as u32;
        dead[p] = d;
    }
    for p in 0..n {
        if dead[p] {
            a.c[p] = 0;
        }
    }
    Played { after: a, placed, captured, own, suicide: own != 0, single }
}
