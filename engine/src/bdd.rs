//! Reduced ordered binary decision diagrams with complement edges.
//! Used to keep path conditions and guards canonical during execution.

pub type Edge = u32;
pub const ONE: Edge = 0;
pub const ZERO: Edge = 1;
pub const NONE: Edge = u32::MAX;

#[derive(Clone, Copy)]
struct N {
    var: u32,
    lo: Edge,
    hi: Edge,
}
const FREE: u32 = u32::MAX - 1;
const TERM: u32 = u32::MAX;

pub struct Bdd {
    n: Vec<N>,
    tab: Vec<u32>,
    used: usize,
    free: Vec<u32>,
    cache: Vec<(Edge, Edge, Edge)>,
    pub budget: u64,
    created: u64,
    pub ops: u64,
    pub aborts: u64,
    pub peak: usize,
    pub gcs: u64,
}

#[inline]
fn hash3(a: u32, b: u32, c: u32) -> u64 {
    let x = (a as u64).wrapping_mul(0x9E3779B97F4A7C15)
        ^ (b as u64).wrapping_mul(0xC2B2AE3D27D4EB4F)
        ^ (c as u64).wrapping_mul(0x165667B19E3779F9);
    x ^ (x >> 29) ^ (x >> 47)
}

impl Bdd {
    pub fn new() -> Bdd {
        Bdd {
            n: vec![N { var: TERM, lo: 0, hi: 0 }],
            tab: vec![0; 1 << 16],
            used: 0,
            free: vec![],
            cache: vec![(NONE, NONE, NONE); 1 << 18],
            budget: 2_000_000,
            created: 0,
            ops: 0,
            aborts: 0,
            peak: 0,
            gcs: 0,
        }
    }
    pub fn live(&self) -> usize {
        self.n.len() - self.free.len()
    }
    fn grow(&mut self) {
        let n = self.tab.len() * 2;
        self.tab = vec![0; n];
        for i in 1..self.n.len() {
            let x = self.n[i];
            if x.var != FREE {
                self.ins(i as u32, x);
            }
        }
        if self.cache.len() < n && self.cache.len() < 1 << 23 {
            self.cache = vec![(NONE, NONE, NONE); (self.cache.len() * 2).min(1 << 23)];
        }
    }
    fn ins(&mut self, i: u32, x: N) {
        let m = self.tab.len() - 1;
        let mut h = hash3(x.var, x.lo, x.hi) as usize & m;
        while self.tab[h] != 0 {
            h = (h + 1) & m;
        }
        self.tab[h] = i;
    }
    fn mk(&mut self, var: u32, lo: Edge, hi: Edge) -> Edge {
        if lo == hi {
            return lo;
        }
        // hi edge is regular
        let (lo, hi, c) = if hi & 1 == 1 { (lo ^ 1, hi ^ 1, 1) } else { (lo, hi, 0) };
        let m = self.tab.len() - 1;
        let mut h = hash3(var, lo, hi) as usize & m;
        loop {
            let i = self.tab[h];
            if i == 0 {
                break;
            }
            let x = &self.n[i as usize];
            if x.var == var && x.lo == lo && x.hi == hi {
                return (i << 1) | c;
            }
            h = (h + 1) & m;
        }
        self.created += 1;
        let x = N { var, lo, hi };
        let i = if let Some(i) = self.free.pop() {
            self.n[i as usize] = x;
            i
        } else {
            self.n.push(x);
            self.n.len() as u32 - 1
        };
        self.tab[h] = i;
        self.used += 1;
        self.peak = self.peak.max(self.used);
        if self.used * 2 > self.tab.len() {
            self.grow();
        }
        (i << 1) | c
    }
    pub fn var(&mut self, v: u32) -> Edge {
        self.mk(v, ZERO, ONE)
    }
    #[inline]
    fn top(&self, e: Edge) -> u32 {
        self.n[(e >> 1) as usize].var
    }
    #[inline]
    fn cof(&self, e: Edge, v: u32) -> (Edge, Edge) {
        let x = &self.n[(e >> 1) as usize];
        if x.var == v {
            (x.lo ^ (e & 1), x.hi ^ (e & 1))
        } else {
            (e, e)
        }
    }
    pub fn and(&mut self, f: Edge, g: Edge) -> Option<Edge> {
        self.ops += 1;
        self.created = 0;
        let r = self.and_rec(f, g);
        if r.is_none() {
            self.aborts += 1;
        }
        r
    }
    fn and_rec(&mut self, f: Edge, g: Edge) -> Option<Edge> {
        if f == ZERO || g == ZERO || f == g ^ 1 {
            return Some(ZERO);
        }
        if f == ONE || f == g {
            return Some(g);
        }
        if g == ONE {
            return Some(f);
        }
        let (f, g) = if f < g { (f, g) } else { (g, f) };
        let h = hash3(f, g, 7) as usize & (self.cache.len() - 1);
        let c = self.cache[h];
        if c.0 == f && c.1 == g {
            return Some(c.2);
        }
        if self.created > self.budget {
            return None;
        }
        let v = self.top(f).min(self.top(g));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let lo = self.and_rec(f0, g0)?;
        let hi = self.and_rec(f1, g1)?;
        let r = self.mk(v, lo, hi);
        let h = hash3(f, g, 7) as usize & (self.cache.len() - 1);
        self.cache[h] = (f, g, r);
        Some(r)
    }
    /// one satisfying path: (var, value)
    pub fn path(&self, mut e: Edge, rng: &mut crate::aig::Rng) -> Option<Vec<(u32, bool)>> {
        let mut out = vec![];
        if e == ZERO {
            return None;
        }
        while e != ONE {
            let v = self.top(e);
            let (lo, hi) = self.cof(e, v);
            let pick = if lo == ZERO {
                true
            } else if hi == ZERO {
                false
            } else {
                rng.below(2) == 1
            };
            out.push((v, pick));
            e = if pick { hi } else { lo };
        }
        Some(out)
    }
    pub fn gc(&mut self, roots: impl Iterator<Item = Edge>) {
        self.gcs += 1;
        let mut mark = vec![false; self.n.len()];
        mark[0] = true;
        let mut st: Vec<u32> = vec![];
        for r in roots {
            if r != NONE {
                st.push(r >> 1);
            }
        }
        while let Some(i) = st.pop() {
            let i = i as usize;
            if mark[i] {
                continue;
            }
            mark[i] = true;
            st.push(self.n[i].lo >> 1);
            st.push(self.n[i].hi >> 1);
        }
        for x in self.tab.iter_mut() {
            *x = 0;
        }
        self.free.clear();
        self.used = 0;
        for i in (1..self.n.len()).rev() {
            if mark[i] {
                let x = self.n[i];
                self.ins(i as u32, x);
                self.used += 1;
            } else {
                self.n[i].var = FREE;
                self.free.push(i as u32);
            }
        }
        for c in self.cache.iter_mut() {
            *c = (NONE, NONE, NONE);
        }
    }
}
