//! And-inverter graph with structural hashing, random-simulation signatures and an embedded
//! incremental CDCL solver.  Every AND node whose signature is all-zero over the samples is
//! handed to the solver; if the solver proves it constant false the node collapses to FALSE
//! (and the fact is recorded as a *lemma* that is re-verified by an external SMT solver at the
//! end of the run).

use crate::bdd::*;
use std::collections::HashMap;

pub type Lit = u32;
pub const F: Lit = 0;
pub const T: Lit = 1;
#[inline]
pub fn neg(a: Lit) -> Lit {
    a ^ 1
}
#[inline]
pub fn node(a: Lit) -> usize {
    (a >> 1) as usize
}

/// words of random simulation
pub const RW: usize = 4;
/// words filled with solver models
pub const MW: usize = 1;
pub const W: usize = RW + MW;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

#[derive(Default)]
pub struct Stats {
    pub sat_calls: u64,
    pub sat_sat: u64,
    pub sat_unsat: u64,
    pub sat_unknown: u64,
    pub sat_time: f64,
    pub conflicts: u64,
    pub strash_hits: u64,
}

#[derive(Default, Hash, PartialEq, Eq, Clone, Copy)]
struct Pair(u32, u32);

#[derive(Default, Clone)]
pub struct FxB;
pub struct FxH(u64);
impl std::hash::BuildHasher for FxB {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        let z = self.0;
        let z = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93);
        z ^ (z >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}

pub struct Aig {
    /// children; inputs have (u32::MAX, input index)
    pub ch: Vec<(Lit, Lit)>,
    pub sig: Vec<[u64; W]>,
    pub level: Vec<u32>,
    strash: HashMap<Pair, u32, FxB>,
    pub inputs: Vec<u32>,
    pub rng: Rng,
    solver: Solver,
    /// (a,b,r): a AND b was found equivalent to r
    pub lemmas: Vec<(Lit, Lit, Lit)>,
    pub bdd: Bdd,
    pub nb: Vec<Edge>,
    canon: HashMap<u32, Lit, FxB>,
    pub gc_at: usize,
    pub use_bdd: bool,
    pub stats: Stats,
    models: Vec<Vec<bool>>,
    models_used: usize,
    known_nonzero: Vec<bool>,
    pub budget: u64,
    /// global constraints (assumptions on inputs) as literals known true
    pub semantic: bool,
    lemma_cache: HashMap<Pair, (), FxB>,
}

impl Aig {
    pub fn new(seed: u64) -> Self {
        let mut s = Aig {
            ch: vec![],
            sig: vec![],
            level: vec![],
            strash: HashMap::default(),
            inputs: vec![],
            rng: Rng(seed),
            solver: Solver::new(),
            lemmas: vec![],
            bdd: Bdd::new(),
            nb: vec![],
            canon: HashMap::default(),
            gc_at: 4_000_000,
            use_bdd: true,
            stats: Stats::default(),
            models: vec![],
            models_used: 0,
            known_nonzero: vec![],
            budget: 3000,
            semantic: true,
            lemma_cache: HashMap::default(),
        };
        // node 0 = const false
        s.ch.push((u32::MAX, u32::MAX));
        s.sig.push([0; W]);
        s.level.push(0);
        s.known_nonzero.push(false);
        s.nb.push(ZERO);
        s
    }
    pub fn n_nodes(&self) -> usize {
        self.ch.len()
    }
    pub fn is_input(&self, n: usize) -> bool {
        self.ch[n].0 == u32::MAX
    }
    /// new input with per-sample values given by a closure over the random words
    pub fn input(&mut self, words: [u64; RW]) -> Lit {
        let idx = self.inputs.len() as u32;
        let n = self.ch.len() as u32;
        self.ch.push((u32::MAX, idx));
        let mut sig = [0u64; W];
        sig[..RW].copy_from_slice(&words);
        // model slots: replay stored models is impossible for a fresh input -> random
        for i in 0..MW {
            sig[RW + i] = self.rng.next();
        }
        self.sig.push(sig);
        self.level.push(0);
        self.known_nonzero.push(true);
        self.inputs.push(n);
        let e = if self.use_bdd { self.bdd.var(idx) } else { NONE };
        self.nb.push(e);
        if e != NONE {
            self.canon.insert(e >> 1, (n << 1) ^ (e & 1));
        }
        n << 1
    }
    #[inline]
    fn sw(&self, l: Lit, i: usize) -> u64 {
        let v = self.sig[node(l)][i];
        if l & 1 == 1 {
            !v
        } else {
            v
        }
    }
    pub fn sample(&self, l: Lit, bit: usize) -> bool {
        (self.sw(l, bit / 64) >> (bit % 64)) & 1 == 1
    }
    fn conj_leaves(&self, l: Lit, out: &mut [Lit; 12], n: &mut usize, depth: u32) {
        if *n >= 12 {
            return;
        }
        if depth == 0 || l & 1 == 1 || self.is_input(node(l)) {
            out[*n] = l;
            *n += 1;
            return;
        }
        let (a, b) = self.ch[node(l)];
        out[*n] = l;
        *n += 1;
        self.conj_leaves(a, out, n, depth - 1);
        self.conj_leaves(b, out, n, depth - 1);
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == F {
            return F;
        }
        if a == T {
            return b;
        }
        if a == b {
            return a;
        }
        if a == neg(b) {
            return F;
        }
        if let Some(&n) = self.strash.get(&Pair(a, b)) {
            self.stats.strash_hits += 1;
            return n;
        }
        let r = self.and_inner(a, b);
        self.strash.insert(Pair(a, b), r);
        r
    }
    #[inline]
    pub fn edge(&self, l: Lit) -> Edge {
        let e = self.nb[node(l)];
        if e == NONE {
            NONE
        } else {
            e ^ (l & 1)
        }
    }
    fn and_bdd(&mut self, a: Lit, b: Lit) -> Option<Lit> {
        let (ea, eb) = (self.edge(a), self.edge(b));
        if ea == NONE || eb == NONE {
            return None;
        }
        if self.bdd.live() > self.gc_at {
            let roots: Vec<Edge> = self.nb.clone();
            self.bdd.gc(roots.into_iter());
            self.gc_at = (self.bdd.live() * 2).max(4_000_000);
        }
        let r = self.bdd.and(ea, eb)?;
        let l = if r == ZERO {
            F
        } else if r == ea {
            a
        } else if r == eb {
            b
        } else if let Some(&l) = self.canon.get(&(r >> 1)) {
            l ^ (r & 1)
        } else {
            let n = self.push_node(a, b, r);
            // canonical literal for the regular edge
            self.canon.insert(r >> 1, n ^ (r & 1));
            return Some(n);
        };
        self.lemmas.push((a, b, l));
        Some(l)
    }
    fn push_node(&mut self, a: Lit, b: Lit, e: Edge) -> Lit {
        let mut sig = [0u64; W];
        for i in 0..W {
            sig[i] = self.sw(a, i) & self.sw(b, i);
        }
        let n = self.ch.len() as u32;
        self.ch.push((a, b));
        self.sig.push(sig);
        self.level
            .push(1 + self.level[node(a)].max(self.level[node(b)]));
        self.known_nonzero.push(true);
        self.nb.push(e);
        n << 1
    }
    fn and_inner(&mut self, a: Lit, b: Lit) -> Lit {
        if self.use_bdd {
            if let Some(r) = self.and_bdd(a, b) {
                return r;
            }
        }
        // conjunct based rules
        let mut la = [0; 12];
        let mut na = 0;
        self.conj_leaves(a, &mut la, &mut na, 3);
        let mut lb = [0; 12];
        let mut nb = 0;
        self.conj_leaves(b, &mut lb, &mut nb, 3);
        for i in 0..na {
            if la[i] == b {
                return a;
            }
            if la[i] == neg(b) {
                return F;
            }
        }
        for i in 0..nb {
            if lb[i] == a {
                return b;
            }
            if lb[i] == neg(a) {
                return F;
            }
        }
        for i in 0..na {
            for j in 0..nb {
                if la[i] == neg(lb[j]) {
                    return F;
                }
            }
        }
        // negated AND rules: a = !(x&y)
        for (p, q, lq, nq) in [(a, b, &lb, nb), (b, a, &la, na)] {
            if p & 1 == 1 && !self.is_input(node(p)) && node(p) != 0 {
                let (x, y) = self.ch[node(p)];
                for i in 0..nq {
                    // q implies l
                    let l = lq[i];
                    if l == neg(x) || l == neg(y) {
                        return q; // q -> !x -> p
                    }
                }
                for i in 0..nq {
                    let l = lq[i];
                    if l == x {
                        return self.and(q, neg(y));
                    }
                    if l == y {
                        return self.and(q, neg(x));
                    }
                }
            }
        }
        // !(x&y) & !(x&!y) = !x
        if a & 1 == 1 && b & 1 == 1 && !self.is_input(node(a)) && !self.is_input(node(b)) {
            let (x, y) = self.ch[node(a)];
            let (u, v) = self.ch[node(b)];
            if x == u && y == neg(v) || x == v && y == neg(u) {
                return neg(x);
            }
            if y == u && x == neg(v) || y == v && x == neg(u) {
                return neg(y);
            }
        }
        let mut sig = [0u64; W];
        let mut any = 0u64;
        let mut same_a = true;
        let mut same_b = true;
        for i in 0..W {
            let sa = self.sw(a, i);
            let sb = self.sw(b, i);
            let s = sa & sb;
            sig[i] = s;
            any |= s;
            same_a &= s == sa;
            same_b &= s == sb;
        }
        if self.semantic {
            if any == 0 {
                match self.solve(&[a, b]) {
                    Some(false) => {
                        self.lemmas.push((a, b, F));
                        return F;
                    }
                    _ => {}
                }
            } else if same_a {
                // a -> b ?  i.e. a & !b == F
                if self.and_is_false(a, neg(b)) {
                    return a;
                }
            } else if same_b {
                if self.and_is_false(b, neg(a)) {
                    return b;
                }
            }
        }
        let n = self.ch.len() as u32;
        self.ch.push((a, b));
        self.sig.push(sig);
        self.level
            .push(1 + self.level[node(a)].max(self.level[node(b)]));
        self.known_nonzero.push(any != 0);
        self.nb.push(NONE);
        if self.models.len() >= 64 {
            self.fold_models();
        }
        n << 1
    }
    fn and_is_false(&mut self, a: Lit, b: Lit) -> bool {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if let Some(&r) = self.strash.get(&Pair(a, b)) {
            return r == F;
        }
        if self.lemma_cache.contains_key(&Pair(a, b)) {
            return false;
        }
        match self.solve(&[a, b]) {
            Some(false) => {
                self.lemmas.push((a, b, F));
                self.strash.insert(Pair(a, b), F);
                true
            }
            _ => {
                self.lemma_cache.insert(Pair(a, b), ());
                false
            }
        }
    }
    fn fold_models(&mut self) {
        // write 64 models in one word slot (round robin) and resimulate that word
        let slot = RW + (self.models_used % MW);
        self.models_used += 1;
        let models = std::mem::take(&mut self.models);
        for (k, &n) in self.inputs.iter().enumerate() {
            let mut w = self.sig[n as usize][slot];
            for (b, m) in models.iter().enumerate().take(64) {
                if k < m.len() {
                    if m[k] {
                        w |= 1 << b;
                    } else {
                        w &= !(1 << b);
                    }
                }
            }
            self.sig[n as usize][slot] = w;
        }
        for n in 1..self.ch.len() {
            if self.is_input(n) {
                continue;
            }
            let (a, b) = self.ch[n];
            let v = self.sw(a, slot) & self.sw(b, slot);
            self.sig[n][slot] = v;
        }
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        if a == T {
            return neg(b);
        }
        if b == T {
            return neg(a);
        }
        if a == b {
            return F;
        }
        if a == neg(b) {
            return T;
        }
        let x = self.and(a, neg(b));
        let y = self.and(neg(a), b);
        self.or(x, y)
    }
    pub fn ite(&mut self, s: Lit, a: Lit, b: Lit) -> Lit {
        if s == T || a == b {
            return a;
        }
        if s == F {
            return b;
        }
        if a == T {
            return self.or(s, b);
        }
        if a == F {
            return self.and(neg(s), b);
        }
        if b == T {
            return self.or(neg(s), a);
        }
        if b == F {
            return self.and(s, a);
        }
        if a == neg(b) {
            return neg(self.xor(s, a));
        }
        let x = self.and(s, a);
        let y = self.and(neg(s), b);
        self.or(x, y)
    }
    pub fn or_many(&mut self, v: &[Lit]) -> Lit {
        match v.len() {
            0 => F,
            1 => v[0],
            n => {
                let l = self.or_many(&v[..n / 2]);
                let r = self.or_many(&v[n / 2..]);
                self.or(l, r)
            }
        }
    }
    pub fn and_many(&mut self, v: &[Lit]) -> Lit {
        let mut r = T;
        for &x in v {
            r = self.and(r, x);
        }
        r
    }
    /// is the conjunction satisfiable?  None = budget exhausted.
    pub fn solve(&mut self, lits: &[Lit]) -> Option<bool> {
        let t = std::time::Instant::now();
        self.stats.sat_calls += 1;
        let r = self.solver.solve(&self.ch, lits, self.budget);
        self.stats.conflicts += self.solver.last_conflicts;
        self.stats.sat_time += t.elapsed().as_secs_f64();
        match r {
            Some(true) => {
                self.stats.sat_sat += 1;
                let m: Vec<bool> = self
                    .inputs
                    .iter()
                    .map(|&n| self.solver.model_value(n))
                    .collect();
                self.models.push(m);
            }
            Some(false) => self.stats.sat_unsat += 1,
            None => self.stats.sat_unknown += 1,
        }
        r
    }
    pub fn last_model(&self) -> Option<&Vec<bool>> {
        self.models.last()
    }
    /// evaluate under an input assignment; memo is reused across calls (reset by caller)
    pub fn eval_all(&self, inp: &[bool]) -> Vec<bool> {
        let mut v = vec![false; self.ch.len()];
        for n in 1..self.ch.len() {
            if self.is_input(n) {
                v[n] = inp[self.ch[n].1 as usize];
            } else {
                let (a, b) = self.ch[n];
                let x = v[node(a)] ^ (a & 1 == 1);
                let y = v[node(b)] ^ (b & 1 == 1);
                v[n] = x && y;
            }
        }
        v
    }
}

// ---------------------------------------------------------------------------------------------
// CDCL over AIG nodes.  Solver variables are AIG node indices.

struct Clause {
    lits: Vec<Lit>,
    learnt: bool,
    act: f32,
}

struct Solver {
    clauses: Vec<Clause>,
    watches: Vec<Vec<(u32, Lit)>>, // by literal (false literal) : (clause, blocker)
    assign: Vec<u8>,               // 0 unassigned 1 true(lit pos) 2 false
    level: Vec<u32>,
    reason: Vec<u32>,
    trail: Vec<Lit>,
    trail_lim: Vec<usize>,
    qhead: usize,
    encoded: Vec<bool>,
    activity: Vec<f64>,
    var_inc: f64,
    phase: Vec<bool>,
    cone_mark: Vec<u32>,
    cone_gen: u32,
    heap: Vec<u32>,
    heap_pos: Vec<i32>,
    seen: Vec<bool>,
    model: Vec<u8>,
    last_conflicts: u64,
    n_learnt: usize,
    bad: bool,
}
const NOREASON: u32 = u32::MAX;

impl Solver {
    fn new() -> Self {
        Solver {
            clauses: vec![],
            watches: vec![],
            assign: vec![],
            level: vec![],
            reason: vec![],
            trail: vec![],
            trail_lim: vec![],
            qhead: 0,
            encoded: vec![],
            activity: vec![],
            var_inc: 1.0,
            phase: vec![],
            cone_mark: vec![],
            cone_gen: 0,
            heap: vec![],
            heap_pos: vec![],
            seen: vec![],
            model: vec![],
            last_conflicts: 0,
            n_learnt: 0,
            bad: false,
        }
    }
    fn ensure(&mut self, n: usize) {
        if self.assign.len() < n {
            self.assign.resize(n, 0);
            self.level.resize(n, 0);
            self.reason.resize(n, NOREASON);
            self.encoded.resize(n, false);
            self.activity.resize(n, 0.0);
            self.phase.resize(n, false);
            self.cone_mark.resize(n, 0);
            self.heap_pos.resize(n, -1);
            self.seen.resize(n, false);
            self.watches.resize_with(n * 2, Vec::new);
        }
    }
    #[inline]
    fn val(&self, l: Lit) -> u8 {
        // 0 undef, 1 true, 2 false
        let a = self.assign[node(l)];
        if a == 0 {
            0
        } else if l & 1 == 1 {
            3 - a
        } else {
            a
        }
    }
    fn model_value(&self, n: u32) -> bool {
        let n = n as usize;
        n < self.model.len() && self.model[n] == 1
    }
    fn attach(&mut self, c: u32) {
        let (l0, l1) = {
            let c = &self.clauses[c as usize];
            (c.lits[0], c.lits[1])
        };
        self.watches[neg(l0) as usize].push((c, l1));
        self.watches[neg(l1) as usize].push((c, l0));
    }
    fn add_clause(&mut self, lits: Vec<Lit>) {
        // called at level 0
        let mut ls = vec![];
        for l in lits {
            match self.val(l) {
                1 => return,
                2 => {}
                _ => ls.push(l),
            }
        }
        match ls.len() {
            0 => self.bad = true,
            1 => self.enqueue(ls[0], NOREASON),
            _ => {
                let id = self.clauses.len() as u32;
                self.clauses.push(Clause {
                    lits: ls,
                    learnt: false,
                    act: 0.0,
                });
                self.attach(id);
            }
        }
    }
    fn enqueue(&mut self, l: Lit, r: u32) {
        let n = node(l);
        self.assign[n] = if l & 1 == 1 { 2 } else { 1 };
        self.level[n] = self.trail_lim.len() as u32;
        self.reason[n] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> Option<u32> {
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let mut i = 0;
            let mut j = 0;
            let mut confl = None;
            'outer: while i < ws.len() {
                let (ci, blk) = ws[i];
                i += 1;
                if self.val(blk) == 1 {
                    ws[j] = (ci, blk);
                    j += 1;
                    continue;
                }
                let np = neg(p);
                let c = &mut self.clauses[ci as usize];
                if c.lits[0] == np {
                    c.lits.swap(0, 1);
                }
                let first = c.lits[0];
                let fv = {
                    let a = self.assign[node(first)];
                    if a == 0 {
                        0
                    } else if first & 1 == 1 {
                        3 - a
                    } else {
                        a
                    }
                };
                if fv == 1 {
                    ws[j] = (ci, first);
                    j += 1;
                    continue;
                }
                for k in 2..c.lits.len() {
                    let l = c.lits[k];
                    let a = self.assign[node(l)];
                    let v = if a == 0 {
                        0
                    } else if l & 1 == 1 {
                        3 - a
                    } else {
                        a
                    };
                    if v != 2 {
                        c.lits.swap(1, k);
                        let w = neg(c.lits[1]) as usize;
                        self.watches[w].push((ci, first));
                        continue 'outer;
                    }
                }
                ws[j] = (ci, first);
                j += 1;
                if fv == 2 {
                    confl = Some(ci);
                    while i < ws.len() {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                    break;
                }
                self.enqueue(first, ci);
            }
            ws.truncate(j);
            // new watches may have been pushed on p's own list? (never: p is true)
            debug_assert!(self.watches[p as usize].is_empty());
            self.watches[p as usize] = ws;
            if confl.is_some() {
                self.qhead = self.trail.len();
                return confl;
            }
        }
        None
    }
    fn cancel(&mut self, lvl: usize) {
        if self.trail_lim.len() > lvl {
            let start = self.trail_lim[lvl];
            for i in (start..self.trail.len()).rev() {
                let l = self.trail[i];
                let n = node(l);
                self.phase[n] = l & 1 == 0;
                self.assign[n] = 0;
                if self.heap_pos[n] < 0 && self.cone_mark[n] == self.cone_gen {
                    self.heap_insert(n as u32);
                }
            }
            self.trail.truncate(start);
            self.trail_lim.truncate(lvl);
            self.qhead = start;
        }
    }
    fn heap_lt(&self, a: u32, b: u32) -> bool {
        self.activity[a as usize] > self.activity[b as usize]
    }
    fn heap_up(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) / 2;
            if self.heap_lt(x, self.heap[p]) {
                self.heap[i] = self.heap[p];
                self.heap_pos[self.heap[i] as usize] = i as i32;
                i = p;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.heap_pos[x as usize] = i as i32;
    }
    fn heap_down(&mut self, mut i: usize) {
        let x = self.heap[i];
        loop {
            let mut c = 2 * i + 1;
            if c >= self.heap.len() {
                break;
            }
            if c + 1 < self.heap.len() && self.heap_lt(self.heap[c + 1], self.heap[c]) {
                c += 1;
            }
            if self.heap_lt(self.heap[c], x) {
                self.heap[i] = self.heap[c];
                self.heap_pos[self.heap[i] as usize] = i as i32;
                i = c;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.heap_pos[x as usize] = i as i32;
    }
    fn heap_insert(&mut self, n: u32) {
        self.heap.push(n);
        let i = self.heap.len() - 1;
        self.heap_pos[n as usize] = i as i32;
        self.heap_up(i);
    }
    fn heap_pop(&mut self) -> Option<u32> {
        if self.heap.is_empty() {
            return None;
        }
        let x = self.heap[0];
        let last = self.heap.pop().unwrap();
        self.heap_pos[x as usize] = -1;
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.heap_pos[last as usize] = 0;
            self.heap_down(0);
        }
        Some(x)
    }
    fn bump(&mut self, n: usize) {
        self.activity[n] += self.var_inc;
        if self.activity[n] > 1e100 {
            for a in self.activity.iter_mut() {
                *a *= 1e-100;
            }
            self.var_inc *= 1e-100;
        }
        if self.heap_pos[n] >= 0 {
            let p = self.heap_pos[n] as usize;
            self.heap_up(p);
        }
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize) {
        let mut learnt: Vec<Lit> = vec![0];
        let mut path = 0;
        let mut p: Lit = u32::MAX;
        let mut idx = self.trail.len();
        let cur = self.trail_lim.len() as u32;
        let mut to_clear = vec![];
        loop {
            let c = confl as usize;
            if self.clauses[c].learnt {
                self.clauses[c].act += 1.0;
            }
            let start = if p == u32::MAX { 0 } else { 1 };
            for k in start..self.clauses[c].lits.len() {
                let q = self.clauses[c].lits[k];
                let n = node(q);
                if !self.seen[n] && self.level[n] > 0 {
                    self.seen[n] = true;
                    to_clear.push(n);
                    self.bump(n);
                    if self.level[n] >= cur {
                        path += 1;
                    } else {
                        learnt.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[node(self.trail[idx])] {
                    break;
                }
            }
            p = self.trail[idx];
            confl = self.reason[node(p)];
            self.seen[node(p)] = false;
            path -= 1;
            if path == 0 {
                break;
            }
            // ensure the implied literal is first in its reason clause
            let cl = &mut self.clauses[confl as usize];
            if cl.lits[0] != p {
                let pos = cl.lits.iter().position(|&l| l == p).unwrap();
                // only positions 0/1 are watched; implied literal is always at 0 by construction
                cl.lits.swap(0, pos);
            }
        }
        learnt[0] = neg(p);
        // local minimisation
        let mut out = vec![learnt[0]];
        for &l in &learnt[1..] {
            let r = self.reason[node(l)];
            let redundant = r != NOREASON
                && self.clauses[r as usize]
                    .lits
                    .iter()
                    .all(|&q| node(q) == node(l) || self.seen[node(q)] || self.level[node(q)] == 0);
            if !redundant {
                out.push(l);
            }
        }
        for n in to_clear {
            self.seen[n] = false;
        }
        let mut bt = 0;
        if out.len() > 1 {
            let mut mi = 1;
            for i in 2..out.len() {
                if self.level[node(out[i])] > self.level[node(out[mi])] {
                    mi = i;
                }
            }
            out.swap(1, mi);
            bt = self.level[node(out[1])] as usize;
        }
        (out, bt)
    }
    fn encode_cone(&mut self, ch: &[(Lit, Lit)], roots: &[Lit]) {
        self.cone_gen += 1;
        for &n in &self.heap {
            self.heap_pos[n as usize] = -1;
        }
        self.heap.clear();
        let mut stack: Vec<usize> = roots.iter().map(|&l| node(l)).collect();
        let gen = self.cone_gen;
        let mut cone = vec![];
        while let Some(n) = stack.pop() {
            if self.cone_mark[n] == gen {
                continue;
            }
            self.cone_mark[n] = gen;
            cone.push(n as u32);
            if n != 0 && ch[n].0 != u32::MAX {
                stack.push(node(ch[n].0));
                stack.push(node(ch[n].1));
            }
        }
        cone.sort_unstable();
        for &n in &cone {
            let n = n as usize;
            if !self.encoded[n] {
                self.encoded[n] = true;
                if n == 0 {
                    self.add_clause(vec![1]);
                } else if ch[n].0 != u32::MAX {
                    let (a, b) = ch[n];
                    let l = (n as u32) << 1;
                    self.add_clause(vec![neg(l), a]);
                    self.add_clause(vec![neg(l), b]);
                    self.add_clause(vec![l, neg(a), neg(b)]);
                }
            }
        }
        for &n in &cone {
            if self.assign[n as usize] == 0 {
                self.heap_insert(n);
            }
        }
    }
    fn reduce(&mut self) {
        // drop half of the learnt clauses (called at level 0)
        let mut acts: Vec<f32> = self
            .clauses
            .iter()
            .filter(|c| c.learnt && c.lits.len() > 2)
            .map(|c| c.act)
            .collect();
        if acts.is_empty() {
            return;
        }
        acts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let med = acts[acts.len() / 2];
        let old = std::mem::take(&mut self.clauses);
        for w in self.watches.iter_mut() {
            w.clear();
        }
        let mut budget = acts.len() / 2;
        self.n_learnt = 0;
        for mut c in old {
            if c.learnt && c.lits.len() > 2 && c.act <= med && budget > 0 {
                budget -= 1;
                continue;
            }
            if c.lits.iter().any(|&l| self.val(l) == 1) {
                continue;
            }
            let mut ls: Vec<Lit> = c.lits.iter().cloned().filter(|&l| self.val(l) != 2).collect();
            if ls.len() < 2 {
                // should not happen (propagated), keep safe
                if ls.len() == 1 && self.val(ls[0]) == 0 {
                    self.enqueue(ls[0], NOREASON);
                }
                continue;
            }
            std::mem::swap(&mut c.lits, &mut ls);
            c.act *= 0.5;
            if c.learnt {
                self.n_learnt += 1;
            }
            let id = self.clauses.len() as u32;
            self.clauses.push(c);
            self.attach(id);
        }
        for i in 0..self.trail.len() {
            let n = node(self.trail[i]);
            self.reason[n] = NOREASON;
        }
    }
    fn solve(&mut self, ch: &[(Lit, Lit)], assumps: &[Lit], budget: u64) -> Option<bool> {
        self.ensure(ch.len());
        self.last_conflicts = 0;
        self.cancel(0);
        self.encode_cone(ch, assumps);
        if self.propagate().is_some() || self.bad {
            self.bad = true;
            panic!("SAT core: base circuit inconsistent");
        }
        if self.n_learnt > 20000 {
            self.reduce();
            if self.propagate().is_some() {
                panic!("SAT core: inconsistent after reduce");
            }
        }
        let mut restart_lim = 100u64;
        let mut since = 0u64;
        loop {
            if let Some(c) = self.propagate() {
                self.last_conflicts += 1;
                since += 1;
                if self.trail_lim.is_empty() {
                    return Some(false);
                }
                let (learnt, bt) = self.analyze(c);
                // assumptions occupy the first levels; if backtrack goes into them it is redone
                self.cancel(bt);
                if learnt.len() == 1 {
                    self.cancel(0);
                    if self.val(learnt[0]) == 2 {
                        return Some(false);
                    }
                    if self.val(learnt[0]) == 0 {
                        self.enqueue(learnt[0], NOREASON);
                    }
                } else {
                    let id = self.clauses.len() as u32;
                    let l0 = learnt[0];
                    self.clauses.push(Clause {
                        lits: learnt,
                        learnt: true,
                        act: 1.0,
                    });
                    self.n_learnt += 1;
                    self.attach(id);
                    self.enqueue(l0, id);
                }
                self.var_inc *= 1.0 / 0.95;
                if self.last_conflicts > budget {
                    self.cancel(0);
                    return None;
                }
            } else {
                if since > restart_lim {
                    since = 0;
                    restart_lim = (restart_lim as f64 * 1.2) as u64;
                    self.cancel(0);
                    continue;
                }
                // assumptions
                let mut next = None;
                while self.trail_lim.len() < assumps.len() {
                    let a = assumps[self.trail_lim.len()];
                    match self.val(a) {
                        1 => self.trail_lim.push(self.trail.len()),
                        2 => {
                            self.cancel(0);
                            return Some(false);
                        }
                        _ => {
                            next = Some(a);
                            break;
                        }
                    }
                }
                let l = match next {
                    Some(a) => a,
                    None => {
                        let mut pick = None;
                        while let Some(n) = self.heap_pop() {
                            if self.assign[n as usize] == 0 {
                                pick = Some(n);
                                break;
                            }
                        }
                        match pick {
                            None => {
                                self.model = self.assign.clone();
                                self.cancel(0);
                                return Some(true);
                            }
                            Some(n) => {
                                (n << 1) | if self.phase[n as usize] { 0 } else { 1 }
                            }
                        }
                    }
                };
                self.trail_lim.push(self.trail.len());
                self.enqueue(l, NOREASON);
            }
        }
    }
}
