//! Symbolic execution of the IR with state merging at every control-flow join.

use crate::aig::*;
use crate::ir::*;
use crate::mem::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Rv {
    N,
    S(Vid),
    A(Rc<[Rv]>),
}
impl Rv {
    fn s(&self) -> Vid {
        match self {
            Rv::S(v) => *v,
            x => panic!("scalar expected: {x:?}"),
        }
    }
    fn same(&self, o: &Rv) -> bool {
        match (self, o) {
            (Rv::N, Rv::N) => true,
            (Rv::S(a), Rv::S(b)) => a == b,
            (Rv::A(a), Rv::A(b)) => {
                Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y)))
            }
            _ => false,
        }
    }
}

/// path condition: stack of (conjunct, cumulative conjunction)
#[derive(Clone, Default)]
pub struct Pc {
    c: Vec<(Lit, Lit)>,
}
impl Pc {
    pub fn cum(&self) -> Lit {
        self.c.last().map_or(T, |x| x.1)
    }
    pub fn push(&mut self, g: &mut Aig, l: Lit) -> bool {
        let cur = self.cum();
        let n = g.and(cur, l);
        if n == F {
            return false;
        }
        if n != cur {
            self.c.push((l, n));
        }
        true
    }
}

pub struct St {
    pub pc: Pc,
    pub mem: Mem,
    pub regs: Vec<Rv>,
}

pub struct Check {
    pub id: u32,
    pub viol: Vec<Lit>,
    pub reached: Vec<Lit>,
}

pub struct SymIn {
    pub id: u32,
    pub w: u32,
    pub val: Vid,
}

pub struct Ex {
    pub m: Module,
    pub vs: Vals,
    ginit: HashMap<u32, Rc<Obj>>,
    next_id: u32,
    pub syms: Vec<SymIn>,
    sym_by_id: HashMap<u32, Vid>,
    pub checks: BTreeMap<u32, Check>,
    /// (path condition, negated assertion) pairs found contradictory on the spot
    pub closed: Vec<(Lit, Lit)>,
    pub covers: BTreeMap<u32, Vec<Lit>>,
    pub obs: Vec<(u32, Lit, Vid)>,
    pub oblig: BTreeMap<String, Vec<Lit>>,
    pub cases: Vec<u64>,
    pub funcs_run: BTreeMap<String, u64>,
    pub steps: u64,
    pub calls: u64,
    pub merges: u64,
    pub forks: u64,
    stack: Vec<u32>,
    pub trace: bool,
    pub step_limit: u64,
    pub deadline: Option<std::time::Instant>,
    pub grace: std::time::Duration,
    /// paths given up at the deadline
    pub cuts: Vec<(Lit, String)>,
    pub cut_all: bool,
    pub prof: HashMap<u32, (f64, u64)>,
    pub unwind_max: u64,
}

const DYN_BASE: u32 = 1 << 18;

struct Frame {
    f: Rc<Func>,
    pending: Vec<Option<St>>,
    ret: Option<(Rv, Pc, Mem)>,
    allocas: Vec<u32>,
}

impl Ex {
    pub fn new(m: Module, seed: u64) -> Ex {
        Ex {
            m,
            vs: Vals::new(seed),
            ginit: HashMap::new(),
            next_id: DYN_BASE,
            syms: vec![],
            sym_by_id: HashMap::new(),
            checks: BTreeMap::new(),
            closed: vec![],
            covers: BTreeMap::new(),
            obs: vec![],
            oblig: BTreeMap::new(),
            cases: vec![],
            funcs_run: BTreeMap::new(),
            steps: 0,
            calls: 0,
            merges: 0,
            forks: 0,
            stack: vec![],
            trace: false,
            step_limit: u64::MAX,
            deadline: None,
            grace: std::time::Duration::from_secs(10),
            cuts: vec![],
            cut_all: false,
            prof: HashMap::new(),
            unwind_max: 0,
        }
    }
    fn where_(&self) -> String {
        self.stack
            .iter()
            .rev()
            .take(4)
            .map(|&g| short(&self.m.globals[g as usize].name))
            .collect::<Vec<_>>()
            .join(" < ")
    }
    fn obligation(&mut self, kind: &str, l: Lit) {
        if l == F {
            return;
        }
        let k = format!("{kind} @ {}", self.where_());
        self.oblig.entry(k).or_default().push(l);
    }
    // ---------------------------------------------------------------- merging
    fn merge_pc(&mut self, a: &Pc, b: &Pc) -> (Lit, Pc) {
        let mut k = 0;
        while k < a.c.len() && k < b.c.len() && a.c[k] == b.c[k] {
            k += 1;
        }
        let base = if k == 0 { T } else { a.c[k - 1].1 };
        let mut sa = T;
        for x in &a.c[k..] {
            sa = self.vs.g.and(sa, x.0);
        }
        let mut sb = T;
        for x in &b.c[k..] {
            sb = self.vs.g.and(sb, x.0);
        }
        let sel = match (a.c.get(k), b.c.get(k)) {
            (Some(x), Some(y)) if x.0 == neg(y.0) => x.0,
            (Some(_), Some(_)) => {
                // prefer the simpler side
                if self.vs.g.level[node(sa)] <= self.vs.g.level[node(sb)] {
                    sa
                } else {
                    neg(sb)
                }
            }
            _ => sa,
        };
        let or = self.vs.g.or(sa, sb);
        let mut pc = Pc { c: a.c[..k].to_vec() };
        if or != T {
            let miss = self.vs.g.and(base, neg(or));
            if miss != F {
                let n = self.vs.g.and(base, or);
                pc.c.push((or, n));
            }
        }
        (sel, pc)
    }
    fn merge_rv(&mut self, sel: Lit, a: &Rv, b: &Rv) -> Rv {
        match (a, b) {
            (Rv::N, x) | (x, Rv::N) => x.clone(),
            (Rv::S(x), Rv::S(y)) => Rv::S(self.vs.ite(sel, *x, *y)),
            (Rv::A(x), Rv::A(y)) => {
                let v: Vec<Rv> = (0..x.len()).map(|i| self.merge_rv(sel, &x[i], &y[i])).collect();
                Rv::A(Rc::from(v))
            }
            _ => panic!("merge_rv"),
        }
    }
    fn merge_mem(&mut self, sel: Lit, a: &Mem, b: &Mem) -> Mem {
        let d = Mem::diff(a, b);
        let mut r = a.clone();
        for (id, x, y) in d {
            let (x, y) = if id < DYN_BASE {
                (
                    Some(x.unwrap_or_else(|| self.gobj(id))),
                    Some(y.unwrap_or_else(|| self.gobj(id))),
                )
            } else {
                (x, y)
            };
            let n = match (x, y) {
                (Some(x), Some(y)) => Some(merge_obj(&mut self.vs, sel, &x, &y)),
                (Some(x), None) => Some(x),
                (None, y) => y,
            };
            r.set(id, n);
        }
        r
    }
    fn merge_st(&mut self, a: St, b: St, live: &[u32]) -> St {
        self.merges += 1;
        let (sel, pc) = self.merge_pc(&a.pc, &b.pc);
        let mem = self.merge_mem(sel, &a.mem, &b.mem);
        let mut regs = a.regs;
        for &r in live {
            let r = r as usize;
            if !regs[r].same(&b.regs[r]) {
                let (x, y) = (regs[r].clone(), b.regs[r].clone());
                regs[r] = self.merge_rv(sel, &x, &y);
            }
        }
        St { pc, mem, regs }
    }
    // ---------------------------------------------------------------- memory
    fn gobj(&mut self, gid: u32) -> Rc<Obj> {
        if let Some(o) = self.ginit.get(&gid) {
            return o.clone();
        }
        let o = match self.m.global_init(gid) {
            Some(b) => {
                let mut o = Obj::new(b.len() as u64);
                let mut cs = vec![];
                let mut i = 0;
                while i < b.len() {
                    if i % 8 == 0 && i + 8 <= b.len() && b[i..i + 8].iter().all(|x| x.is_some()) {
                        let mut c = 0u128;
                        for k in 0..8 {
                            c |= (b[i + k].unwrap() as u128) << (8 * k);
                        }
                        let v = self.vs.c(64, c);
                        val_cells(&mut self.vs, v, &mut cs);
                        i += 8;
                    } else {
                        match b[i] {
                            Some(x) => {
                                let v = self.vs.c(8, x as u128);
                                cs.push(Cell { v, i: 0 });
                            }
                            None => cs.push(NOCELL),
                        }
                        i += 1;
                    }
                }
                o.put(0, &cs);
                o
            }
            None => Obj::new(0),
        };
        let o = Rc::new(o);
        self.ginit.insert(gid, o.clone());
        o
    }
    fn obj(&mut self, mem: &Mem, id: u32) -> Option<Rc<Obj>> {
        if let Some(o) = mem.get(id) {
            return Some(o.clone());
        }
        if (id as usize) < self.m.globals.len() {
            return Some(self.gobj(id));
        }
        None
    }
    fn addrs(&mut self, pc: &Pc, a: Vid) -> Vec<(u128, Lit)> {
        if let Some(c) = self.vs.konst(a) {
            return vec![(c, T)];
        }
        let e = match self.vs.entries(a, 4096) {
            Some(e) => e,
            None => panic!("address with too many values at {}", self.where_()),
        };
        let cum = pc.cum();
        let mut out = vec![];
        for &(c, g) in e.iter() {
            if self.vs.g.and(cum, g) != F {
                out.push((c, g));
            }
        }
        if out.len() == 1 {
            out[0].1 = T;
        }
        out
    }
    fn split(&self, a: u128, n: u64, o: Option<&Rc<Obj>>) -> Result<u64, &'static str> {
        let off = (a & ((1 << SHIFT) - 1)) as u64;
        match o {
            None => Err("invalid pointer"),
            Some(o) => {
                if off + n > o.size {
                    Err("out of bounds access")
                } else {
                    Ok(off)
                }
            }
        }
    }
    fn oid(a: u128) -> u32 {
        ((a >> SHIFT) as u32).wrapping_sub(1)
    }
    pub fn mux(&mut self, v: &[(Lit, Vid)]) -> Vid {
        let w = self.vs.w(v[0].1);
        let v: Vec<(Lit, Vid)> = {
            let x: Vec<_> = v.iter().cloned().filter(|e| !self.vs.is_undef(e.1)).collect();
            if x.is_empty() {
                return v[0].1;
            }
            x
        };
        if v.iter().all(|e| e.1 == v[0].1) {
            return v[0].1;
        }
        let cu = v.iter().all(|e| matches!(self.vs.k(e.1), K::C(_) | K::U(_)));
        if cu && w > 1 {
            let mut m: BTreeMap<u128, Vec<Lit>> = BTreeMap::new();
            for &(g, x) in &v {
                let e = self.vs.entries(x, 1 << 20).unwrap();
                for &(c, h) in e.iter() {
                    let l = self.vs.g.and(g, h);
                    if l != F {
                        m.entry(c).or_default().push(l);
                    }
                }
            }
            let lim = if w == 8 { 24 } else { U_MAX };
            if m.len() <= lim {
                let mut e = vec![];
                for (c, ls) in m {
                    let l = self.vs.g.or_many(&ls);
                    e.push((c, l));
                }
                return self.vs.union(w, e);
            }
        }
        if v.iter().any(|e| matches!(self.vs.k(e.1), K::Cat(_))) {
            let mut r = v[v.len() - 1].1;
            for &(g, x) in v[..v.len() - 1].iter().rev() {
                r = self.vs.ite(g, x, r);
            }
            return r;
        }
        let bs: Vec<Vec<Lit>> = v.iter().map(|e| self.vs.bits(e.1)).collect();
        let mut out = vec![];
        for i in 0..w as usize {
            if bs.iter().all(|b| b[i] == bs[0][i]) {
                out.push(bs[0][i]);
                continue;
            }
            let ls: Vec<Lit> = (0..v.len()).map(|k| self.vs.g.and(v[k].0, bs[k][i])).collect();
            out.push(self.vs.g.or_many(&ls));
        }
        self.vs.from_bits(out)
    }
    fn load_bytes(&mut self, st: &mut St, a: Vid, n: u64) -> Vid {
        let es = self.addrs(&st.pc, a);
        let cum = st.pc.cum();
        let mut vals = vec![];
        for &(c, g) in &es {
            let o = self.obj(&st.mem, Self::oid(c));
            match self.split(c, n, o.as_ref()) {
                Ok(off) => {
                    let cs = o.unwrap().cells(off, n);
                    let v = read_cells(&mut self.vs, &cs);
                    vals.push((g, v));
                }
                Err(k) => {
                    let l = self.vs.g.and(cum, g);
                    self.obligation(k, l);
                }
            }
        }
        if vals.is_empty() {
            return self.vs.undef(8 * n as u32);
        }
        if vals.len() == 1 {
            return vals[0].1;
        }
        self.mux(&vals)
    }
    fn load_ty(&mut self, st: &mut St, t: &Ty, a: Vid) -> Rv {
        if t.is_scalar() {
            let w = t.bits();
            let n = (w as u64 + 7) / 8;
            let v = self.load_bytes(st, a, n);
            let v = if w % 8 != 0 { self.vs.extract(v, 0, w) } else { v };
            return Rv::S(v);
        }
        let offs = t.offsets();
        let fs = t.fields();
        let mut out = vec![];
        for (o, ft) in offs.iter().zip(fs.iter()) {
            let k = self.vs.c(64, *o as u128);
            let p = self.vs.bin(Op::Add, a, k);
            out.push(self.load_ty(st, ft, p));
        }
        Rv::A(Rc::from(out))
    }
    fn store_cells(&mut self, st: &mut St, a: Vid, cs: &[Cell]) {
        let es = self.addrs(&st.pc, a);
        let cum = st.pc.cum();
        let n = cs.len() as u64;
        for &(c, g) in &es {
            let id = Self::oid(c);
            let o = self.obj(&st.mem, id);
            match self.split(c, n, o.as_ref()) {
                Ok(off) => {
                    let o = o.unwrap();
                    let new = if g == T {
                        cs.to_vec()
                    } else {
                        let old = o.cells(off, n);
                        merge_cells(&mut self.vs, g, cs, &old)
                    };
                    if st.mem.get(id).is_none() {
                        st.mem.set(id, Some(o));
                    } else {
                        drop(o);
                    }
                    st.mem.obj_mut(id).unwrap().put(off, &new);
                }
                Err(k) => {
                    let l = self.vs.g.and(cum, g);
                    self.obligation(k, l);
                }
            }
        }
    }
    fn store_ty(&mut self, st: &mut St, t: &Ty, v: &Rv, a: Vid) {
        if t.is_scalar() {
            let mut cs = vec![];
            val_cells(&mut self.vs, v.s(), &mut cs);
            self.store_cells(st, a, &cs);
            return;
        }
        if let Rv::A(fv) = v {
            let offs = t.offsets();
            let fs = t.fields();
            for i in 0..fs.len() {
                let k = self.vs.c(64, offs[i] as u128);
                let p = self.vs.bin(Op::Add, a, k);
                self.store_ty(st, &fs[i], &fv[i].clone(), p);
            }
        }
    }
    /// cells of a possibly symbolic source
    fn read_range(&mut self, st: &mut St, a: Vid, n: u64) -> Vec<Cell> {
        let es = self.addrs(&st.pc, a);
        let cum = st.pc.cum();
        let mut acc: Option<Vec<Cell>> = None;
        for &(c, g) in &es {
            let o = self.obj(&st.mem, Self::oid(c));
            // be lenient on the upper bound: lengths are over-approximated by callers
            let off = (c & ((1 << SHIFT) - 1)) as u64;
            match o {
                None => {
                    let l = self.vs.g.and(cum, g);
                    self.obligation("invalid pointer (copy source)", l);
                }
                Some(o) => {
                    let cs = o.cells(off, n);
                    acc = Some(match acc {
                        None => cs,
                        Some(old) => merge_cells(&mut self.vs, g, &cs, &old),
                    });
                }
            }
        }
        acc.unwrap_or_else(|| vec![NOCELL; n as usize])
    }
    /// possible lengths under the path condition
    fn lens(&mut self, pc: &Pc, n: Vid) -> Vec<(u64, Lit)> {
        let mut v: Vec<(u64, Lit)> =
            self.addrs(pc, n).into_iter().map(|e| (e.0 as u64, e.1)).collect();
        v.sort();
        v
    }
    fn write_range(&mut self, st: &mut St, a: Vid, cs: &[Cell], lens: &[(u64, Lit)]) {
        let es = self.addrs(&st.pc, a);
        let cum = st.pc.cum();
        for &(c, g) in &es {
            let id = Self::oid(c);
            let o = match self.obj(&st.mem, id) {
                None => {
                    let nz: Vec<Lit> = lens.iter().filter(|e| e.0 > 0).map(|e| e.1).collect();
                    let nz = self.vs.g.or_many(&nz);
                    let l = self.vs.g.and(cum, g);
                    let l = self.vs.g.and(l, nz);
                    self.obligation("invalid pointer (copy destination)", l);
                    continue;
                }
                Some(o) => o,
            };
            let off = (c & ((1 << SHIFT) - 1)) as u64;
            for &(n, h) in lens {
                if off + n > o.size && n > 0 {
                    let l = self.vs.g.and(g, h);
                    let l = self.vs.g.and(cum, l);
                    self.obligation("out of bounds copy", l);
                }
            }
            let old = o.cells(off, cs.len() as u64);
            let mut new = vec![];
            let mut at = 0usize;
            for (k, &(n, _)) in lens.iter().enumerate() {
                let n = (n as usize).min(cs.len());
                if n > at {
                    let gs: Vec<Lit> = lens[k..].iter().map(|e| e.1).collect();
                    let gl = if k == 0 { T } else { self.vs.g.or_many(&gs) };
                    let gl = if g == T { gl } else { self.vs.g.and(g, gl) };
                    new.extend(merge_cells(&mut self.vs, gl, &cs[at..n], &old[at..n]));
                    at = n;
                }
            }
            if st.mem.get(id).is_none() {
                st.mem.set(id, Some(o));
            } else {
                drop(o);
            }
            st.mem.obj_mut(id).unwrap().put(off, &new);
        }
    }
    fn alloc(&mut self, st: &mut St, n: u64, zero: bool) -> Vid {
        let id = self.next_id;
        self.next_id += 1;
        let mut o = Obj::new(n);
        if zero {
            let z = self.vs.c(8, 0);
            let cs = vec![Cell { v: z, i: 0 }; n as usize];
            o.put(0, &cs);
        }
        st.mem.set(id, Some(Rc::new(o)));
        self.vs.c(64, ((id as u128) + 1) << SHIFT)
    }
    // ---------------------------------------------------------------- operands
    fn op(&mut self, st: &St, o: &Opnd, t: &Ty) -> Rv {
        match o {
            Opnd::R(r) => {
                let v = st.regs[*r as usize].clone();
                if let Rv::N = v {
                    panic!("unset register {r} in {}", self.where_());
                }
                v
            }
            Opnd::C(c) => Rv::S(self.vs.c(t.bits(), *c)),
            Opnd::Undef => self.undef_of(t),
            Opnd::Zero => self.zero_of(t),
            Opnd::Agg(f) => {
                let v: Vec<Rv> = f.iter().map(|(t, o)| self.op(st, o, t)).collect();
                Rv::A(Rc::from(v))
            }
        }
    }
    fn undef_of(&mut self, t: &Ty) -> Rv {
        match t {
            Ty::Void | Ty::Other => Rv::N,
            t if t.is_scalar() => Rv::S(self.vs.undef(t.bits())),
            t => {
                let v: Vec<Rv> = t.fields().iter().map(|f| self.undef_of(f)).collect();
                Rv::A(Rc::from(v))
            }
        }
    }
    fn zero_of(&mut self, t: &Ty) -> Rv {
        if t.is_scalar() {
            return Rv::S(self.vs.c(t.bits(), 0));
        }
        let v: Vec<Rv> = t.fields().iter().map(|f| self.zero_of(f)).collect();
        Rv::A(Rc::from(v))
    }
    fn sc(&mut self, st: &St, o: &Opnd, w: u32) -> Vid {
        match o {
            Opnd::C(c) => self.vs.c(w, *c),
            Opnd::R(r) => match &st.regs[*r as usize] {
                Rv::S(v) => *v,
                x => panic!("register {r} = {x:?} in {}", self.where_()),
            },
            Opnd::Undef => self.vs.undef(w),
            Opnd::Zero => self.vs.c(w, 0),
            _ => panic!("scalar operand"),
        }
    }
    // ---------------------------------------------------------------- driver
    pub fn run_entry(&mut self, name: &str) -> bool {
        let g = *self
            .m
            .by_name
            .get(name)
            .unwrap_or_else(|| panic!("no harness function {name}"));
        let r = self.call_gid(g, vec![], Pc::default(), Mem::default());
        r.is_some()
    }
    fn call_gid(&mut self, g: u32, args: Vec<Rv>, pc: Pc, mem: Mem) -> Option<(Rv, Pc, Mem)> {
        let f = match self.m.func(g) {
            Some(f) => f,
            None => panic!(
                "call of undefined function {} at {}",
                self.m.globals[g as usize].name,
                self.where_()
            ),
        };
        self.calls += 1;
        *self.funcs_run.entry(f.name.clone()).or_default() += 1;
        if self.stack.len() > 400 {
            panic!("recursion too deep at {}", self.where_());
        }
        self.stack.push(g);
        let t0 = std::time::Instant::now();
        if self.trace {
            eprintln!(
                "{}{} nodes={} sat={} t={:.1} pc={}",
                " ".repeat(self.stack.len()),
                short(&f.name),
                self.vs.g.n_nodes(),
                self.vs.g.stats.sat_calls,
                self.vs.g.stats.sat_time,
                pc.c.len()
            );
        }
        let mut regs = vec![Rv::N; f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = a;
            }
        }
        let mut fr = Frame {
            pending: (0..f.blocks.len()).map(|_| None).collect(),
            f: f.clone(),
            ret: None,
            allocas: vec![],
        };
        fr.pending[0] = Some(St { pc, mem, regs });
        for w in &f.wto {
            self.comp(&mut fr, w);
        }
        self.stack.pop();
        let e = self.prof.entry(g).or_default();
        e.0 += t0.elapsed().as_secs_f64();
        e.1 += 1;
        match fr.ret {
            None => None,
            Some((v, pc, mut mem)) => {
                for a in fr.allocas {
                    mem.set(a, None);
                }
                Some((v, pc, mem))
            }
        }
    }
    fn comp(&mut self, fr: &mut Frame, w: &Wto) {
        match w {
            Wto::V(b) => {
                if let Some(st) = fr.pending[*b].take() {
                    self.block(fr, *b, st);
                }
            }
            Wto::C(h, body) => {
                let mut n = 0;
                while let Some(st) = fr.pending[*h].take() {
                    n += 1;
                    if n > 100_000 {
                        panic!("loop bound exceeded in {}", self.where_());
                    }
                    self.block(fr, *h, st);
                    for x in body {
                        self.comp(fr, x);
                    }
                }
                self.unwind_max = self.unwind_max.max(n);
            }
        }
    }
    fn goto(&mut self, fr: &mut Frame, from: usize, to: usize, mut st: St) {
        let f = fr.f.clone();
        let b = &f.blocks[to];
        if !b.phis.is_empty() {
            let vals: Vec<(u32, Rv)> = b
                .phis
                .iter()
                .map(|(d, t, inc)| {
                    let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                    (*d, self.op(&st, o, t))
                })
                .collect();
            for (d, v) in vals {
                st.regs[d as usize] = v;
            }
        }
        match fr.pending[to].take() {
            None => {
                // drop dead registers
                let mut nr = vec![Rv::N; st.regs.len()];
                for &r in &b.live_in {
                    nr[r as usize] = std::mem::replace(&mut st.regs[r as usize], Rv::N);
                }
                st.regs = nr;
                fr.pending[to] = Some(st);
            }
            Some(old) => {
                let m = self.merge_st(old, st, &b.live_in);
                fr.pending[to] = Some(m);
            }
        }
    }
    fn do_ret(&mut self, fr: &mut Frame, v: Rv, st: St) {
        fr.ret = Some(match fr.ret.take() {
            None => (v, st.pc, st.mem),
            Some((v0, pc0, mem0)) => {
                self.merges += 1;
                let (sel, pc) = self.merge_pc(&pc0, &st.pc);
                let mem = self.merge_mem(sel, &mem0, &st.mem);
                let r = self.merge_rv(sel, &v0, &v);
                (r, pc, mem)
            }
        });
    }
    fn block(&mut self, fr: &mut Frame, bi: usize, mut st: St) {
        if self.cut_all {
            return;
        }
        let f = fr.f.clone();
        let b = &f.blocks[bi];
        for (d, i) in &b.ins {
            self.steps += 1;
            if self.steps & 1023 == 0 {
                if self.steps > self.step_limit {
                    panic!("step limit");
                }
                if let Some(dl) = self.deadline {
                    if std::time::Instant::now() > dl {
                        // give up on this path (a loop that does not end is here), later on all of them
                        self.cuts.push((st.pc.cum(), self.where_()));
                        self.cut_all = self.cuts.len() > 3;
                        self.deadline = Some(std::time::Instant::now() + self.grace);
                        return;
                    }
                }
            }
            match self.ins(fr, &mut st, i) {
                Some(v) => {
                    if let Some(d) = d {
                        st.regs[*d as usize] = v;
                    }
                }
                None => return,
            }
        }
        self.steps += 1;
        match &b.term {
            Term::Br(t) | Term::Invoke(t) => self.goto(fr, bi, *t, st),
            Term::Cond(c, t, e) => {
                if t == e {
                    return self.goto(fr, bi, *t, st);
                }
                let cv = self.sc(&st, c, 1);
                if self.vs.is_undef(cv) {
                    let l = st.pc.cum();
                    if std::env::var("SYM_UNDEF").is_ok() {
                        eprintln!("UNDEF branch in block {bi} {:?}", b.name);
                    }
                    self.obligation("branch on undefined value", l);
                    return;
                }
                let l = self.vs.lit(cv);
                match l {
                    T => self.goto(fr, bi, *t, st),
                    F => self.goto(fr, bi, *e, st),
                    _ => {
                        let cum = st.pc.cum();
                        let lt = self.vs.g.and(cum, l);
                        if lt == F {
                            return self.goto(fr, bi, *e, st);
                        }
                        let le = self.vs.g.and(cum, neg(l));
                        if le == F {
                            return self.goto(fr, bi, *t, st);
                        }
                        self.forks += 1;
                        let mut pe = st.pc.clone();
                        let mut s2 = St {
                            pc: Pc::default(),
                            mem: st.mem.clone(),
                            regs: st.regs.clone(),
                        };
                        st.pc.c.push((l, lt));
                        pe.c.push((neg(l), le));
                        s2.pc = pe;
                        self.goto(fr, bi, *t, st);
                        self.goto(fr, bi, *e, s2);
                    }
                }
            }
            Term::Switch(w, c, dflt, cs) => {
                let v = self.sc(&st, c, *w);
                if let Some(k) = self.vs.konst(v) {
                    let t = cs.iter().find(|x| x.0 == k).map_or(*dflt, |x| x.1);
                    return self.goto(fr, bi, t, st);
                }
                if self.vs.is_undef(v) {
                    let l = st.pc.cum();
                    self.obligation("switch on undefined value", l);
                    return;
                }
                let mut groups: Vec<(usize, Vec<Lit>)> = vec![];
                let mut rest = T;
                for (k, t) in cs {
                    let kc = self.vs.c(*w, *k);
                    let l = self.vs.cmp(Pred::Eq, v, kc);
                    if l == F {
                        continue;
                    }
                    rest = self.vs.g.and(rest, neg(l));
                    match groups.iter_mut().find(|g| g.0 == *t) {
                        Some(g) => g.1.push(l),
                        None => groups.push((*t, vec![l])),
                    }
                }
                match groups.iter_mut().find(|g| g.0 == *dflt) {
                    Some(g) => g.1.push(rest),
                    None => groups.push((*dflt, vec![rest])),
                }
                let mut outs = vec![];
                for (t, ls) in groups {
                    let l = self.vs.g.or_many(&ls);
                    let mut pc = st.pc.clone();
                    if pc.push(&mut self.vs.g, l) {
                        outs.push((t, pc));
                    }
                }
                let n = outs.len();
                if n > 1 {
                    self.forks += 1;
                }
                let St { mem, regs, .. } = st;
                for (t, pc) in outs {
                    let s = St { pc, mem: mem.clone(), regs: regs.clone() };
                    self.goto(fr, bi, t, s);
                }
            }
            Term::Ret(v) => {
                let v = match v {
                    None => Rv::N,
                    Some((t, o)) => self.op(&st, o, t),
                };
                self.do_ret(fr, v, st);
            }
            Term::Unreachable => {
                let l = st.pc.cum();
                self.obligation("unreachable", l);
            }
        }
    }
    fn boolv(&mut self, l: Lit) -> Rv {
        Rv::S(self.vs.from_lit(l))
    }
    /// None: the state is dead
    fn ins(&mut self, fr: &mut Frame, st: &mut St, i: &Ins) -> Option<Rv> {
        Some(match i {
            Ins::Bin(o, w, a, b) => {
                let x = self.sc(st, a, *w);
                let y = self.sc(st, b, *w);
                let y = if matches!(o, Op::UDiv | Op::URem) && !self.vs.is_undef(y) {
                    // prune infeasible zero divisors
                    let z = self.vs.c(*w, 0);
                    let iz = self.vs.cmp(Pred::Eq, y, z);
                    let cum = st.pc.cum();
                    let l = self.vs.g.and(cum, iz);
                    self.obligation("division by zero", l);
                    y
                } else {
                    y
                };
                Rv::S(self.vs.bin(*o, x, y))
            }
            Ins::FBin(o, d, a, b) => {
                let w = if *d { 64 } else { 32 };
                let x = self.sc(st, a, w);
                let y = self.sc(st, b, w);
                let o = *o;
                let d = *d;
                let r = self.vs.map2(x, y, w, move |p, q| fop(o, d, p, q));
                Rv::S(r.unwrap_or_else(|| panic!("float operation over too many values")))
            }
            Ins::FNeg(d, a) => {
                let w = if *d { 64 } else { 32 };
                let x = self.sc(st, a, w);
                let m = self.vs.c(w, 1 << (w - 1));
                Rv::S(self.vs.bin(Op::Xor, x, m))
            }
            Ins::Icmp(p, t, a, b) => {
                let x = self.sc(st, a, t.bits());
                let y = self.sc(st, b, t.bits());
                if self.vs.is_undef(x) || self.vs.is_undef(y) {
                    Rv::S(self.vs.undef(1))
                } else {
                    let l = self.vs.cmp(*p, x, y);
                    self.boolv(l)
                }
            }
            Ins::Fcmp(p, d, a, b) => {
                let w = if *d { 64 } else { 32 };
                let x = self.sc(st, a, w);
                let y = self.sc(st, b, w);
                let d = *d;
                let p = p.clone();
                let r = self
                    .vs
                    .map2(x, y, 8, move |a, b| fcmp(&p, d, a, b) as u128)
                    .unwrap_or_else(|| panic!("float comparison over too many values"));
                let one = self.vs.c(8, 1);
                let l = self.vs.cmp(Pred::Eq, r, one);
                self.boolv(l)
            }
            Ins::Cast(k, t, t2, a) => {
                let x = self.sc(st, a, t.bits());
                let w = t2.bits();
                Rv::S(match k.as_str() {
                    "zext" => {
                        self.vs.zext(x, w)
                    }
                    "sext" => {
                        if self.vs.is_undef(x) {
                            self.vs.undef(w)
                        } else {
                            self.vs.sext(x, w)
                        }
                    }
                    "trunc" => self.vs.extract(x, 0, w),
                    "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                        let fw = t.bits();
                        if w == fw {
                            x
                        } else if w < fw {
                            self.vs.extract(x, 0, w)
                        } else {
                            self.vs.zext(x, w)
                        }
                    }
                    _ => {
                        let k = k.clone();
                        let fw = t.bits();
                        let src64 = *t == Ty::F64;
                        let dst64 = *t2 == Ty::F64;
                        self.vs
                            .map(x, w, move |v| fcast(&k, fw, w, src64, dst64, v))
                            .unwrap_or_else(|| panic!("float cast over too many values"))
                    }
                })
            }
            Ins::Gep(b, off, dy) => {
                let mut p = self.sc(st, b, 64);
                if *off != 0 {
                    let k = self.vs.c(64, *off as u64 as u128);
                    p = self.vs.bin(Op::Add, p, k);
                }
                for (s, w, o) in dy {
                    let x = self.sc(st, o, *w);
                    let x = if *w < 64 {
                        self.vs.sext(x, 64)
                    } else if *w > 64 {
                        self.vs.extract(x, 0, 64)
                    } else {
                        x
                    };
                    let x = match self.vs.to_union(x, U_MAX) {
                        Some(u) => u,
                        None => x,
                    };
                    let k = self.vs.c(64, *s as u128);
                    let y = self.vs.bin(Op::Mul, x, k);
                    p = self.vs.bin(Op::Add, p, y);
                }
                Rv::S(p)
            }
            Ins::Load(t, a) => {
                let a = self.sc(st, a, 64);
                self.load_ty(st, t, a)
            }
            Ins::Store(t, v, a) => {
                let v = self.op(st, v, t);
                let a = self.sc(st, a, 64);
                self.store_ty(st, t, &v, a);
                Rv::N
            }
            Ins::Alloca(n) => {
                let p = self.alloc(st, *n, false);
                let id = self.next_id - 1;
                fr.allocas.push(id);
                Rv::S(p)
            }
            Ins::Select(t, c, a, b) => {
                let cv = self.sc(st, c, 1);
                let x = self.op(st, a, t);
                let y = self.op(st, b, t);
                if self.vs.is_undef(cv) {
                    // an undefined choice between equal values is that value
                    if t.is_scalar() && x.s() == y.s() {
                        return Some(x);
                    }
                    return Some(self.undef_of(t));
                }
                let l = self.vs.lit(cv);
                match l {
                    T => x,
                    F => y,
                    _ => {
                        let cum = st.pc.cum();
                        if t.is_scalar() && (self.vs.is_undef(x.s()) || self.vs.is_undef(y.s())) {
                            return Some(if self.vs.is_undef(x.s()) { y } else { x });
                        }
                        if self.vs.g.and(cum, l) == F {
                            y
                        } else if self.vs.g.and(cum, neg(l)) == F {
                            x
                        } else {
                            self.merge_rv(l, &x, &y)
                        }
                    }
                }
            }
            Ins::Extract(a, ix) => {
                let mut v = self.op(st, a, &Ty::Void);
                for &k in ix {
                    v = match v {
                        Rv::A(f) => f[k as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                v
            }
            Ins::Insert(t, a, t2, x, ix) => {
                let v = self.op(st, a, t);
                let x = self.op(st, x, t2);
                fn ins(v: Rv, x: Rv, ix: &[u32]) -> Rv {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Rv::A(f) => {
                            let mut f = f.to_vec();
                            let k = ix[0] as usize;
                            f[k] = ins(f[k].clone(), x, &ix[1..]);
                            Rv::A(Rc::from(f))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                ins(v, x, ix)
            }
            Ins::Freeze(t, a) => {
                let v = self.op(st, a, t);
                match v {
                    Rv::S(x) if self.vs.is_undef(x) => Rv::S(self.vs.c(t.bits(), 0)),
                    v => v,
                }
            }
            Ins::Rmw(k, t, a, v) => {
                let p = self.sc(st, a, 64);
                let w = t.bits();
                let v = self.sc(st, v, w);
                let old = self.load_ty(st, t, p).s();
                let new = match k.as_str() {
                    "add" => self.vs.bin(Op::Add, old, v),
                    "sub" => self.vs.bin(Op::Sub, old, v),
                    "and" => self.vs.bin(Op::And, old, v),
                    "or" => self.vs.bin(Op::Or, old, v),
                    "xor" => self.vs.bin(Op::Xor, old, v),
                    "xchg" => v,
                    _ => panic!("atomicrmw {k}"),
                };
                self.store_ty(st, t, &Rv::S(new), p);
                Rv::S(old)
            }
            Ins::CmpXchg(t, a, e, n) => {
                let p = self.sc(st, a, 64);
                let w = t.bits();
                let e = self.sc(st, e, w);
                let n = self.sc(st, n, w);
                let old = self.load_ty(st, t, p).s();
                let l = self.vs.cmp(Pred::Eq, old, e);
                let new = self.vs.ite(l, n, old);
                self.store_ty(st, t, &Rv::S(new), p);
                let b = self.boolv(l);
                Rv::A(Rc::from(vec![Rv::S(old), b]))
            }
            Ins::Nop => Rv::N,
            Ins::Unsupported(s) => {
                panic!("unsupported instruction reached: {s} in {}", self.where_())
            }
            Ins::Call(c, args, ret, noret) => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args {
                    av.push(self.op(st, o, t));
                }
                match c {
                    Callee::Direct(g) => return self.call(st, *g, av, ret, *noret),
                    Callee::Indirect(o) => {
                        let p = self.sc(st, o, 64);
                        let es = self.addrs(&st.pc, p);
                        let mut acc: Option<(Rv, Pc, Mem)> = None;
                        for (a, g) in es {
                            let gid = Self::oid(a);
                            if gid as usize >= self.m.globals.len() {
                                let cum = st.pc.cum();
                                let l = self.vs.g.and(cum, g);
                                self.obligation("call of invalid function pointer", l);
                                continue;
                            }
                            let mut s2 = St { pc: st.pc.clone(), mem: st.mem.clone(), regs: vec![] };
                            if !s2.pc.push(&mut self.vs.g, g) {
                                continue;
                            }
                            if let Some(v) = self.call(&mut s2, gid, av.clone(), ret, *noret) {
                                acc = Some(match acc {
                                    None => (v, s2.pc, s2.mem),
                                    Some((v0, p0, m0)) => {
                                        let (sel, pc) = self.merge_pc(&p0, &s2.pc);
                                        let mem = self.merge_mem(sel, &m0, &s2.mem);
                                        (self.merge_rv(sel, &v0, &v), pc, mem)
                                    }
                                });
                            }
                        }
                        let (v, pc, mem) = acc?;
                        st.pc = pc;
                        st.mem = mem;
                        v
                    }
                }
            }
        })
    }
    fn call(&mut self, st: &mut St, g: u32, a: Vec<Rv>, ret: &Ty, noret: bool) -> Option<Rv> {
        let name = self.m.globals[g as usize].name.clone();
        if let Some(r) = self.builtin(st, &name, &a, ret) {
            return r;
        }
        if noret || self.m.globals[g as usize].noreturn {
            let l = st.pc.cum();
            self.obligation(&format!("panic:{}", short(&name)), l);
            return None;
        }
        let pc = std::mem::take(&mut st.pc);
        let mem = std::mem::take(&mut st.mem);
        let (v, pc, mem) = self.call_gid(g, a, pc, mem)?;
        st.pc = pc;
        st.mem = mem;
        Some(v)
    }
    fn sym(&mut self, id: u32, w: u32, dom: Option<(u64, u64)>) -> Vid {
        if let Some(&v) = self.sym_by_id.get(&id) {
            return v;
        }
        let v = match dom {
            None => {
                let mut b = vec![];
                for _ in 0..w {
                    let ws = std::array::from_fn(|_| self.vs.g.rng.next());
                    b.push(self.vs.g.input(ws));
                }
                self.vs.from_bits(b)
            }
            Some((lo, hi)) => {
                let mut e = vec![];
                self.tree(lo, hi, T, &mut e);
                self.vs.union(w, e)
            }
        };
        self.sym_by_id.insert(id, v);
        self.syms.push(SymIn { id, w, val: v });
        v
    }
    fn tree(&mut self, lo: u64, hi: u64, g: Lit, e: &mut Vec<(u128, Lit)>) {
        if lo == hi {
            e.push((lo as u128, g));
            return;
        }
        let n = hi - lo + 1;
        let left = n / 2;
        // bias the random words so leaves are near uniform
        let ws: [u64; RW] = std::array::from_fn(|_| {
            let mut w = 0u64;
            for b in 0..64 {
                if self.vs.g.rng.below(n) >= left {
                    w |= 1 << b;
                }
            }
            w
        });
        let i = self.vs.g.input(ws);
        let l = self.vs.g.and(g, neg(i));
        let r = self.vs.g.and(g, i);
        self.tree(lo, lo + left - 1, l, e);
        self.tree(lo + left, hi, r, e);
    }
    fn kst(&self, r: &Rv) -> u64 {
        match self.vs.konst(r.s()) {
            Some(k) => k as u64,
            None => panic!("constant argument expected at {}", self.where_()),
        }
    }
    /// the ids a check may have (the compiler merges calls that differ in the id only), each with its path condition
    fn ids(&mut self, st: &St, r: &Rv) -> Vec<(u32, Lit)> {
        let cum = st.pc.cum();
        if let Some(k) = self.vs.konst(r.s()) {
            return vec![(k as u32, cum)];
        }
        let es = self.lens(&st.pc, r.s());
        let mut v = vec![];
        for (k, g) in es {
            let l = self.vs.g.and(cum, g);
            if l != F {
                v.push((k as u32, l));
            }
        }
        v
    }
    /// Some(r): handled
    fn builtin(&mut self, st: &mut St, name: &str, a: &[Rv], ret: &Ty) -> Option<Option<Rv>> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return Some(Some(self.intrinsic(st, n, a, ret)));
        }
        let r = match name {
            "sym_u8" | "sym_u16" | "sym_u32" | "sym_u64" => {
                let w = ret.bits();
                let id = self.kst(&a[0]) as u32;
                let lo = self.kst(&a[1]);
                let hi = self.kst(&a[2]);
                let full = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let dom = if lo == 0 && hi == full { None } else { Some((lo, hi)) };
                Rv::S(self.sym(id, w, dom))
            }
            "sym_assume" => {
                let l = self.vs.lit(a[0].s());
                if !st.pc.push(&mut self.vs.g, l) {
                    return Some(None);
                }
                Rv::N
            }
            "sym_check" => {
                for (id, cum) in self.ids(st, &a[1]) {
                    if self.vs.is_undef(a[0].s()) {
                        self.obligation("check of undefined value", cum);
                        continue;
                    }
                    let l = self.vs.lit(a[0].s());
                    let v = self.vs.g.and(cum, neg(l));
                    let c = self
                        .checks
                        .entry(id)
                        .or_insert(Check { id, viol: vec![], reached: vec![] });
                    if v != F {
                        c.viol.push(v);
                    } else if l != T {
                        self.closed.push((cum, neg(l)));
                    }
                    if c.reached.last() != Some(&cum) {
                        c.reached.push(cum);
                    }
                }
                Rv::N
            }
            "sym_cover" => {
                for (id, cum) in self.ids(st, &a[1]) {
                    let l = self.vs.lit(a[0].s());
                    let v = self.vs.g.and(cum, l);
                    let e = self.covers.entry(id).or_default();
                    if v != F {
                        e.push(v);
                    }
                }
                Rv::N
            }
            "sym_observe" => {
                for (id, cum) in self.ids(st, &a[0]) {
                    self.obs.push((id, cum, a[1].s()));
                }
                Rv::N
            }
            "sym_case" => {
                let k = self.kst(&a[0]) as usize;
                let w = ret.bits();
                let x = *self.cases.get(k).unwrap_or_else(|| panic!("missing --case {k}"));
                Rv::S(self.vs.c(w, x as u128))
            }
            "sym_log" => {
                let k = a[0].s();
                eprintln!(
                    "LOG {:?} nodes={} sat={} sat_t={:.2} merges={} steps={}",
                    self.vs.konst(k),
                    self.vs.g.n_nodes(),
                    self.vs.g.stats.sat_calls,
                    self.vs.g.stats.sat_time,
                    self.merges,
                    self.steps
                );
                Rv::N
            }
            // concretise a value into a union when it is small enough (identity semantically)
            "memcpy" | "memmove" => {
                self.memcpy(st, a[0].s(), a[1].s(), a[2].s());
                a[0].clone()
            }
            "memset" => {
                self.memset(st, a[0].s(), a[1].s(), a[2].s());
                a[0].clone()
            }
            "bcmp" | "memcmp" => {
                let ls = self.lens(&st.pc, a[2].s());
                let max = ls.last().unwrap().0;
                let x = self.read_range(st, a[0].s(), max);
                let y = self.read_range(st, a[1].s(), max);
                let one = self.vs.c(32, 1);
                let m1 = self.vs.c(32, 0xffff_ffff);
                let zero = self.vs.c(32, 0);
                let mut res = zero;
                for i in (0..max as usize).rev() {
                    // is this byte inside the length?
                    let gs: Vec<Lit> =
                        ls.iter().filter(|e| e.0 > i as u64).map(|e| e.1).collect();
                    let ing = if gs.len() == ls.len() { T } else { self.vs.g.or_many(&gs) };
                    let p = read_cells(&mut self.vs, &x[i..i + 1]);
                    let q = read_cells(&mut self.vs, &y[i..i + 1]);
                    if p == q {
                        continue;
                    }
                    let eq = self.vs.cmp(Pred::Eq, p, q);
                    let eq = {
                        let n = self.vs.g.and(ing, neg(eq));
                        neg(n)
                    };
                    let nz = if name == "bcmp" {
                        one
                    } else {
                        let lt = self.vs.cmp(Pred::Ult, p, q);
                        self.vs.ite(lt, m1, one)
                    };
                    res = self.vs.ite(eq, res, nz);
                }
                Rv::S(res)
            }
            "malloc" => {
                let n = self.lens(&st.pc, a[0].s()).last().unwrap().0;
                Rv::S(self.alloc(st, n, false))
            }
            "calloc" => {
                let n = self.kst(&a[0]) * self.kst(&a[1]);
                Rv::S(self.alloc(st, n, true))
            }
            "free" => Rv::N,
            "getenv" => Rv::S(self.vs.c(64, 0)),
            "roundf" | "floorf" | "ceilf" | "truncf" | "rintf" | "roundevenf" | "round" | "floor" | "ceil" | "trunc"
            | "rint" | "roundeven" => {
                let x = a[0].s();
                let w = self.vs.w(x);
                let b = if w == 32 { name.strip_suffix('f').unwrap() } else { name }.to_string();
                Rv::S(self.vs.map(x, w, move |v| funary(&b, w == 64, v)).expect("float operation over too many values"))
            }
            _ => {
                if name.ends_with("___rust_alloc") || name.ends_with("__rdl_alloc") {
                    let n = self.lens(&st.pc, a[0].s()).last().unwrap().0;
                    Rv::S(self.alloc(st, n, false))
                } else if name.ends_with("___rust_alloc_zeroed") {
                    let n = self.lens(&st.pc, a[0].s()).last().unwrap().0;
                    Rv::S(self.alloc(st, n, true))
                } else if name.ends_with("___rust_dealloc") {
                    if let Some(c) = self.vs.konst(a[0].s()) {
                        st.mem.set(Self::oid(c), None);
                    }
                    Rv::N
                } else if name.ends_with("___rust_realloc") {
                    // grows in place
                    let n = self.lens(&st.pc, a[3].s()).last().unwrap().0;
                    let es = self.addrs(&st.pc, a[0].s());
                    for (c, _) in es {
                        if let Some(o) = st.mem.obj_mut(Self::oid(c)) {
                            o.size = o.size.max(n);
                        }
                    }
                    a[0].clone()
                } else if name.contains("no_alloc_shim_is_unstable") {
                    Rv::N
                } else {
                    return None;
                }
            }
        };
        Some(Some(r))
    }
    fn memcpy(&mut self, st: &mut St, d: Vid, s: Vid, n: Vid) {
        let ls = self.lens(&st.pc, n);
        let max = match ls.last() {
            Some(x) => x.0,
            None => return,
        };
        if max == 0 {
            return;
        }
        if max > (1 << 20) {
            panic!("memcpy of {max} bytes at {}", self.where_());
        }
        let cs = self.read_range(st, s, max);
        self.write_range(st, d, &cs, &ls);
    }
    fn memset(&mut self, st: &mut St, d: Vid, v: Vid, n: Vid) {
        let ls = self.lens(&st.pc, n);
        let max = match ls.last() {
            Some(x) => x.0,
            None => return,
        };
        if max == 0 {
            return;
        }
        let b = self.vs.extract(v, 0, 8);
        let cs = vec![Cell { v: b, i: 0 }; max as usize];
        self.write_range(st, d, &cs, &ls);
    }
    fn intrinsic(&mut self, st: &mut St, n: &str, a: &[Rv], ret: &Ty) -> Rv {
        let base: &str = {
            let mut e = n.len();
            // strip type suffixes
            while let Some(p) = n[..e].rfind('.') {
                let suf = &n[p + 1..e];
                let is_ty = suf.starts_with('i') && suf[1..].bytes().all(|c| c.is_ascii_digit())
                    || suf.starts_with('p') && suf[1..].bytes().all(|c| c.is_ascii_digit())
                    || suf == "f32"
                    || suf == "f64";
                if is_ty {
                    e = p;
                } else {
                    break;
                }
            }
            &n[..e]
        };
        match base {
            "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" | "assume"
            | "donothing" | "prefetch" | "dbg.value" | "dbg.declare" => Rv::N,
            "memcpy" | "memmove" | "memcpy.inline" => {
                self.memcpy(st, a[0].s(), a[1].s(), a[2].s());
                Rv::N
            }
            "memset" => {
                self.memset(st, a[0].s(), a[1].s(), a[2].s());
                Rv::N
            }
            "umax" | "umin" | "smax" | "smin" => {
                let (x, y) = (a[0].s(), a[1].s());
                let l = match base {
                    "umax" => self.vs.cmp(Pred::Ugt, x, y),
                    "umin" => self.vs.cmp(Pred::Ult, x, y),
                    "smax" => self.vs.cmp(Pred::Sgt, x, y),
                    _ => self.vs.cmp(Pred::Slt, x, y),
                };
                Rv::S(self.vs.ite(l, x, y))
            }
            "abs" => {
                let x = a[0].s();
                let w = self.vs.w(x);
                let z = self.vs.c(w, 0);
                let l = self.vs.cmp(Pred::Slt, x, z);
                let n = self.vs.bin(Op::Sub, z, x);
                Rv::S(self.vs.ite(l, n, x))
            }
            "ctpop" => Rv::S(self.vs.ctpop(a[0].s())),
            "cttz" => Rv::S(self.vs.cttz(a[0].s(), false)),
            "ctlz" => Rv::S(self.vs.cttz(a[0].s(), true)),
            "bswap" => {
                let x = a[0].s();
                let w = self.vs.w(x);
                let p: Vec<Vid> = (0..w / 8).rev().map(|i| self.vs.extract(x, i * 8, 8)).collect();
                Rv::S(self.vs.cat(p))
            }
            "bitreverse" => {
                let mut b = self.vs.bits(a[0].s());
                b.reverse();
                Rv::S(self.vs.from_bits(b))
            }
            "fshl" | "fshr" => {
                let (x, y) = (a[0].s(), a[1].s());
                let w = self.vs.w(x);
                let k = (self.kst(&a[2]) as u32) % w;
                let c = self.vs.cat(vec![y, x]); // y low, x high
                let lo = if base == "fshl" { w - k } else { k };
                if base == "fshl" && k == 0 {
                    Rv::S(x)
                } else {
                    Rv::S(self.vs.extract(c, lo, w))
                }
            }
            "uadd.sat" | "usub.sat" => {
                let (x, y) = (a[0].s(), a[1].s());
                let w = self.vs.w(x);
                if base == "usub.sat" {
                    let l = self.vs.cmp(Pred::Ult, x, y);
                    let d = self.vs.bin(Op::Sub, x, y);
                    let z = self.vs.c(w, 0);
                    Rv::S(self.vs.ite(l, z, d))
                } else {
                    let s = self.vs.bin(Op::Add, x, y);
                    let l = self.vs.cmp(Pred::Ult, s, x);
                    let m = self.vs.c(w, mask(w));
                    Rv::S(self.vs.ite(l, m, s))
                }
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow"
            | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let (x, y) = (a[0].s(), a[1].s());
                let w = self.vs.w(x);
                let op = match &base[1..4] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = base.starts_with('s');
                let r = self.vs.bin(op, x, y);
                let over = match (signed, op) {
                    (false, Op::Add) => self.vs.cmp(Pred::Ult, r, x),
                    (false, Op::Sub) => self.vs.cmp(Pred::Ult, x, y),
                    _ => {
                        let ww = if op == Op::Mul { (2 * w).min(128) } else { w + 1 };
                        let (ex, ey) = if signed {
                            (self.vs.sext(x, ww), self.vs.sext(y, ww))
                        } else {
                            (self.vs.zext(x, ww), self.vs.zext(y, ww))
                        };
                        let full = self.vs.bin(op, ex, ey);
                        let back = if signed { self.vs.sext(r, ww) } else { self.vs.zext(r, ww) };
                        neg(self.vs.cmp(Pred::Eq, full, back))
                    }
                };
                let o = self.boolv(over);
                Rv::A(Rc::from(vec![Rv::S(r), o]))
            }
            "ucmp" | "scmp" => {
                let (x, y) = (a[0].s(), a[1].s());
                let w = ret.bits();
                let lt = self.vs.cmp(if base == "ucmp" { Pred::Ult } else { Pred::Slt }, x, y);
                let eq = self.vs.cmp(Pred::Eq, x, y);
                let one = self.vs.c(w, 1);
                let zero = self.vs.c(w, 0);
                let m1 = self.vs.c(w, mask(w));
                let r = self.vs.ite(eq, zero, one);
                Rv::S(self.vs.ite(lt, m1, r))
            }
            "is.constant" => Rv::S(self.vs.c(1, 0)),
            "expect" | "threadlocal.address" | "launder.invariant.group" => a[0].clone(),
            "load.relative" => {
                let p = self.vs.bin(Op::Add, a[0].s(), a[1].s());
                let v = self.load_bytes(st, p, 4);
                let v = self.vs.sext(v, 64);
                Rv::S(self.vs.bin(Op::Add, a[0].s(), v))
            }
            "fabs" => {
                let x = a[0].s();
                let w = self.vs.w(x);
                let m = self.vs.c(w, mask(w - 1));
                let r = self.vs.map(x, w, |v| v & mask(w - 1));
                match r {
                    Some(r) => Rv::S(r),
                    None => Rv::S(self.vs.bin(Op::And, x, m)),
                }
            }
            "sqrt" | "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
                let x = a[0].s();
                let w = self.vs.w(x);
                let b = base.to_string();
                Rv::S(self.vs.map(x, w, move |v| funary(&b, w == 64, v)).expect("float operation over too many values"))
            }
            "minnum" | "maxnum" | "minimum" | "maximum" | "minimumnum" | "maximumnum" | "copysign" => {
                let (x, y) = (a[0].s(), a[1].s());
                let w = self.vs.w(x);
                let b = base.to_string();
                Rv::S(
                    self.vs
                        .map2(x, y, w, move |p, q| fbinary(&b, w == 64, p, q))
                        .expect("float operation over too many values"),
                )
            }
            "fmuladd" => {
                let w = self.vs.w(a[0].s());
                let d = w == 64;
                let m = self.vs.map2(a[0].s(), a[1].s(), w, move |p, q| fop(b'*', d, p, q));
                let r = m.and_then(|m| self.vs.map2(m, a[2].s(), w, move |p, q| fop(b'+', d, p, q)));
                Rv::S(r.expect("float operation over too many values"))
            }
            "sadd.sat" | "ssub.sat" => {
                let (x, y) = (a[0].s(), a[1].s());
                let w = self.vs.w(x);
                let op = if base == "sadd.sat" { Op::Add } else { Op::Sub };
                let r = self.vs.bin(op, x, y);
                let (ex, ey) = (self.vs.sext(x, w + 1), self.vs.sext(y, w + 1));
                let full = self.vs.bin(op, ex, ey);
                let back = self.vs.sext(r, w + 1);
                let fits = self.vs.cmp(Pred::Eq, full, back);
                let zero = self.vs.c(w + 1, 0);
                let neg_ = self.vs.cmp(Pred::Slt, full, zero);
                let lo = self.vs.c(w, 1 << (w - 1));
                let hi = self.vs.c(w, mask(w - 1));
                let sat = self.vs.ite(neg_, lo, hi);
                Rv::S(self.vs.ite(fits, r, sat))
            }
            "fptoui.sat" | "fptosi.sat" => {
                let x = a[0].s();
                let fw = self.vs.w(x);
                let w = ret.bits();
                let k = if base == "fptoui.sat" { "fptoui" } else { "fptosi" };
                let k = k.to_string();
                Rv::S(
                    self.vs
                        .map(x, w, move |v| fcast(&k, fw, w, fw == 64, false, v))
                        .expect("fpto"),
                )
            }
            "trap" => {
                let l = st.pc.cum();
                self.obligation("trap", l);
                Rv::N
            }
            _ => panic!("intrinsic llvm.{n} (base {base}) not supported, at {}", self.where_()),
        }
    }
}

fn funary(o: &str, d: bool, v: u128) -> u128 {
    // the f32 operations are exact in f64 (each result is representable in f32, or, for sqrt, rounds correctly)
    let x = if d { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
    let r = match o {
        "sqrt" => x.sqrt(),
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "trunc" => x.trunc(),
        "round" => x.round(),
        _ => x.round_ties_even(),
    };
    if d {
        r.to_bits() as u128
    } else {
        (r as f32).to_bits() as u128
    }
}
fn fbinary(o: &str, d: bool, a: u128, b: u128) -> u128 {
    let (x, y) = if d {
        (f64::from_bits(a as u64), f64::from_bits(b as u64))
    } else {
        (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
    };
    let r = match o {
        "copysign" => x.copysign(y),
        _ if x.is_nan() || y.is_nan() => {
            if o == "minimum" || o == "maximum" || (x.is_nan() && y.is_nan()) {
                f64::NAN
            } else if x.is_nan() {
                y
            } else {
                x
            }
        }
        _ if x == y => {
            let neg = if o.starts_with("min") {
                x.is_sign_negative() || y.is_sign_negative()
            } else {
                x.is_sign_negative() && y.is_sign_negative()
            };
            x.abs().copysign(if neg { -1.0 } else { 1.0 })
        }
        _ if o.starts_with("min") => x.min(y),
        _ => x.max(y),
    };
    if d {
        r.to_bits() as u128
    } else {
        (r as f32).to_bits() as u128
    }
}

fn fop(o: u8, d: bool, a: u128, b: u128) -> u128 {
    if d {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        (match o {
            b'+' => x + y,
            b'-' => x - y,
            b'*' => x * y,
            b'/' => x / y,
            _ => x % y,
        })
        .to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (match o {
            b'+' => x + y,
            b'-' => x - y,
            b'*' => x * y,
            b'/' => x / y,
            _ => x % y,
        })
        .to_bits() as u128
    }
}
fn fcmp(p: &str, d: bool, a: u128, b: u128) -> bool {
    let (x, y) = if d {
        (f64::from_bits(a as u64), f64::from_bits(b as u64))
    } else {
        (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
    };
    let un = x.is_nan() || y.is_nan();
    match p {
        "oeq" => x == y,
        "ogt" => x > y,
        "oge" => x >= y,
        "olt" => x < y,
        "ole" => x <= y,
        "one" => !un && x != y,
        "ord" => !un,
        "uno" => un,
        "ueq" => un || x == y,
        "ugt" => un || x > y,
        "uge" => un || x >= y,
        "ult" => un || x < y,
        "ule" => un || x <= y,
        "une" => un || x != y,
        "true" => true,
        _ => false,
    }
}
fn fcast(k: &str, fw: u32, w: u32, s64: bool, d64: bool, v: u128) -> u128 {
    let f = || {
        if s64 {
            f64::from_bits(v as u64)
        } else {
            f32::from_bits(v as u32) as f64
        }
    };
    match k {
        "uitofp" => {
            if d64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        "sitofp" => {
            let x = sext(v, fw);
            if d64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        "fptoui" => {
            let x = f() as u128;
            x.min(mask(w))
        }
        "fptosi" => {
            let hi = (mask(w) >> 1) as i128;
            let x = (f() as i128).clamp(-hi - 1, hi);
            x as u128 & mask(w)
        }
        "fpext" => f().to_bits() as u128,
        "fptrunc" => ((f() as f32).to_bits()) as u128,
        x => panic!("cast {x}"),
    }
}

/// readable path from a v0-mangled name
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if k > 0 && i + k <= b.len() && k < 60 && st > 0 {
                let s = &n[i..i + k];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
                    && !s.as_bytes()[0].is_ascii_digit()
                {
                    // crate disambiguators "Cs<base62>_" are consumed below
                    out.push(s.to_string());
                    i += k;
                    continue;
                }
            }
        } else if b[i] == b's' && i > 0 && (b[i - 1] == b'C' || true) {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && i > 0 && b[i - 1] == b'C' {
                i = j + 1;
                continue;
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    let keep: Vec<String> = out;
    keep.join("::")
}
