//! Interned symbolic scalar values.
//!
//! A value of width w is a constant, a *union* (finite map constant -> guard literal; under the
//! current path condition the guards are exclusive and exhaustive), a bit vector of AIG literals, a
//! concatenation of values (low part first) or undef.

use crate::aig::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Vid = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    C(u128),
    U(Rc<[(u128, Lit)]>),
    B(Rc<[Lit]>),
    Cat(Rc<[Vid]>),
    Undef,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Val {
    pub w: u32,
    pub k: K,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                0
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                0
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                0
            } else {
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
        }
        Op::SRem => {
            if b == 0 {
                0
            } else {
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1) as u32;
            (sext(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}
pub fn fcmp_int(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
    }
}

pub const U_MAX: usize = 640;

pub struct Vals {
    pub g: Aig,
    pub v: Vec<Val>,
    intern: HashMap<Val, Vid, FxB>,
    memo_bin: HashMap<(Op, Vid, Vid), Vid, FxB>,
    memo_ite: HashMap<(Lit, Vid, Vid), Vid, FxB>,
    memo_cmp: HashMap<(Pred, Vid, Vid), Lit, FxB>,
    pub undef_branches: u64,
}

/// pairs of values a division is tabulated over
const DIV_MAX: usize = 1 << 16;
impl Vals {
    pub fn new(seed: u64) -> Self {
        Vals {
            g: Aig::new(seed),
            v: vec![],
            intern: HashMap::default(),
            memo_bin: HashMap::default(),
            memo_ite: HashMap::default(),
            memo_cmp: HashMap::default(),
            undef_branches: 0,
        }
    }
    pub fn mk(&mut self, w: u32, k: K) -> Vid {
        let v = Val { w, k };
        if let Some(&i) = self.intern.get(&v) {
            return i;
        }
        let i = self.v.len() as Vid;
        self.v.push(v.clone());
        self.intern.insert(v, i);
        i
    }
    pub fn w(&self, v: Vid) -> u32 {
        self.v[v as usize].w
    }
    #[inline]
    pub fn k(&self, v: Vid) -> &K {
        &self.v[v as usize].k
    }
    pub fn c(&mut self, w: u32, x: u128) -> Vid {
        self.mk(w, K::C(x & mask(w)))
    }
    pub fn undef(&mut self, w: u32) -> Vid {
        self.mk(w, K::Undef)
    }
    pub fn konst(&self, v: Vid) -> Option<u128> {
        match self.k(v) {
            K::C(x) => Some(*x),
            _ => None,
        }
    }
    pub fn is_undef(&self, v: Vid) -> bool {
        matches!(self.k(v), K::Undef)
    }
    pub fn from_lit(&mut self, l: Lit) -> Vid {
        match l {
            F => self.c(1, 0),
            T => self.c(1, 1),
            _ => self.mk(1, K::B(Rc::from(vec![l]))),
        }
    }
    /// literal of an i1
    pub fn lit(&mut self, v: Vid) -> Lit {
        debug_assert!(self.w(v) == 1);
        match self.k(v).clone() {
            K::C(0) => F,
            K::C(_) => T,
            K::B(b) => b[0],
            K::U(u) => {
                let g: Vec<Lit> = u.iter().filter(|e| e.0 == 1).map(|e| e.1).collect();
                self.g.or_many(&g)
            }
            K::Undef => {
                self.undef_branches += 1;
                F
            }
            K::Cat(p) => self.lit(p[0]),
        }
    }
    pub fn from_bits(&mut self, b: Vec<Lit>) -> Vid {
        let w = b.len() as u32;
        let mut c = 0u128;
        let mut all = true;
        let mut var: Option<usize> = None;
        let mut single = true;
        for (i, &l) in b.iter().enumerate() {
            if l == T {
                c |= 1 << i;
            } else if l != F {
                all = false;
                match var {
                    None => var = Some(node(l)),
                    Some(n) if n == node(l) => {}
                    _ => single = false,
                }
            }
        }
        if all {
            return self.c(w, c);
        }
        if single && w > 1 {
            let x = (var.unwrap() as u32) << 1;
            let mut c1 = 0u128;
            let mut c0 = 0u128;
            for (i, &l) in b.iter().enumerate() {
                if l == T {
                    c1 |= 1 << i;
                    c0 |= 1 << i;
                } else if l == x {
                    c1 |= 1 << i;
                } else if l == neg(x) {
                    c0 |= 1 << i;
                }
            }
            return self.union(w, vec![(c1, x), (c0, neg(x))]);
        }
        self.mk(w, K::B(Rc::from(b)))
    }
    pub fn union(&mut self, w: u32, mut e: Vec<(u128, Lit)>) -> Vid {
        e.retain(|x| x.1 != F);
        e.sort_by_key(|x| x.0);
        let mut out: Vec<(u128, Lit)> = Vec::with_capacity(e.len());
        let mut i = 0;
        while i < e.len() {
            let mut j = i + 1;
            while j < e.len() && e[j].0 == e[i].0 {
                j += 1;
            }
            let l = if j == i + 1 {
                e[i].1
            } else {
                let v: Vec<Lit> = e[i..j].iter().map(|x| x.1).collect();
                self.g.or_many(&v)
            };
            if l == T {
                return self.c(w, e[i].0);
            }
            if l != F {
                out.push((e[i].0, l));
            }
            i = j;
        }
        match out.len() {
            0 => self.undef(w),
            1 => self.c(w, out[0].0),
            2 if w == 1 => {
                let l = out[1].1;
                self.from_lit(l)
            }
            n if n > U_MAX => {
                let b = self.union_bits(w, &out);
                self.mk_bits_raw(b)
            }
            _ => {
                if out.len() == 2 {
                    // canonical complementary guards
                    let (a, b) = (out[0].1, out[1].1);
                    if a != neg(b) {
                        let pick0 = self.g.level[node(a)] <= self.g.level[node(b)];
                        if pick0 {
                            out[1].1 = neg(a);
                        } else {
                            out[0].1 = neg(b);
                        }
                    }
                }
                self.mk(w, K::U(Rc::from(out)))
            }
        }
    }
    fn mk_bits_raw(&mut self, b: Vec<Lit>) -> Vid {
        self.from_bits(b)
    }
    fn union_bits(&mut self, w: u32, e: &[(u128, Lit)]) -> Vec<Lit> {
        let mut r = Vec::with_capacity(w as usize);
        for i in 0..w {
            let on: Vec<Lit> = e.iter().filter(|x| (x.0 >> i) & 1 == 1).map(|x| x.1).collect();
            let l = if on.is_empty() {
                F
            } else if on.len() == e.len() {
                T
            } else if on.len() * 2 <= e.len() {
                self.g.or_many(&on)
            } else {
                let off: Vec<Lit> =
                    e.iter().filter(|x| (x.0 >> i) & 1 == 0).map(|x| x.1).collect();
                neg(self.g.or_many(&off))
            };
            r.push(l);
        }
        r
    }
    pub fn bits(&mut self, v: Vid) -> Vec<Lit> {
        let w = self.w(v);
        match self.k(v).clone() {
            K::C(c) => (0..w).map(|i| ((c >> i) & 1) as Lit).collect(),
            K::B(b) => b.to_vec(),
            K::U(u) => self.union_bits(w, &u),
            K::Cat(p) => {
                let mut r = vec![];
                for &x in p.iter() {
                    r.extend(self.bits(x));
                }
                r
            }
            K::Undef => vec![F; w as usize],
        }
    }
    /// entries of a value as (const, guard), when possible within `lim` entries
    pub fn entries(&mut self, v: Vid, lim: usize) -> Option<Rc<[(u128, Lit)]>> {
        match self.k(v).clone() {
            K::C(c) => Some(Rc::from(vec![(c, T)])),
            K::U(u) => Some(u),
            K::Undef => Some(Rc::from(vec![(0, T)])),
            K::B(_) | K::Cat(_) => {
                let r = self.enumerate(v, lim)?;
                Some(r)
            }
        }
    }
    fn enumerate(&mut self, v: Vid, lim: usize) -> Option<Rc<[(u128, Lit)]>> {
        if let K::Cat(p) = self.k(v).clone() {
            // product of the parts
            let mut acc: Vec<(u128, Lit)> = vec![(0, T)];
            let mut sh = 0;
            for &x in p.iter() {
                let e = self.entries(x, lim)?;
                let mut nx = vec![];
                for &(c, g) in &acc {
                    for &(d, h) in e.iter() {
                        let l = self.g.and(g, h);
                        if l != F {
                            nx.push((c | (d << sh), l));
                        }
                    }
                    if nx.len() > lim {
                        return None;
                    }
                }
                sh += self.w(x);
                acc = nx;
            }
            return Some(Rc::from(acc));
        }
        let b = self.bits(v);
        let mut acc: Vec<(u128, Lit)> = vec![(0, T)];
        for (i, &l) in b.iter().enumerate().rev() {
            if l == F {
                continue;
            }
            let mut nx = Vec::with_capacity(acc.len() * 2);
            for (c, g) in acc {
                let a = self.g.and(g, l);
                if a != F {
                    nx.push((c | (1u128 << i), a));
                }
                let z = self.g.and(g, neg(l));
                if z != F {
                    nx.push((c, z));
                }
            }
            if nx.len() > lim {
                return None;
            }
            acc = nx;
        }
        acc.sort_by_key(|e| e.0);
        Some(Rc::from(acc))
    }
    pub fn to_union(&mut self, v: Vid, lim: usize) -> Option<Vid> {
        match self.k(v) {
            K::C(_) | K::U(_) => Some(v),
            _ => {
                let w = self.w(v);
                let e = self.entries(v, lim)?;
                Some(self.union(w, e.to_vec()))
            }
        }
    }
    pub fn cat(&mut self, parts: Vec<Vid>) -> Vid {
        // flatten, merge constants
        let mut out: Vec<Vid> = vec![];
        for p in parts {
            let sub: Vec<Vid> = match self.k(p).clone() {
                K::Cat(q) => q.to_vec(),
                _ => vec![p],
            };
            for s in sub {
                if let Some(&l) = out.last() {
                    let wl = self.w(l);
                    let ws = self.w(s);
                    if wl + ws <= 128 {
                        if let (Some(a), Some(b)) = (self.konst(l), self.konst(s)) {
                            let n = self.c(wl + ws, a | (b << wl));
                            *out.last_mut().unwrap() = n;
                            continue;
                        }
                        if self.is_undef(l) && self.is_undef(s) {
                            let n = self.undef(wl + ws);
                            *out.last_mut().unwrap() = n;
                            continue;
                        }
                    }
                }
                out.push(s);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        let w: u32 = out.iter().map(|&x| self.w(x)).sum();
        // U ++ const-zero  is a zero extension
        if out.len() == 2 {
            if let (K::U(u), K::C(c)) = (self.k(out[0]).clone(), self.k(out[1]).clone()) {
                let lw = self.w(out[0]);
                if w <= 128 {
                    return self.union(w, u.iter().map(|e| (e.0 | (c << lw), e.1)).collect());
                }
            }
            if let (K::C(c), K::U(u)) = (self.k(out[0]).clone(), self.k(out[1]).clone()) {
                let lw = self.w(out[0]);
                if w <= 128 {
                    return self.union(w, u.iter().map(|e| (c | (e.0 << lw), e.1)).collect());
                }
            }
        }
        if out
            .iter()
            .all(|&x| matches!(self.k(x), K::B(_) | K::C(_)))
        {
            let mut b = vec![];
            for x in out {
                b.extend(self.bits(x));
            }
            return self.from_bits(b);
        }
        self.mk(w, K::Cat(Rc::from(out)))
    }
    pub fn extract(&mut self, v: Vid, lo: u32, w: u32) -> Vid {
        let fw = self.w(v);
        if lo == 0 && w == fw {
            return v;
        }
        debug_assert!(lo + w <= fw);
        match self.k(v).clone() {
            K::C(c) => self.c(w, c >> lo),
            K::U(u) => {
                let m = mask(w);
                self.union(w, u.iter().map(|e| ((e.0 >> lo) & m, e.1)).collect())
            }
            K::B(b) => self.from_bits(b[lo as usize..(lo + w) as usize].to_vec()),
            K::Undef => self.undef(w),
            K::Cat(p) => {
                let mut off = 0;
                let mut out = vec![];
                for &x in p.iter() {
                    let xw = self.w(x);
                    let s = off.max(lo);
                    let e = (off + xw).min(lo + w);
                    if s < e {
                        let y = self.extract(x, s - off, e - s);
                        out.push(y);
                    }
                    off += xw;
                }
                self.cat(out)
            }
        }
    }
    pub fn zext(&mut self, v: Vid, w: u32) -> Vid {
        let fw = self.w(v);
        if fw == w {
            return v;
        }
        match self.k(v).clone() {
            K::C(c) => self.c(w, c),
            K::U(u) => self.mk(w, K::U(u)),
            K::B(b) => {
                let mut b = b.to_vec();
                b.resize(w as usize, F);
                self.from_bits(b)
            }
            K::Undef => {
                let z = self.c(w - fw, 0);
                self.cat(vec![v, z])
            }
            K::Cat(p) => {
                let z = self.c(w - fw, 0);
                let mut p = p.to_vec();
                p.push(z);
                self.cat(p)
            }
        }
    }
    pub fn sext(&mut self, v: Vid, w: u32) -> Vid {
        let fw = self.w(v);
        match self.k(v).clone() {
            K::C(c) => self.c(w, sext(c, fw) as u128),
            K::U(u) => {
                let m = mask(w);
                self.union(w, u.iter().map(|e| (sext(e.0, fw) as u128 & m, e.1)).collect())
            }
            K::Undef => self.c(w, 0),
            _ => {
                let mut b = self.bits(v);
                let s = *b.last().unwrap();
                b.resize(w as usize, s);
                self.from_bits(b)
            }
        }
    }
    pub fn ite(&mut self, s: Lit, a: Vid, b: Vid) -> Vid {
        if a == b || s == T {
            return a;
        }
        if s == F {
            return b;
        }
        if self.is_undef(a) {
            return b;
        }
        if self.is_undef(b) {
            return a;
        }
        let (s, a, b) = if s & 1 == 1 { (neg(s), b, a) } else { (s, a, b) };
        if let Some(&r) = self.memo_ite.get(&(s, a, b)) {
            return r;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let r = match (self.k(a).clone(), self.k(b).clone()) {
            (K::Cat(p), _) => {
                let mut off = 0;
                let mut out = vec![];
                for &x in p.iter() {
                    let xw = self.w(x);
                    let y = self.extract(b, off, xw);
                    let z = self.ite(s, x, y);
                    out.push(z);
                    off += xw;
                }
                self.cat(out)
            }
            (_, K::Cat(p)) => {
                let mut off = 0;
                let mut out = vec![];
                for &x in p.iter() {
                    let xw = self.w(x);
                    let y = self.extract(a, off, xw);
                    let z = self.ite(s, y, x);
                    out.push(z);
                    off += xw;
                }
                self.cat(out)
            }
            (K::C(_) | K::U(_), K::C(_) | K::U(_)) if w > 1 => {
                let ea = self.entries(a, 1 << 20).unwrap();
                let eb = self.entries(b, 1 << 20).unwrap();
                let mut m: std::collections::BTreeMap<u128, (Lit, Lit)> = Default::default();
                for &(c, g) in ea.iter() {
                    m.entry(c).or_insert((F, F)).0 = g;
                }
                for &(c, g) in eb.iter() {
                    m.entry(c).or_insert((F, F)).1 = g;
                }
                let lim = if w == 8 { 24 } else { U_MAX };
                if m.len() > lim {
                    let ba = self.bits(a);
                    let bb = self.bits(b);
                    let r: Vec<Lit> = (0..w as usize).map(|i| self.g.ite(s, ba[i], bb[i])).collect();
                    self.from_bits(r)
                } else {
                    let mut e = vec![];
                    for (c, (x, y)) in m {
                        let g = self.g.ite(s, x, y);
                        e.push((c, g));
                    }
                    self.union(w, e)
                }
            }
            _ => {
                let ba = self.bits(a);
                let bb = self.bits(b);
                let r: Vec<Lit> = (0..w as usize).map(|i| self.g.ite(s, ba[i], bb[i])).collect();
                self.from_bits(r)
            }
        };
        self.memo_ite.insert((s, a, b), r);
        r
    }
    fn add_bits(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.g.xor(a[i], b[i]);
            let s = self.g.xor(x, c);
            let p = self.g.and(a[i], b[i]);
            let q = self.g.and(x, c);
            c = self.g.or(p, q);
            r.push(s);
        }
        (r, c)
    }
    fn is_cu(&self, v: Vid) -> bool {
        matches!(self.k(v), K::C(_) | K::U(_) | K::Undef)
    }
    pub fn bin(&mut self, op: Op, a: Vid, b: Vid) -> Vid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // identities
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(w, fold(op, w, x, y));
        }
        if self.is_undef(a) || self.is_undef(b) {
            // undef is tracked per piece of a value: masking it away leaves nothing of it
            return match op {
                Op::And | Op::Mul if ka == Some(0) || kb == Some(0) => self.c(w, 0),
                _ => self.undef(w),
            };
        }
        match (op, ka, kb) {
            (Op::Add | Op::Or | Op::Xor, Some(0), _) => return b,
            (
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr,
                _,
                Some(0),
            ) => return a,
            (Op::And | Op::Mul, Some(0), _) => return a,
            (Op::And | Op::Mul, _, Some(0)) => return b,
            (Op::Mul, Some(1), _) => return b,
            (Op::Mul | Op::UDiv | Op::SDiv, _, Some(1)) => return a,
            (Op::And, _, Some(m)) if m == mask(w) => return a,
            (Op::And, Some(m), _) if m == mask(w) => return b,
            _ => {}
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.c(w, 0),
                _ => {}
            }
        }
        let key = (op, a, b);
        if let Some(&r) = self.memo_bin.get(&key) {
            return r;
        }
        let r = self.bin_inner(op, a, b);
        self.memo_bin.insert(key, r);
        r
    }
    fn bin_inner(&mut self, op: Op, a: Vid, b: Vid) -> Vid {
        let w = self.w(a);
        if w == 1 {
            let x = self.lit(a);
            let y = self.lit(b);
            let r = match op {
                Op::Add | Op::Sub | Op::Xor => self.g.xor(x, y),
                Op::And | Op::Mul => self.g.and(x, y),
                Op::Or => self.g.or(x, y),
                _ => panic!("i1 op {op:?}"),
            };
            return self.from_lit(r);
        }
        if self.is_cu(a) && self.is_cu(b) {
            let ea = self.entries(a, 1 << 20).unwrap();
            let eb = self.entries(b, 1 << 20).unwrap();
            let logic = matches!(op, Op::And | Op::Or | Op::Xor);
            let prod = ea.len() * eb.len();
            let unary = ea.len() == 1 || eb.len() == 1;
            if unary || (logic && prod <= 64) || (!logic && prod <= if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) { DIV_MAX } else { 4096 }) {
                let mut m: HashMap<u128, Vec<Lit>> = HashMap::new();
                let mut order = vec![];
                for &(x, g) in ea.iter() {
                    for &(y, h) in eb.iter() {
                        let l = self.g.and(g, h);
                        if l == F {
                            continue;
                        }
                        let r = fold(op, w, x, y);
                        let e = m.entry(r).or_default();
                        if e.is_empty() {
                            order.push(r);
                        }
                        e.push(l);
                    }
                }
                if !(logic && order.len() > 32) {
                    let mut e = vec![];
                    for r in order {
                        let l = self.g.or_many(&m[&r]);
                        e.push((r, l));
                    }
                    return self.union(w, e);
                }
            }
        }
        // packing idioms on Cat
        match op {
            Op::Shl => {
                if let Some(k) = self.konst(b) {
                    let k = k as u32;
                    if k >= w {
                        return self.c(w, 0);
                    }
                    let z = self.c(k, 0);
                    let x = self.extract(a, 0, w - k);
                    return self.cat(vec![z, x]);
                }
            }
            Op::LShr => {
                if let Some(k) = self.konst(b) {
                    let k = k as u32;
                    if k >= w {
                        return self.c(w, 0);
                    }
                    let z = self.c(k, 0);
                    let x = self.extract(a, k, w - k);
                    return self.cat(vec![x, z]);
                }
            }
            Op::And => {
                for (x, m) in [(a, b), (b, a)] {
                    if let (K::Cat(p), Some(c)) = (self.k(x).clone(), self.konst(m)) {
                        let mut off = 0;
                        let mut out = vec![];
                        for &q in p.iter() {
                            let qw = self.w(q);
                            let mc = self.c(qw, c >> off);
                            let r = self.bin(Op::And, q, mc);
                            out.push(r);
                            off += qw;
                        }
                        return self.cat(out);
                    }
                }
            }
            Op::Or | Op::Xor => {
                if matches!(self.k(a), K::Cat(_)) || matches!(self.k(b), K::Cat(_)) {
                    // split along the union of the boundaries
                    let mut bd = vec![0, w];
                    for x in [a, b] {
                        if let K::Cat(p) = self.k(x).clone() {
                            let mut o = 0;
                            for &q in p.iter() {
                                o += self.w(q);
                                bd.push(o);
                            }
                        }
                    }
                    bd.sort();
                    bd.dedup();
                    let mut out = vec![];
                    for i in 0..bd.len() - 1 {
                        let x = self.extract(a, bd[i], bd[i + 1] - bd[i]);
                        let y = self.extract(b, bd[i], bd[i + 1] - bd[i]);
                        let r = self.bin(op, x, y);
                        out.push(r);
                    }
                    return self.cat(out);
                }
            }
            _ => {}
        }
        match op {
            Op::And | Op::Or | Op::Xor => {
                let x = self.bits(a);
                let y = self.bits(b);
                let r: Vec<Lit> = (0..w as usize)
                    .map(|i| match op {
                        Op::And => self.g.and(x[i], y[i]),
                        Op::Or => self.g.or(x[i], y[i]),
                        _ => self.g.xor(x[i], y[i]),
                    })
                    .collect();
                self.from_bits(r)
            }
            Op::Add => {
                let x = self.bits(a);
                let y = self.bits(b);
                let (r, _) = self.add_bits(&x, &y, F);
                self.from_bits(r)
            }
            Op::Sub => {
                let x = self.bits(a);
                let y: Vec<Lit> = self.bits(b).iter().map(|&l| neg(l)).collect();
                let (r, _) = self.add_bits(&x, &y, T);
                self.from_bits(r)
            }
            Op::Mul => {
                let (x, y) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
                let xb = self.bits(x);
                let yb = self.bits(y);
                let mut acc = vec![F; w as usize];
                for i in 0..w as usize {
                    if yb[i] == F {
                        continue;
                    }
                    let mut sh = vec![F; w as usize];
                    for j in 0..(w as usize - i) {
                        sh[i + j] = self.g.and(xb[j], yb[i]);
                    }
                    acc = self.add_bits(&acc, &sh, F).0;
                }
                self.from_bits(acc)
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(e) = self.entries(b, 160) {
                    let mut r = None;
                    for &(k, g) in e.iter() {
                        let x = self.shift_const(op, a, k);
                        r = Some(match r {
                            None => x,
                            Some(y) => self.ite(g, x, y),
                        });
                    }
                    return r.unwrap();
                }
                panic!("shift by wide symbolic amount");
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = self.konst(b) {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        return if op == Op::UDiv {
                            let sh = self.c(w, s as u128);
                            self.bin(Op::LShr, a, sh)
                        } else {
                            let m = self.c(w, k - 1);
                            self.bin(Op::And, a, m)
                        };
                    }
                }
                if let (Some(x), Some(y)) = (self.to_union(a, U_MAX), self.to_union(b, U_MAX)) {
                    let n = |v: &mut Self, x| v.entries(x, 1 << 20).map_or(usize::MAX, |e| e.len());
                    if self.is_cu(x) && self.is_cu(y) && n(self, x).saturating_mul(n(self, y)) <= DIV_MAX {
                        return self.bin(op, x, y);
                    }
                }
                // restoring division
                let n = self.bits(a);
                let d = self.bits(b);
                let wz = w as usize;
                let mut rem = vec![F; wz + 1];
                let mut q = vec![F; wz];
                let mut dx = d.clone();
                dx.push(F);
                let nd: Vec<Lit> = dx.iter().map(|&l| neg(l)).collect();
                for i in (0..wz).rev() {
                    rem.pop();
                    rem.insert(0, n[i]);
                    let (s, c) = self.add_bits(&rem, &nd, T);
                    q[i] = c;
                    rem = (0..wz + 1).map(|j| self.g.ite(c, s[j], rem[j])).collect();
                }
                rem.pop();
                if op == Op::UDiv {
                    self.from_bits(q)
                } else {
                    self.from_bits(rem)
                }
            }
            Op::SDiv | Op::SRem => {
                if let (Some(x), Some(y)) = (self.to_union(a, U_MAX), self.to_union(b, U_MAX)) {
                    let n = |v: &mut Self, x| v.entries(x, 1 << 20).map_or(usize::MAX, |e| e.len());
                    if self.is_cu(x) && self.is_cu(y) && n(self, x).saturating_mul(n(self, y)) <= DIV_MAX {
                        return self.bin(op, x, y);
                    }
                }
                panic!("symbolic signed division");
            }
        }
    }
    fn shift_const(&mut self, op: Op, a: Vid, k: u128) -> Vid {
        let w = self.w(a);
        let kc = self.c(w, k);
        match op {
            Op::AShr => {
                let s = k.min(w as u128 - 1) as u32;
                if self.is_cu(a) {
                    let e = self.entries(a, 1 << 20).unwrap();
                    return self.union(
                        w,
                        e.iter().map(|&(x, g)| (fold(op, w, x, k), g)).collect(),
                    );
                }
                let b = self.bits(a);
                let top = *b.last().unwrap();
                let mut r: Vec<Lit> = b[s as usize..].to_vec();
                r.resize(w as usize, top);
                self.from_bits(r)
            }
            _ => {
                if k >= w as u128 {
                    return self.c(w, 0);
                }
                self.bin(op, a, kc)
            }
        }
    }
    pub fn cmp(&mut self, p: Pred, a: Vid, b: Vid) -> Lit {
        if a == b {
            return match p {
                Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle => T,
                _ => F,
            };
        }
        if self.is_undef(a) || self.is_undef(b) {
            self.undef_branches += 1;
            return F;
        }
        if let Some(&r) = self.memo_cmp.get(&(p, a, b)) {
            return r;
        }
        let r = self.cmp_inner(p, a, b);
        self.memo_cmp.insert((p, a, b), r);
        r
    }
    fn cmp_inner(&mut self, p: Pred, a: Vid, b: Vid) -> Lit {
        let w = self.w(a);
        if w > 1 && self.is_cu(a) && self.is_cu(b) {
            let ea = self.entries(a, 1 << 20).unwrap();
            let eb = self.entries(b, 1 << 20).unwrap();
            let mut yes = vec![];
            let mut no = vec![];
            for &(x, g) in ea.iter() {
                let (mut y1, mut n1) = (vec![], vec![]);
                for &(y, h) in eb.iter() {
                    if fcmp_int(p, w, x, y) {
                        y1.push(h);
                    } else {
                        n1.push(h);
                    }
                }
                if n1.is_empty() {
                    yes.push(g);
                } else if y1.is_empty() {
                    no.push(g);
                } else {
                    // both: guard split
                    let yy = if y1.len() <= n1.len() {
                        self.g.or_many(&y1)
                    } else {
                        neg(self.g.or_many(&n1))
                    };
                    let l = self.g.and(g, yy);
                    let m = self.g.and(g, neg(yy));
                    yes.push(l);
                    no.push(m);
                }
            }
            yes.retain(|&l| l != F);
            no.retain(|&l| l != F);
            if yes.is_empty() {
                return F;
            }
            if no.is_empty() {
                return T;
            }
            return if yes.len() <= no.len() {
                self.g.or_many(&yes)
            } else {
                neg(self.g.or_many(&no))
            };
        }
        match p {
            Pred::Ne => return neg(self.cmp(Pred::Eq, a, b)),
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => return neg(self.cmp(Pred::Ult, a, b)),
            Pred::Ule => return neg(self.cmp(Pred::Ult, b, a)),
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => return neg(self.cmp(Pred::Slt, a, b)),
            Pred::Sle => return neg(self.cmp(Pred::Slt, b, a)),
            _ => {}
        }
        let x = self.bits(a);
        let y = self.bits(b);
        match p {
            Pred::Eq => {
                let mut r = T;
                for i in 0..w as usize {
                    let e = neg(self.g.xor(x[i], y[i]));
                    r = self.g.and(r, e);
                    if r == F {
                        break;
                    }
                }
                r
            }
            Pred::Ult | Pred::Slt => {
                let (mut x, mut y) = (x, y);
                if p == Pred::Slt {
                    let n = w as usize - 1;
                    x[n] = neg(x[n]);
                    y[n] = neg(y[n]);
                }
                let mut lt = F;
                for i in 0..w as usize {
                    // lt = (!x & y) | (x==y & lt)
                    let d = self.g.xor(x[i], y[i]);
                    lt = self.g.ite(d, y[i], lt);
                }
                lt
            }
            _ => unreachable!(),
        }
    }
    /// unary table function on bits producing a union
    pub fn ctpop(&mut self, v: Vid) -> Vid {
        let w = self.w(v);
        if self.is_cu(v) {
            let e = self.entries(v, 1 << 20).unwrap();
            return self.union(w, e.iter().map(|&(x, g)| (x.count_ones() as u128, g)).collect());
        }
        let b = self.bits(v);
        let mut base = 0u128;
        // dp[k] = exactly k of the non-constant bits so far
        let mut dp = vec![T];
        for &l in &b {
            if l == T {
                base += 1;
                continue;
            }
            if l == F {
                continue;
            }
            let mut nx = vec![F; dp.len() + 1];
            for k in 0..dp.len() + 1 {
                let stay = if k < dp.len() { self.g.and(dp[k], neg(l)) } else { F };
                let inc = if k > 0 { self.g.and(dp[k - 1], l) } else { F };
                nx[k] = self.g.or(stay, inc);
            }
            dp = nx;
        }
        let e = dp
            .into_iter()
            .enumerate()
            .map(|(k, g)| (base + k as u128, g))
            .collect();
        self.union(w, e)
    }
    pub fn cttz(&mut self, v: Vid, from_top: bool) -> Vid {
        let w = self.w(v);
        let mut b = self.bits(v);
        if from_top {
            b.reverse();
        }
        let mut none = T;
        let mut e = vec![];
        for (i, &l) in b.iter().enumerate() {
            let g = self.g.and(none, l);
            e.push((i as u128, g));
            none = self.g.and(none, neg(l));
            if none == F {
                break;
            }
        }
        e.push((w as u128, none));
        self.union(w, e)
    }
    /// map a pure function over a (small) union
    pub fn map(&mut self, v: Vid, w: u32, f: impl Fn(u128) -> u128) -> Option<Vid> {
        let e = self.entries(v, U_MAX)?;
        Some(self.union(w, e.iter().map(|&(x, g)| (f(x), g)).collect()))
    }
    pub fn map2(
        &mut self,
        a: Vid,
        b: Vid,
        w: u32,
        f: impl Fn(u128, u128) -> u128,
    ) -> Option<Vid> {
        let ea = self.entries(a, U_MAX)?;
        let eb = self.entries(b, U_MAX)?;
        if ea.len() * eb.len() > 40000 {
            return None;
        }
        let mut e = vec![];
        for &(x, g) in ea.iter() {
            for &(y, h) in eb.iter() {
                let l = self.g.and(g, h);
                if l != F {
                    e.push((f(x, y), l));
                }
            }
        }
        Some(self.union(w, e))
    }
    pub fn eval(&self, v: Vid, nv: &[bool]) -> Option<u128> {
        let lv = |l: Lit| nv[node(l)] ^ (l & 1 == 1);
        match self.k(v) {
            K::C(c) => Some(*c),
            K::U(u) => u.iter().find(|e| lv(e.1)).map(|e| e.0),
            K::B(b) => {
                let mut r = 0u128;
                for (i, &l) in b.iter().enumerate() {
                    if lv(l) {
                        r |= 1 << i;
                    }
                }
                Some(r)
            }
            K::Cat(p) => {
                let mut r = 0u128;
                let mut o = 0;
                for &x in p.iter() {
                    r |= self.eval(x, nv)? << o;
                    o += self.w(x);
                }
                Some(r)
            }
            K::Undef => None,
        }
    }
}
