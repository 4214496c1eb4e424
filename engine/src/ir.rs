//! Parser for the textual LLVM IR rustc emits (functions are parsed lazily).

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    F32,
    F64,
    Struct(Rc<[Ty]>, bool),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, _) => {
                let o = self.offsets();
                if f.is_empty() {
                    return 0;
                }
                let e = o[f.len() - 1] + f[f.len() - 1].size();
                let a = self.align();
                (e + a - 1) / a * a
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => n * t.size(),
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn offsets(&self) -> Vec<u64> {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                let mut r = vec![];
                for t in f.iter() {
                    let a = if *p { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    r.push(o);
                    o += t.size();
                }
                r
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => (0..*n).map(|i| i * t.size()).collect(),
            _ => panic!("offsets"),
        }
    }
    pub fn fields(&self) -> Vec<Ty> {
        match self {
            Ty::Struct(f, _) => f.to_vec(),
            Ty::Arr(n, t) | Ty::Vec(n, t) => (0..*n).map(|_| (**t).clone()).collect(),
            _ => panic!("fields"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u128),
    Undef,
    Zero,
    Agg(Rc<[(Ty, Opnd)]>),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opnd),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(crate::val::Op, u32, Opnd, Opnd),
    FBin(u8, bool, Opnd, Opnd), // op char, is64
    FNeg(bool, Opnd),
    Icmp(crate::val::Pred, Ty, Opnd, Opnd),
    Fcmp(String, bool, Opnd, Opnd),
    Cast(String, Ty, Ty, Opnd),
    Gep(Opnd, i64, Vec<(u64, u32, Opnd)>),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Alloca(u64),
    Call(Callee, Vec<(Ty, Opnd)>, Ty, bool),
    Select(Ty, Opnd, Opnd, Opnd),
    Extract(Opnd, Vec<u32>),
    Insert(Ty, Opnd, Ty, Opnd, Vec<u32>),
    Freeze(Ty, Opnd),
    Rmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Term {
    Br(usize),
    Cond(Opnd, usize, usize),
    Switch(u32, Opnd, usize, Vec<(u128, usize)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    /// call then branch to the block
    Invoke(usize),
}
#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(usize, Opnd)>)>,
    pub ins: Vec<(Option<u32>, Ins)>,
    pub term: Term,
    pub live_in: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub gid: u32,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub wto: Vec<Wto>,
}
#[derive(Debug)]
pub enum Wto {
    V(usize),
    C(usize, Vec<Wto>),
}

pub enum GKind {
    Func { lines: (usize, usize) },
    DeclFunc,
    Var { line: usize },
    Extern,
}
pub struct Global {
    pub name: String,
    pub kind: GKind,
    pub noreturn: bool,
    pub constant: bool,
}

pub struct Module {
    text: Rc<str>,
    lines: Vec<(usize, usize)>,
    pub globals: Vec<Global>,
    pub by_name: HashMap<String, u32>,
    funcs: HashMap<u32, Rc<Func>>,
    noreturn_groups: HashMap<u32, bool>,
    types: HashMap<String, Ty>,
}

pub const SHIFT: u32 = 24;
pub fn gaddr(gid: u32) -> u128 {
    ((gid as u128) + 1) << SHIFT
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),
    L(String),
    G(String),
    A(u32),
    P(char),
    S(Vec<u8>),
    M,
}

fn unquote(s: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    // s[i] is just after the opening quote
    let mut out = vec![];
    while s[i] != b'"' {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            out.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    (out, i + 1)
}

fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    let (v, j) = unquote(b, i + 1);
                    i = j;
                    String::from_utf8_lossy(&v).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'#' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::A(s[st..i].parse().unwrap()));
            }
            b'!' => {
                // metadata: ignore the token
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                if i < b.len() && b[i] == b'"' {
                    let (_, j) = unquote(b, i + 1);
                    i = j;
                }
                out.push(Tok::M);
            }
            b'"' => {
                let (v, j) = unquote(b, i + 1);
                i = j;
                out.push(Tok::S(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, j) = unquote(b, i + 2);
                i = j;
                out.push(Tok::S(v));
            }
            _ if idc(c) || c == b'+' => {
                let st = i;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                out.push(Tok::W(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, usize>,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let r = self.t[self.i].clone();
        self.i += 1;
        r
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {c} at {} in {:?}", self.i, self.t);
        }
    }
    fn word(&mut self) -> String {
        match self.next() {
            Tok::W(w) => w,
            x => panic!("expected word, got {x:?} in {:?}", self.t),
        }
    }
    fn skip_parens(&mut self) {
        self.expp('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let t = match self.peek()? {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" => Ty::I(16),
                "fp128" => Ty::I(128),
                "label" | "metadata" | "token" => Ty::Other,
                _ if w.starts_with('i')
                    && w.len() > 1
                    && w[1..].bytes().all(|c| c.is_ascii_digit()) =>
                {
                    Ty::I(w[1..].parse().unwrap())
                }
                _ => return None,
            },
            Tok::P('{') => {
                self.i += 1;
                let mut f = vec![];
                while !self.eatp('}') {
                    f.push(self.ty());
                    self.eatp(',');
                }
                return Some(Ty::Struct(Rc::from(f), false));
            }
            Tok::P('<') => {
                self.i += 1;
                if self.eatp('{') {
                    let mut f = vec![];
                    while !self.eatp('}') {
                        f.push(self.ty());
                        self.eatp(',');
                    }
                    self.expp('>');
                    return Some(Ty::Struct(Rc::from(f), true));
                }
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expp('>');
                return Some(Ty::Vec(n, Rc::new(t)));
            }
            Tok::P('[') => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expp(']');
                return Some(Ty::Arr(n, Rc::new(t)));
            }
            Tok::L(n) => {
                if let Some(t) = self.m.types.get(n) {
                    let t = t.clone();
                    self.i += 1;
                    return Some(t);
                }
                return None;
            }
            _ => return None,
        };
        self.i += 1;
        Some(t)
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => {
                if self.isw("addrspace") {
                    self.i += 1;
                    self.skip_parens();
                }
                t
            }
            None => panic!("expected type at {} in {:?}", self.i, self.t),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn flags(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w))
                    if matches!(
                        w.as_str(),
                        "nuw" | "nsw" | "exact" | "inbounds" | "nneg" | "disjoint" | "samesign"
                            | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract"
                            | "afn" | "reassoc" | "volatile" | "atomic"
                    ) =>
                {
                    self.i += 1
                }
                Some(Tok::W(w)) if w == "inrange" => {
                    self.i += 1;
                    self.skip_parens();
                }
                _ => break,
            }
        }
    }
    fn opnd(&mut self, ty: &Ty) -> Opnd {
        match self.next() {
            Tok::L(n) => {
                let r = self.reg(&n);
                Opnd::R(r)
            }
            Tok::G(n) => {
                let g = self.m.gid(&n);
                Opnd::C(gaddr(g))
            }
            Tok::S(b) => Opnd::Agg(Rc::from(
                b.iter().map(|&x| (Ty::I(8), Opnd::C(x as u128))).collect::<Vec<_>>(),
            )),
            Tok::P('{') => {
                let mut f = vec![];
                while !self.eatp('}') {
                    let t = self.ty();
                    let o = self.opnd(&t);
                    f.push((t, o));
                    self.eatp(',');
                }
                Opnd::Agg(Rc::from(f))
            }
            Tok::P('[') => {
                let mut f = vec![];
                while !self.eatp(']') {
                    let t = self.ty();
                    let o = self.opnd(&t);
                    f.push((t, o));
                    self.eatp(',');
                }
                Opnd::Agg(Rc::from(f))
            }
            Tok::P('<') => {
                let packed = self.eatp('{');
                let end = if packed { '}' } else { '>' };
                let mut f = vec![];
                while !self.eatp(end) {
                    let t = self.ty();
                    let o = self.opnd(&t);
                    f.push((t, o));
                    self.eatp(',');
                }
                if packed {
                    self.expp('>');
                }
                Opnd::Agg(Rc::from(f))
            }
            Tok::W(w) => match w.as_str() {
                "true" => Opnd::C(1),
                "false" | "null" | "none" => Opnd::C(0),
                "undef" | "poison" => Opnd::Undef,
                "zeroinitializer" => Opnd::Zero,
                "splat" => {
                    self.expp('(');
                    let t = self.ty();
                    let o = self.opnd(&t);
                    self.expp(')');
                    if let Ty::Vec(n, t) = ty {
                        Opnd::Agg(Rc::from(vec![((**t).clone(), o); *n as usize]))
                    } else {
                        panic!("splat")
                    }
                }
                "getelementptr" => {
                    self.flags();
                    self.expp('(');
                    let t = self.ty();
                    self.expp(',');
                    let pt = self.ty();
                    let base = self.opnd(&pt);
                    let mut off = match base {
                        Opnd::C(c) => c,
                        Opnd::Zero => 0,
                        x => panic!("gep base {x:?}"),
                    };
                    let mut cur = t;
                    let mut first = true;
                    while self.eatp(',') {
                        self.eatw("inrange");
                        let it = self.ty();
                        let k = match self.opnd(&it) {
                            Opnd::C(c) => crate::val::sext(c, it.bits()),
                            x => panic!("gep idx {x:?}"),
                        };
                        if first {
                            off = off.wrapping_add((k * cur.size() as i128) as u128);
                            first = false;
                        } else {
                            let o = cur.offsets();
                            off = off.wrapping_add(o[k as usize] as u128);
                            cur = cur.fields()[k as usize].clone();
                        }
                    }
                    self.expp(')');
                    Opnd::C(off & u64::MAX as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.flags();
                    self.expp('(');
                    let t = self.ty();
                    let o = self.opnd(&t);
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.expp(')');
                    match o {
                        Opnd::C(c) => Opnd::C(c & crate::val::mask(t2.bits())),
                        x => x,
                    }
                }
                "sub" | "add" | "xor" => {
                    self.flags();
                    self.expp('(');
                    let t = self.ty();
                    let a = self.opnd(&t);
                    self.expp(',');
                    let t = self.ty();
                    let b = self.opnd(&t);
                    self.expp(')');
                    match (a, b) {
                        (Opnd::C(a), Opnd::C(b)) => Opnd::C(
                            match w.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            } & crate::val::mask(t.bits()),
                        ),
                        _ => Opnd::Undef,
                    }
                }
                _ => self.num(&w, ty),
            },
            x => panic!("operand {x:?} in {:?}", self.t),
        }
    }
    fn num(&mut self, w: &str, ty: &Ty) -> Opnd {
        match ty {
            Ty::I(n) => {
                if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                    return Opnd::C(u128::from_str_radix(h, 16).unwrap());
                }
                if let Ok(v) = w.parse::<i128>() {
                    return Opnd::C(v as u128 & crate::val::mask(*n));
                }
                if let Ok(v) = w.parse::<u128>() {
                    return Opnd::C(v & crate::val::mask(*n));
                }
                panic!("int {w}")
            }
            Ty::F32 | Ty::F64 => {
                let is32 = *ty == Ty::F32;
                if let Some(h) = w.strip_prefix("f0x") {
                    return Opnd::C(u128::from_str_radix(h, 16).unwrap());
                }
                let d = if let Some(h) = w.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    match w {
                        "inf" | "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "qnan" | "+qnan" => f64::NAN,
                        _ => w.parse::<f64>().unwrap_or_else(|_| panic!("float {w}")),
                    }
                };
                Opnd::C(if is32 {
                    (d as f32).to_bits() as u128
                } else {
                    d.to_bits() as u128
                })
            }
            _ => panic!("num {w} for {ty:?} in {:?}", self.t),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    match w.as_str() {
                        "true" | "false" | "null" | "none" | "undef" | "poison"
                        | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint"
                        | "bitcast" | "trunc" | "splat" | "sub" | "add" | "xor" | "void"
                        | "ptr" | "float" | "double" | "label" | "metadata" | "ptrtoaddr" => break,
                        "align" => {
                            self.i += 1;
                            if self.isp('(') {
                                self.skip_parens();
                            } else {
                                self.i += 1;
                            }
                        }
                        _ => {
                            let c = w.as_bytes()[0];
                            if c.is_ascii_digit() || c == b'-' || c == b'+' {
                                break;
                            }
                            if w.starts_with("f0x") || w.starts_with("u0x") {
                                break;
                            }
                            if c == b'i' && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
                            {
                                break;
                            }
                            self.i += 1;
                            if self.isp('(') {
                                self.skip_parens();
                            }
                        }
                    }
                }
                Some(Tok::S(_)) => {
                    // "attr"="val"
                    if self.t.get(self.i + 1) == Some(&Tok::P('=')) {
                        self.i += 3;
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
    }
    fn tyop(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.opnd(&t);
        (t, o)
    }
    fn label(&mut self) -> usize {
        assert!(self.eatw("label"));
        match self.next() {
            Tok::L(n) => self.block(&n),
            x => panic!("label {x:?}"),
        }
    }
    fn block(&mut self, n: &str) -> usize {
        *self
            .blocks
            .get(n)
            .unwrap_or_else(|| panic!("unknown block {n}"))
    }
    /// call/invoke after the keyword
    fn call(&mut self) -> Ins {
        // cconv, ret attrs
        loop {
            self.skip_attrs();
            if self.isw("fastcc") {
                self.i += 1;
                continue;
            }
            break;
        }
        let ret = self.ty();
        // function type?  (ptr, ...) form for varargs
        if self.isp('(') {
            self.skip_parens();
        }
        let callee = match self.next() {
            Tok::G(n) => Callee::Direct(self.m.gid(&n)),
            Tok::L(n) => {
                let r = self.reg(&n);
                Callee::Indirect(Opnd::R(r))
            }
            Tok::W(w) if w == "asm" => {
                return Ins::Unsupported("asm".into());
            }
            x => panic!("callee {x:?} in {:?}", self.t),
        };
        self.expp('(');
        let mut args = vec![];
        while !self.eatp(')') {
            let t = self.ty();
            if t == Ty::Other {
                // metadata argument
                let mut d = 0;
                loop {
                    match self.peek().unwrap() {
                        Tok::P('(') => d += 1,
                        Tok::P(')') if d == 0 => break,
                        Tok::P(')') => d -= 1,
                        Tok::P(',') if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                self.eatp(',');
                continue;
            }
            self.skip_attrs();
            let o = self.opnd(&t);
            args.push((t, o));
            self.eatp(',');
        }
        let mut noret = false;
        let save = self.i;
        while let Some(t) = self.peek() {
            match t {
                Tok::A(n) => {
                    if *self.m.noreturn_groups.get(n).unwrap_or(&false) {
                        noret = true;
                    }
                    self.i += 1;
                }
                Tok::W(w) if w == "noreturn" => {
                    noret = true;
                    self.i += 1;
                }
                Tok::W(w) if w == "to" => break,
                _ => self.i += 1,
            }
        }
        let _ = save;
        Ins::Call(callee, args, ret, noret)
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut r = vec![];
        while self.eatp(',') {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if let Ok(k) = w.parse() {
                        r.push(k);
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        r
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: Rc<str> = Rc::from(std::fs::read_to_string(path).expect("read IR"));
        let mut lines = vec![];
        let mut s = 0;
        for (i, c) in text.bytes().enumerate() {
            if c == b'\n' {
                lines.push((s, i));
                s = i + 1;
            }
        }
        let mut m = Module {
            text: text.clone(),
            lines,
            globals: vec![],
            by_name: HashMap::new(),
            funcs: HashMap::new(),
            noreturn_groups: HashMap::new(),
            types: HashMap::new(),
        };
        // attributes first
        for i in 0..m.lines.len() {
            let l = m.line(i);
            if l.starts_with("attributes #") {
                let rest = &l[12..];
                let n: u32 = rest.split(' ').next().unwrap().parse().unwrap();
                let nr = rest.split(' ').any(|w| w == "noreturn");
                m.noreturn_groups.insert(n, nr);
            } else if l.starts_with('%') && l.contains("= type ") {
                let toks = tokenize(l);
                let name = match &toks[0] {
                    Tok::L(n) => n.clone(),
                    _ => continue,
                };
                let mut p = P {
                    t: toks,
                    i: 3,
                    m: &mut m,
                    regs: HashMap::new(),
                    blocks: HashMap::new(),
                };
                let t = p.try_ty().unwrap_or(Ty::Other);
                m.types.insert(name, t);
            }
        }
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i).to_string();
            if l.starts_with("define ") {
                let name = Self::fname(&l);
                let st = i;
                while m.line(i) != "}" {
                    i += 1;
                }
                let nr = m.has_noreturn(&l);
                let g = m.gid(&name);
                m.globals[g as usize].kind = GKind::Func { lines: (st, i) };
                m.globals[g as usize].noreturn = nr;
            } else if l.starts_with("declare ") {
                let name = Self::fname(&l);
                let nr = m.has_noreturn(&l);
                let g = m.gid(&name);
                m.globals[g as usize].kind = GKind::DeclFunc;
                m.globals[g as usize].noreturn = nr;
            } else if l.starts_with('@') {
                let toks_name = {
                    let cut = l.find(" = ").unwrap();
                    match &tokenize(&l[..cut])[0] {
                        Tok::G(n) => n.clone(),
                        _ => panic!(),
                    }
                };
                let g = m.gid(&toks_name);
                let head = &l[..l.len().min(300)];
                m.globals[g as usize].kind = GKind::Var { line: i };
                m.globals[g as usize].constant = head.contains(" constant ");
            }
            i += 1;
        }
        m
    }
    fn has_noreturn(&self, l: &str) -> bool {
        l.split_whitespace().any(|w| {
            w == "noreturn"
                || w.strip_prefix('#')
                    .and_then(|n| n.parse::<u32>().ok())
                    .map_or(false, |n| *self.noreturn_groups.get(&n).unwrap_or(&false))
        })
    }
    fn fname(l: &str) -> String {
        let at = l.find('@').unwrap();
        match &tokenize(&l[at..])[0] {
            Tok::G(n) => n.clone(),
            _ => panic!(),
        }
    }
    fn line(&self, i: usize) -> &str {
        let (a, b) = self.lines[i];
        &self.text[a..b]
    }
    pub fn gid(&mut self, n: &str) -> u32 {
        if let Some(&g) = self.by_name.get(n) {
            return g;
        }
        let g = self.globals.len() as u32;
        self.globals.push(Global {
            name: n.to_string(),
            kind: GKind::Extern,
            noreturn: false,
            constant: false,
        });
        self.by_name.insert(n.to_string(), g);
        g
    }
    /// initial bytes of a global variable (None = undefined byte)
    pub fn global_init(&mut self, gid: u32) -> Option<Vec<Option<u8>>> {
        let line = match self.globals[gid as usize].kind {
            GKind::Var { line } => line,
            _ => return None,
        };
        let l = self.line(line).to_string();
        let cut = l.find(" = ").unwrap();
        let toks = tokenize(&l[cut + 3..]);
        let mut p = P {
            t: toks,
            i: 0,
            m: self,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        let mut external = false;
        loop {
            match p.peek() {
                Some(Tok::W(w)) if w == "global" || w == "constant" => {
                    p.i += 1;
                    break;
                }
                Some(Tok::W(w)) => {
                    if w == "external" {
                        external = true;
                    }
                    p.i += 1;
                    if p.isp('(') {
                        p.skip_parens();
                    }
                }
                Some(_) => p.i += 1,
                None => return None,
            }
        }
        let t = p.ty();
        if external {
            return Some(vec![Some(0); t.size() as usize]);
        }
        let o = p.opnd(&t);
        let mut out = vec![None; t.size() as usize];
        Self::emit(&t, &o, &mut out, 0);
        Some(out)
    }
    fn emit(t: &Ty, o: &Opnd, out: &mut [Option<u8>], at: usize) {
        match o {
            Opnd::Undef => {}
            Opnd::Zero => {
                for i in 0..t.size() as usize {
                    out[at + i] = Some(0);
                }
            }
            Opnd::C(c) => {
                for i in 0..t.size() as usize {
                    out[at + i] = Some((c >> (8 * i)) as u8);
                }
            }
            Opnd::Agg(f) => {
                let offs = t.offsets();
                for (k, (ft, fo)) in f.iter().enumerate() {
                    Self::emit(ft, fo, out, at + offs[k] as usize);
                }
            }
            Opnd::R(_) => panic!(),
        }
    }
    pub fn func(&mut self, gid: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(&gid) {
            return Some(f.clone());
        }
        let (a, b) = match self.globals[gid as usize].kind {
            GKind::Func { lines } => lines,
            _ => return None,
        };
        let f = Rc::new(self.parse_func(gid, a, b));
        self.funcs.insert(gid, f.clone());
        Some(f)
    }
    fn parse_func(&mut self, gid: u32, a: usize, b: usize) -> Func {
        // join continuation lines
        let mut items: Vec<String> = vec![];
        for i in a + 1..b {
            let l = self.line(i);
            if l.trim().is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            let ind = l.len() - l.trim_start().len();
            if ind > 2 || l.trim() == "]" || l.trim_start().starts_with("], ") || l.trim_start().starts_with("] ") {
                let last = items.last_mut().unwrap();
                last.push(' ');
                last.push_str(l.trim());
            } else {
                items.push(l.to_string());
            }
        }
        let head = self.line(a).to_string();
        let name = self.globals[gid as usize].name.clone();
        let htoks = tokenize(&head);
        let mut p = P {
            t: htoks,
            i: 1,
            m: self,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        // return type
        loop {
            p.skip_attrs();
            break;
        }
        let ret = p.ty();
        match p.next() {
            Tok::G(_) => {}
            x => panic!("define {x:?}"),
        }
        p.expp('(');
        let mut params = vec![];
        while !p.eatp(')') {
            let _t = p.ty();
            // attrs up to the %name
            loop {
                match p.next() {
                    Tok::L(n) => {
                        let r = p.reg(&n);
                        params.push(r);
                        break;
                    }
                    Tok::P('(') => {
                        p.i -= 1;
                        p.skip_parens();
                    }
                    _ => {}
                }
            }
            p.eatp(',');
        }
        // blocks
        let mut bl: Vec<(String, Vec<String>)> = vec![];
        for it in items {
            if !it.starts_with(' ') {
                // label
                let nm = if it.starts_with('"') {
                    let (v, _) = unquote(it.as_bytes(), 1);
                    String::from_utf8_lossy(&v).into_owned()
                } else {
                    it[..it.find(':').unwrap()].to_string()
                };
                bl.push((nm, vec![]));
            } else {
                if bl.is_empty() {
                    // unnamed entry block: its number is the number of unnamed params
                    let nm = format!("{}", params.len());
                    bl.push((nm, vec![]));
                }
                bl.last_mut().unwrap().1.push(it);
            }
        }
        for (i, (n, _)) in bl.iter().enumerate() {
            p.blocks.insert(n.clone(), i);
        }
        let mut blocks = vec![];
        for (nm, ls) in bl {
            let mut phis = vec![];
            let mut ins = vec![];
            let mut term = None;
            for l in ls {
                p.t = tokenize(&l);
                p.i = 0;
                let mut dst = None;
                if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) {
                    dst = Some(p.reg(&n));
                    p.i = 2;
                }
                let op = p.word();
                use crate::val::Op::*;
                let mut bin = |p: &mut P, o| {
                    p.flags();
                    let t = p.ty();
                    let x = p.opnd(&t);
                    p.expp(',');
                    let y = p.opnd(&t);
                    if !t.is_scalar() {
                        return Ins::Unsupported(format!("vector op {l}"));
                    }
                    Ins::Bin(o, t.bits(), x, y)
                };
                let i = match op.as_str() {
                    "add" => bin(&mut p, Add),
                    "sub" => bin(&mut p, Sub),
                    "mul" => bin(&mut p, Mul),
                    "udiv" => bin(&mut p, UDiv),
                    "sdiv" => bin(&mut p, SDiv),
                    "urem" => bin(&mut p, URem),
                    "srem" => bin(&mut p, SRem),
                    "shl" => bin(&mut p, Shl),
                    "lshr" => bin(&mut p, LShr),
                    "ashr" => bin(&mut p, AShr),
                    "and" => bin(&mut p, And),
                    "or" => bin(&mut p, Or),
                    "xor" => bin(&mut p, Xor),
                    "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                        p.flags();
                        let t = p.ty();
                        let x = p.opnd(&t);
                        p.expp(',');
                        let y = p.opnd(&t);
                        let c = match op.as_str() {
                            "fadd" => b'+',
                            "fsub" => b'-',
                            "fmul" => b'*',
                            "fdiv" => b'/',
                            _ => b'%',
                        };
                        if t.is_scalar() {
                            Ins::FBin(c, t == Ty::F64, x, y)
                        } else {
                            Ins::Unsupported(l.clone())
                        }
                    }
                    "fneg" => {
                        p.flags();
                        let t = p.ty();
                        let x = p.opnd(&t);
                        Ins::FNeg(t == Ty::F64, x)
                    }
                    "icmp" => {
                        p.flags();
                        let pr = p.word();
                        let t = p.ty();
                        let x = p.opnd(&t);
                        p.expp(',');
                        let y = p.opnd(&t);
                        use crate::val::Pred::*;
                        let pr = match pr.as_str() {
                            "eq" => Eq,
                            "ne" => Ne,
                            "ugt" => Ugt,
                            "uge" => Uge,
                            "ult" => Ult,
                            "ule" => Ule,
                            "sgt" => Sgt,
                            "sge" => Sge,
                            "slt" => Slt,
                            "sle" => Sle,
                            x => panic!("pred {x}"),
                        };
                        if t.is_scalar() {
                            Ins::Icmp(pr, t, x, y)
                        } else {
                            Ins::Unsupported(l.clone())
                        }
                    }
                    "fcmp" => {
                        p.flags();
                        let pr = p.word();
                        let t = p.ty();
                        let x = p.opnd(&t);
                        p.expp(',');
                        let y = p.opnd(&t);
                        Ins::Fcmp(pr, t == Ty::F64, x, y)
                    }
                    "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp"
                    | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                        p.flags();
                        let t = p.ty();
                        let x = p.opnd(&t);
                        assert!(p.eatw("to"));
                        let t2 = p.ty();
                        if t.is_scalar() && t2.is_scalar() {
                            Ins::Cast(op.clone(), t, t2, x)
                        } else {
                            Ins::Unsupported(l.clone())
                        }
                    }
                    "getelementptr" => {
                        p.flags();
                        let t = p.ty();
                        p.expp(',');
                        let pt = p.ty();
                        let base = p.opnd(&pt);
                        let mut off = 0i64;
                        let mut dy = vec![];
                        let mut cur = t;
                        let mut first = true;
                        while p.eatp(',') {
                            if matches!(p.peek(), Some(Tok::M)) {
                                break;
                            }
                            let it = p.ty();
                            let k = p.opnd(&it);
                            let scale;
                            if first {
                                scale = cur.size();
                                first = false;
                            } else {
                                match (&cur, &k) {
                                    (Ty::Struct(..), Opnd::C(c)) => {
                                        let c = *c as usize;
                                        off += cur.offsets()[c] as i64;
                                        cur = cur.fields()[c].clone();
                                        continue;
                                    }
                                    (Ty::Arr(_, t), _) | (Ty::Vec(_, t), _) => {
                                        let t = (**t).clone();
                                        scale = t.size();
                                        cur = t;
                                    }
                                    _ => panic!("gep {l}"),
                                }
                            }
                            match k {
                                Opnd::C(c) => {
                                    off = off.wrapping_add(
                                        (crate::val::sext(c, it.bits()) as i64)
                                            .wrapping_mul(scale as i64),
                                    )
                                }
                                _ => dy.push((scale, it.bits(), k)),
                            }
                        }
                        Ins::Gep(base, off, dy)
                    }
                    "load" => {
                        p.flags();
                        let t = p.ty();
                        p.expp(',');
                        let (_, a) = p.tyop();
                        Ins::Load(t, a)
                    }
                    "store" => {
                        p.flags();
                        let (t, v) = p.tyop();
                        p.expp(',');
                        let (_, a) = p.tyop();
                        Ins::Store(t, v, a)
                    }
                    "alloca" => {
                        let t = p.ty();
                        Ins::Alloca(t.size())
                    }
                    "tail" | "musttail" | "notail" => {
                        assert!(p.eatw("call"));
                        p.flags();
                        p.call()
                    }
                    "call" => {
                        p.flags();
                        p.call()
                    }
                    "invoke" => {
                        let c = p.call();
                        assert!(p.eatw("to"), "{l}");
                        let b = p.label();
                        ins.push((dst, c));
                        term = Some(Term::Invoke(b));
                        continue;
                    }
                    "phi" => {
                        p.flags();
                        let t = p.ty();
                        let mut inc = vec![];
                        while p.eatp('[') {
                            let v = p.opnd(&t);
                            p.expp(',');
                            let b = match p.next() {
                                Tok::L(n) => p.block(&n),
                                x => panic!("{x:?}"),
                            };
                            p.expp(']');
                            inc.push((b, v));
                            p.eatp(',');
                        }
                        phis.push((dst.unwrap(), t, inc));
                        continue;
                    }
                    "select" => {
                        p.flags();
                        let (tc, c) = p.tyop();
                        p.expp(',');
                        let (t, x) = p.tyop();
                        p.expp(',');
                        let (_, y) = p.tyop();
                        if tc.is_scalar() {
                            Ins::Select(t, c, x, y)
                        } else {
                            Ins::Unsupported(l.clone())
                        }
                    }
                    "extractvalue" => {
                        let (_, a) = p.tyop();
                        let ix = p.idxs();
                        Ins::Extract(a, ix)
                    }
                    "insertvalue" => {
                        let (t, a) = p.tyop();
                        p.expp(',');
                        let (t2, v) = p.tyop();
                        let ix = p.idxs();
                        Ins::Insert(t, a, t2, v, ix)
                    }
                    "freeze" => {
                        let (t, a) = p.tyop();
                        Ins::Freeze(t, a)
                    }
                    "fence" => Ins::Nop,
                    "atomicrmw" => {
                        p.flags();
                        let k = p.word();
                        let (_, a) = p.tyop();
                        p.expp(',');
                        let (t, v) = p.tyop();
                        Ins::Rmw(k, t, a, v)
                    }
                    "cmpxchg" => {
                        p.flags();
                        p.eatw("weak");
                        p.flags();
                        let (_, a) = p.tyop();
                        p.expp(',');
                        let (t, e) = p.tyop();
                        p.expp(',');
                        let (_, n) = p.tyop();
                        Ins::CmpXchg(t, a, e, n)
                    }
                    "landingpad" => {
                        Ins::Unsupported("landingpad".into())
                    }
                    "br" => {
                        if p.isw("label") {
                            term = Some(Term::Br(p.label()));
                        } else {
                            let t = p.ty();
                            let c = p.opnd(&t);
                            p.expp(',');
                            let x = p.label();
                            p.expp(',');
                            let y = p.label();
                            term = Some(Term::Cond(c, x, y));
                        }
                        continue;
                    }
                    "switch" => {
                        let t = p.ty();
                        let c = p.opnd(&t);
                        p.expp(',');
                        let d = p.label();
                        p.expp('[');
                        let mut cs = vec![];
                        while !p.eatp(']') {
                            let ct = p.ty();
                            let v = match p.opnd(&ct) {
                                Opnd::C(c) => c,
                                x => panic!("{x:?}"),
                            };
                            p.expp(',');
                            let b = p.label();
                            cs.push((v, b));
                        }
                        term = Some(Term::Switch(t.bits(), c, d, cs));
                        continue;
                    }
                    "ret" => {
                        let t = p.ty();
                        if t == Ty::Void {
                            term = Some(Term::Ret(None));
                        } else {
                            let o = p.opnd(&t);
                            term = Some(Term::Ret(Some((t, o))));
                        }
                        continue;
                    }
                    "unreachable" | "resume" => {
                        term = Some(Term::Unreachable);
                        continue;
                    }
                    "extractelement" | "insertelement" | "shufflevector" => {
                        Ins::Unsupported(l.clone())
                    }
                    x => panic!("unknown instruction {x}: {l}"),
                };
                ins.push((dst, i));
            }
            blocks.push(Block {
                name: nm,
                phis,
                ins,
                term: term.expect("terminator"),
                live_in: vec![],
            });
        }
        let nregs = p.regs.len();
        let mut f = Func {
            name,
            gid,
            params,
            ret,
            blocks,
            nregs,
            wto: vec![],
        };
        liveness(&mut f);
        f.wto = wto(&f);
        f
    }
}

fn uses(i: &Ins, out: &mut Vec<u32>) {
    fn o(x: &Opnd, out: &mut Vec<u32>) {
        match x {
            Opnd::R(r) => out.push(*r),
            Opnd::Agg(f) => f.iter().for_each(|(_, e)| o(e, out)),
            _ => {}
        }
    }
    match i {
        Ins::Bin(_, _, a, b)
        | Ins::FBin(_, _, a, b)
        | Ins::Icmp(_, _, a, b)
        | Ins::Fcmp(_, _, a, b)
        | Ins::Store(_, a, b)
        | Ins::Rmw(_, _, a, b)
        | Ins::Insert(_, a, _, b, _) => {
            o(a, out);
            o(b, out);
        }
        Ins::Cast(_, _, _, a)
        | Ins::FNeg(_, a)
        | Ins::Load(_, a)
        | Ins::Extract(a, _)
        | Ins::Freeze(_, a) => o(a, out),
        Ins::Gep(b, _, d) => {
            o(b, out);
            d.iter().for_each(|x| o(&x.2, out));
        }
        Ins::Call(c, a, _, _) => {
            if let Callee::Indirect(x) = c {
                o(x, out);
            }
            a.iter().for_each(|x| o(&x.1, out));
        }
        Ins::Select(_, a, b, c) | Ins::CmpXchg(_, a, b, c) => {
            o(a, out);
            o(b, out);
            o(c, out);
        }
        Ins::Alloca(_) | Ins::Nop | Ins::Unsupported(_) => {}
    }
}
pub fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Br(b) | Term::Invoke(b) => vec![*b],
        Term::Cond(_, a, b) => vec![*a, *b],
        Term::Switch(_, _, d, c) => {
            let mut v = vec![*d];
            v.extend(c.iter().map(|x| x.1));
            v
        }
        _ => vec![],
    }
}
fn liveness(f: &mut Func) {
    use std::collections::HashSet;
    let n = f.blocks.len();
    let mut live: Vec<HashSet<u32>> = vec![HashSet::new(); n];
    // live_in[b] (after phis; phi dsts count as live-in if used)
    let mut gens = vec![];
    let mut kills = vec![];
    for b in &f.blocks {
        let mut g = HashSet::new();
        let mut k = HashSet::new();
        for (d, i) in &b.ins {
            let mut u = vec![];
            uses(i, &mut u);
            for x in u {
                if !k.contains(&x) {
                    g.insert(x);
                }
            }
            if let Some(d) = d {
                k.insert(*d);
            }
        }
        let mut u = vec![];
        match &b.term {
            Term::Cond(c, _, _) | Term::Switch(_, c, _, _) => {
                uses(&Ins::Freeze(Ty::Void, c.clone()), &mut u)
            }
            Term::Ret(Some((_, c))) => uses(&Ins::Freeze(Ty::Void, c.clone()), &mut u),
            _ => {}
        }
        for x in u {
            if !k.contains(&x) {
                g.insert(x);
            }
        }
        gens.push(g);
        kills.push(k);
    }
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut out: HashSet<u32> = HashSet::new();
            for s in succs(&f.blocks[b].term) {
                let phid: HashSet<u32> = f.blocks[s].phis.iter().map(|p| p.0).collect();
                for &x in &live[s] {
                    if !phid.contains(&x) {
                        out.insert(x);
                    }
                }
                for (_, _, inc) in &f.blocks[s].phis {
                    for (pb, o) in inc {
                        if *pb == b {
                            let mut u = vec![];
                            uses(&Ins::Freeze(Ty::Void, o.clone()), &mut u);
                            out.extend(u);
                        }
                    }
                }
            }
            let mut nl: HashSet<u32> = out.difference(&kills[b]).cloned().collect();
            nl.extend(gens[b].iter());
            if nl.len() != live[b].len() {
                live[b] = nl;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for b in 0..n {
        let mut v: Vec<u32> = live[b].iter().cloned().collect();
        v.sort();
        f.blocks[b].live_in = v;
    }
}

/// Bourdoncle's weak topological order
fn wto(f: &Func) -> Vec<Wto> {
    struct S<'a> {
        f: &'a Func,
        dfn: Vec<u32>,
        num: u32,
        stack: Vec<usize>,
    }
    const INF: u32 = u32::MAX;
    impl S<'_> {
        fn component(&mut self, v: usize) -> Wto {
            let mut part = vec![];
            for s in succs(&self.f.blocks[v].term) {
                if self.dfn[s] == 0 {
                    self.visit(s, &mut part);
                }
            }
            part.reverse();
            Wto::C(v, part)
        }
        fn visit(&mut self, v: usize, part: &mut Vec<Wto>) -> u32 {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v] = self.num;
            let mut head = self.num;
            let mut lp = false;
            for s in succs(&self.f.blocks[v].term) {
                let m = if self.dfn[s] == 0 {
                    self.visit(s, part)
                } else {
                    self.dfn[s]
                };
                if m <= head {
                    head = m;
                    lp = true;
                }
            }
            if head == self.dfn[v] {
                self.dfn[v] = INF;
                let mut e = self.stack.pop().unwrap();
                if lp {
                    while e != v {
                        self.dfn[e] = 0;
                        e = self.stack.pop().unwrap();
                    }
                    let c = self.component(v);
                    part.push(c);
                } else {
                    part.push(Wto::V(v));
                }
            }
            head
        }
    }
    let mut s = S {
        f,
        dfn: vec![0; f.blocks.len()],
        num: 0,
        stack: vec![],
    };
    let mut part = vec![];
    s.visit(0, &mut part);
    part.reverse();
    part
}
