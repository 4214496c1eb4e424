//! Copy-on-write byte memory.  Every byte is a (value, byte index) pair; objects live in a
//! persistent radix tree so states are cheap to fork and merge.

use crate::aig::*;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell {
    pub v: Vid,
    pub i: u8,
}
pub const NOCELL: Cell = Cell { v: u32::MAX, i: 0 };
pub const CH: usize = 64;
pub type Chunk = [Cell; CH];

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub chunks: Vec<Option<Rc<Chunk>>>,
}
impl Obj {
    pub fn new(size: u64) -> Obj {
        let n = (size as usize + CH - 1) / CH;
        Obj { size, chunks: vec![None; n] }
    }
    pub fn cell(&self, off: u64) -> Cell {
        let o = off as usize;
        match self.chunks.get(o / CH) {
            Some(Some(c)) => c[o % CH],
            _ => NOCELL,
        }
    }
    pub fn cells(&self, off: u64, n: u64) -> Vec<Cell> {
        (off..off + n).map(|o| self.cell(o)).collect()
    }
    pub fn put(&mut self, off: u64, cs: &[Cell]) {
        for (k, c) in cs.iter().enumerate() {
            let o = off as usize + k;
            if o / CH >= self.chunks.len() {
                self.chunks.resize(o / CH + 1, None);
            }
            let slot = &mut self.chunks[o / CH];
            if let Some(ch) = slot {
                if ch[o % CH] == *c {
                    continue;
                }
                Rc::make_mut(ch)[o % CH] = *c;
            } else {
                if *c == NOCELL {
                    continue;
                }
                let mut ch = [NOCELL; CH];
                ch[o % CH] = *c;
                *slot = Some(Rc::new(ch));
            }
        }
    }
}

const LV: u32 = 6;
#[derive(Clone)]
enum Node {
    Leaf([Option<Rc<Obj>>; 16]),
    Inner([Option<Rc<Node>>; 16]),
}
#[derive(Clone, Default)]
pub struct Mem {
    root: Option<Rc<Node>>,
}
impl Mem {
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let mut n = self.root.as_ref()?;
        let mut sh = 4 * (LV - 1);
        loop {
            let k = ((id >> sh) & 15) as usize;
            match &**n {
                Node::Leaf(a) => return a[k].as_ref(),
                Node::Inner(a) => n = a[k].as_ref()?,
            }
            sh -= 4;
        }
    }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        fn go(n: &mut Option<Rc<Node>>, id: u32, lv: u32, o: Option<Rc<Obj>>) {
            let k = ((id >> (4 * (lv - 1))) & 15) as usize;
            if n.is_none() {
                if o.is_none() {
                    return;
                }
                *n = Some(Rc::new(if lv == 1 {
                    Node::Leaf(Default::default())
                } else {
                    Node::Inner(Default::default())
                }));
            }
            let r = Rc::make_mut(n.as_mut().unwrap());
            let empty = match r {
                Node::Leaf(a) => {
                    a[k] = o;
                    a.iter().all(|x| x.is_none())
                }
                Node::Inner(a) => {
                    go(&mut a[k], id, lv - 1, o);
                    a.iter().all(|x| x.is_none())
                }
            };
            if empty {
                *n = None;
            }
        }
        go(&mut self.root, id, LV, o);
    }
    pub fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        // ensures uniqueness along the path
        fn go(n: &mut Rc<Node>, id: u32, lv: u32) -> Option<&mut Obj> {
            let k = ((id >> (4 * (lv - 1))) & 15) as usize;
            match Rc::make_mut(n) {
                Node::Leaf(a) => a[k].as_mut().map(Rc::make_mut),
                Node::Inner(a) => go(a[k].as_mut()?, id, lv - 1),
            }
        }
        go(self.root.as_mut()?, id, LV)
    }
    /// objects that differ between the two memories
    pub fn diff(a: &Mem, b: &Mem) -> Vec<(u32, Option<Rc<Obj>>, Option<Rc<Obj>>)> {
        fn go(
            a: Option<&Rc<Node>>,
            b: Option<&Rc<Node>>,
            base: u32,
            lv: u32,
            out: &mut Vec<(u32, Option<Rc<Obj>>, Option<Rc<Obj>>)>,
        ) {
            match (a, b) {
                (None, None) => return,
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => return,
                _ => {}
            }
            for k in 0..16usize {
                let id = base | ((k as u32) << (4 * (lv - 1)));
                if lv == 1 {
                    let g = |n: Option<&Rc<Node>>| match n.map(|r| &**r) {
                        Some(Node::Leaf(a)) => a[k].clone(),
                        _ => None,
                    };
                    let (x, y) = (g(a), g(b));
                    match (&x, &y) {
                        (None, None) => continue,
                        (Some(p), Some(q)) if Rc::ptr_eq(p, q) => continue,
                        _ => out.push((id, x, y)),
                    }
                } else {
                    fn h<'a>(n: Option<&'a Rc<Node>>, k: usize) -> Option<&'a Rc<Node>> {
                        match n.map(|r| &**r) {
                            Some(Node::Inner(a)) => a[k].as_ref(),
                            _ => None,
                        }
                    }
                    go(h(a, k), h(b, k), id, lv - 1, out);
                }
            }
        }
        let mut out = vec![];
        go(a.root.as_ref(), b.root.as_ref(), 0, LV, &mut out);
        out
    }
}

pub fn read_cells(vs: &mut Vals, cs: &[Cell]) -> Vid {
    let mut parts = vec![];
    let mut k = 0;
    while k < cs.len() {
        let c = cs[k];
        let mut e = k + 1;
        if c == NOCELL {
            while e < cs.len() && cs[e] == NOCELL {
                e += 1;
            }
            let u = vs.undef(8 * (e - k) as u32);
            parts.push(u);
        } else {
            while e < cs.len() && cs[e].v == c.v && cs[e].i as usize == c.i as usize + (e - k) {
                e += 1;
            }
            let x = vs.extract(c.v, c.i as u32 * 8, 8 * (e - k) as u32);
            parts.push(x);
        }
        k = e;
    }
    vs.cat(parts)
}
pub fn val_cells(vs: &mut Vals, v: Vid, out: &mut Vec<Cell>) {
    let w = vs.w(v);
    let w8 = (w + 7) / 8 * 8;
    let v = if w8 != w { vs.zext(v, w8) } else { v };
    for i in 0..(w8 / 8) {
        out.push(Cell { v, i: i as u8 });
    }
}
/// end of the run starting at k
fn run_end(cs: &[Cell], k: usize) -> usize {
    let c = cs[k];
    let mut e = k + 1;
    if c == NOCELL {
        return e;
    }
    while e < cs.len() && cs[e].v == c.v && cs[e].i as usize == c.i as usize + (e - k) {
        e += 1;
    }
    e
}
/// cell-wise  sel ? a : b
pub fn merge_cells(vs: &mut Vals, sel: Lit, a: &[Cell], b: &[Cell]) -> Vec<Cell> {
    if sel == T {
        return a.to_vec();
    }
    if sel == F {
        return b.to_vec();
    }
    let n = a.len();
    let mut out = Vec::with_capacity(n);
    let mut k = 0;
    while k < n {
        if a[k] == b[k] {
            out.push(a[k]);
            k += 1;
            continue;
        }
        if a[k] == NOCELL {
            out.push(b[k]);
            k += 1;
            continue;
        }
        if b[k] == NOCELL {
            out.push(a[k]);
            k += 1;
            continue;
        }
        // find a common segment end
        let mut ea = run_end(a, k);
        let mut eb = run_end(b, k);
        let mut ok = true;
        while ea != eb {
            if ea < eb {
                if a[ea] == NOCELL {
                    ok = false;
                    break;
                }
                ea = run_end(a, ea);
            } else {
                if b[eb] == NOCELL {
                    ok = false;
                    break;
                }
                eb = run_end(b, eb);
            }
            if ea - k > 16 || eb - k > 16 {
                ok = false;
                break;
            }
        }
        let e = if ok && ea - k <= 16 { ea } else { k + 1 };
        let x = read_cells(vs, &a[k..e]);
        let y = read_cells(vs, &b[k..e]);
        let z = vs.ite(sel, x, y);
        val_cells(vs, z, &mut out);
        k = e;
    }
    out
}
pub fn merge_obj(vs: &mut Vals, sel: Lit, a: &Rc<Obj>, b: &Rc<Obj>) -> Rc<Obj> {
    if Rc::ptr_eq(a, b) {
        return a.clone();
    }
    let n = a.chunks.len().max(b.chunks.len());
    let mut r = Obj { size: a.size.max(b.size), chunks: Vec::with_capacity(n) };
    for k in 0..n {
        let x = a.chunks.get(k).and_then(|c| c.clone());
        let y = b.chunks.get(k).and_then(|c| c.clone());
        r.chunks.push(match (x, y) {
            (None, y) => y,
            (x, None) => x,
            (Some(x), Some(y)) => {
                if Rc::ptr_eq(&x, &y) {
                    Some(x)
                } else {
                    let m = merge_cells(vs, sel, &x[..], &y[..]);
                    let mut c = [NOCELL; CH];
                    c.copy_from_slice(&m);
                    Some(Rc::new(c))
                }
            }
        });
    }
    Rc::new(r)
}
