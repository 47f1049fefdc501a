//! Hash-consed bit-vector expressions with simplification.
//! Every symbolic input is an 8-bit variable; everything else is built from them.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[derive(Copy)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub type BitSet = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VarKind { Input, Undef, Frozen }

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vsets: Vec<Rc<Vec<u32>>>,
    vset_map: HashMap<Rc<Vec<u32>>, u32>,
    pub node_vs: Vec<u32>,
    pub var_nodes: Vec<E>,
    pub var_kind: Vec<VarKind>,
    truth: HashMap<E, Rc<BitSet>>,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
pub fn bs_get(b: &BitSet, i: usize) -> bool { b[i >> 6] >> (i & 63) & 1 == 1 }
pub fn bs_set(b: &mut BitSet, i: usize) { b[i >> 6] |= 1 << (i & 63) }
pub fn bs_and(a: &BitSet, b: &BitSet) -> BitSet { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn bs_andn(a: &BitSet, b: &BitSet) -> BitSet { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
pub fn bs_empty(a: &BitSet) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn bs_first(a: &BitSet) -> u8 {
    for i in 0..4 { if a[i] != 0 { return (i * 64) as u8 + a[i].trailing_zeros() as u8; } }
    0
}

pub fn fold(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => { if y == 0 { return None } x / y }
        Op::URem => { if y == 0 { return None } x % y }
        Op::SDiv => { if y == 0 { return None } (sext(x, w).wrapping_div(sext(y, w)) as u128) & m }
        Op::SRem => { if y == 0 { return None } (sext(x, w).wrapping_rem(sext(y, w)) as u128) & m }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((sext(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        _ => return None,
    })
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { nodes: vec![], map: HashMap::new(), vsets: vec![], vset_map: HashMap::new(), node_vs: vec![],
            var_nodes: vec![], var_kind: vec![], truth: HashMap::new() };
        let e = Rc::new(vec![]);
        p.vsets.push(e.clone());
        p.vset_map.insert(e, 0);
        // ids 0 and 1 are reserved as memory markers (concrete / uninit)
        p.konst(0, 1);
        p.konst(1, 1);
        p
    }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn vars(&self, e: E) -> Rc<Vec<u32>> { self.vsets[self.node_vs[e as usize] as usize].clone() }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn vset(&mut self, v: Vec<u32>) -> u32 {
        let r = Rc::new(v);
        if let Some(&i) = self.vset_map.get(&r) { return i; }
        let i = self.vsets.len() as u32;
        self.vsets.push(r.clone());
        self.vset_map.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let (x, y) = (self.vsets[a as usize].clone(), self.vsets[b as usize].clone());
        let mut out = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            if x[i] == y[j] { out.push(x[i]); i += 1; j += 1; }
            else if x[i] < y[j] { out.push(x[i]); i += 1; }
            else { out.push(y[j]); j += 1; }
        }
        out.extend_from_slice(&x[i..]);
        out.extend_from_slice(&y[j..]);
        self.vset(out)
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => self.vset(vec![n.k as u32]),
            Op::Extract | Op::ZExt | Op::SExt => self.node_vs[n.a as usize],
            Op::Ite => {
                let u = self.union(self.node_vs[n.a as usize], self.node_vs[n.b as usize]);
                self.union(u, self.node_vs[n.c as usize])
            }
            _ => self.union(self.node_vs[n.a as usize], self.node_vs[n.b as usize]),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.node_vs.push(vs);
        self.map.insert(n, e);
        e
    }
    pub fn konst(&mut self, k: u128, w: u16) -> E {
        debug_assert!(w <= 128);
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32) -> E { self.var_nodes[idx as usize] }
    /// nth variable of the run; variables are shared by all paths.
    pub fn get_var(&mut self, idx: usize, kind: VarKind) -> E {
        while self.var_nodes.len() <= idx {
            let i = self.var_nodes.len();
            let e = self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 });
            self.var_nodes.push(e);
            self.var_kind.push(kind);
        }
        self.var_nodes[idx]
    }
    pub fn truec(&mut self) -> E { 1 }
    pub fn falsec(&mut self) -> E { 0 }
    fn raw(&mut self, op: Op, w: u16, a: E, b: E) -> E { self.intern(Node { op, w, a, b, c: 0, k: 0 }) }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if w > 128 {
            let hi = self.extract(a, w - 1, 128);
            let lo = self.extract(a, 127, 0);
            let (h, l) = (self.not(hi), self.not(lo));
            return self.concat(h, l);
        }
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }

    fn is_bool(&self, e: E) -> bool { self.w(e) == 1 }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if op == Op::Slt { return self.konst((sext(x, w) < sext(y, w)) as u128, 1); }
            if let Some(v) = fold(op, w, x, y) {
                let rw = if op == Op::Eq || op == Op::Ult { 1 } else { w };
                return self.konst(v, rw);
            }
        }
        // canonical order: constant on the right for commutative ops
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = self.n(a).clone();
                    if n.op == Op::Add { if let Some(x) = self.as_const(n.b) {
                        let k = self.konst(x.wrapping_add(y), w);
                        return self.bin(Op::Add, n.a, k);
                    } }
                    if n.op == Op::Ite { if let (Some(x), Some(z)) = (self.as_const(n.b), self.as_const(n.c)) {
                        let (p, q) = (self.konst(x.wrapping_add(y), w), self.konst(z.wrapping_add(y), w));
                        return self.ite(n.a, p, q);
                    } }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(0, w); }
                if let Some(y) = cb {
                    let k = self.konst(0u128.wrapping_sub(y), w);
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::Mul && w <= 64 { if let Some(x) = self.as_const(n.b) {
                        let k = self.konst(x.wrapping_mul(y), w);
                        return self.bin(Op::Mul, n.a, k);
                    } }
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => if cb == Some(1) { return a; } else if let Some(y) = cb { if y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.bin(Op::LShr, a, k);
            } },
            Op::URem => if let Some(y) = cb { if y.is_power_of_two() {
                let k = self.konst(y - 1, w);
                return self.bin(Op::And, a, k);
            } },
            Op::And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) && w <= 128 { return a; }
                if w == 1 {
                    if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) { return 0; }
                }
                if let Some(r) = self.bitwise_pieces(op, a, b) { return r; }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) && w <= 128 { return b; }
                if w == 1 {
                    if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) { return 1; }
                }
                if let Some(r) = self.bitwise_pieces(op, a, b) { return r; }
            }
            Op::Xor => {
                if a == b && w <= 128 { return self.konst(0, w); }
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = self.n(a).clone();
                    if n.op == Op::Xor { if let Some(x) = self.as_const(n.b) {
                        let k = self.konst(x ^ y, w);
                        return self.bin(Op::Xor, n.a, k);
                    } }
                    if n.op == Op::Ite && w > 1 { if let (Some(x), Some(z)) = (self.as_const(n.b), self.as_const(n.c)) {
                        let (p, q) = (self.konst(x ^ y, w), self.konst(z ^ y, w));
                        return self.ite(n.a, p, q);
                    } }
                }
                if let Some(r) = self.bitwise_pieces(op, a, b) { return r; }
            }
            Op::Shl => if let Some(s) = cb {
                if s == 0 { return a; }
                if s >= w as u128 { return self.konst(0, w); }
                let s = s as u16;
                let lo = self.konst(0, s);
                let hi = self.extract(a, w - 1 - s, 0);
                return self.concat(hi, lo);
            },
            Op::LShr => if let Some(s) = cb {
                if s == 0 { return a; }
                if s >= w as u128 { return self.konst(0, w); }
                let s = s as u16;
                let x = self.extract(a, w - 1, s);
                return self.zext(x, w);
            },
            Op::AShr => if let Some(s) = cb {
                if s == 0 { return a; }
                let s = s.min(w as u128 - 1) as u16;
                let x = self.extract(a, w - 1, s);
                return self.sext(x, w);
            },
            Op::Eq => {
                if a == b { return 1; }
                if w == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                let n = self.n(a).clone();
                if let Some(y) = cb {
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y >> iw != 0 { return 0; }
                            let k = self.konst(y, iw);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if (sext(y & mask(iw), iw) as u128) & m != y { return 0; }
                            let k = self.konst(y, iw);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let (kh, kl) = (self.konst(y >> lw, w - lw), self.konst(y, lw));
                            let x = self.bin(Op::Eq, n.b, kl);
                            if x == 0 { return 0; }
                            let z = self.bin(Op::Eq, n.a, kh);
                            return self.bin(Op::And, z, x);
                        }
                        Op::Add | Op::Xor => if let Some(x) = self.as_const(n.b) {
                            let v = if n.op == Op::Add { y.wrapping_sub(x) } else { y ^ x };
                            let k = self.konst(v, w);
                            return self.bin(Op::Eq, n.a, k);
                        },
                        Op::Ite => {
                            let (t, f) = (self.as_const(n.b), self.as_const(n.c));
                            if t.is_some() || f.is_some() {
                                let p = self.bin(Op::Eq, n.b, b);
                                let q = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b).clone();
                    if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, n.b, nb.b);
                        if x == 0 { return 0; }
                        let z = self.bin(Op::Eq, n.a, nb.a);
                        return self.bin(Op::And, z, x);
                    }
                    if n.op == Op::Concat || nb.op == Op::Concat || w > 128 {
                        let (cc, oo, nn) = if n.op == Op::Concat { (a, b, n) } else { (b, a, nb) };
                        let _ = cc;
                        if nn.op == Op::Concat {
                            let lw = self.w(nn.b);
                            let (ol, oh) = (self.extract(oo, lw - 1, 0), self.extract(oo, w - 1, lw));
                            let x = self.bin(Op::Eq, nn.b, ol);
                            if x == 0 { return 0; }
                            let z = self.bin(Op::Eq, nn.a, oh);
                            return self.bin(Op::And, z, x);
                        }
                    } else if n.op == Op::ZExt && nb.op == Op::ZExt && self.w(n.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, n.a, nb.a);
                    }
                    if n.op == Op::Add && n.a == b || nb.op == Op::Add && nb.a == a {
                        let k = if n.op == Op::Add && n.a == b { n.b } else { nb.b };
                        if let Some(x) = self.as_const(k) { if x != 0 { return 0; } }
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) { return 0; }
                if cb == Some(1) { let z = self.konst(0, w); return self.bin(Op::Eq, a, z); }
                if ca == Some(m) && w <= 128 { return 0; }
                if ca == Some(0) { let z = self.bin(Op::Eq, b, a); return self.not(z); }
                let (na, nb) = (self.n(a).clone(), self.n(b).clone());
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(y) = cb {
                        if y >> iw != 0 { return 1; }
                        let k = self.konst(y, iw);
                        return self.bin(Op::Ult, na.a, k);
                    }
                    if nb.op == Op::ZExt && self.w(nb.a) == iw { return self.bin(Op::Ult, na.a, nb.a); }
                }
                if nb.op == Op::ZExt { if let Some(x) = ca {
                    let iw = self.w(nb.a);
                    if x >> iw != 0 { return 0; }
                    let k = self.konst(x, iw);
                    return self.bin(Op::Ult, k, nb.a);
                } }
                if na.op == Op::Concat && self.as_const(na.a) == Some(0) && cb.is_some() {
                    let lw = self.w(na.b);
                    let y = cb.unwrap();
                    if y >> lw != 0 { return 1; }
                    let k = self.konst(y, lw);
                    return self.bin(Op::Ult, na.b, k);
                }
                if na.op == Op::Ite && cb.is_some() && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                    let p = self.bin(Op::Ult, na.b, b);
                    let q = self.bin(Op::Ult, na.c, b);
                    return self.ite(na.a, p, q);
                }
            }
            Op::Slt => {
                if a == b { return 0; }
                if cb == Some(0) { return self.extract(a, w - 1, w - 1); }
                if ca == Some(m) && w <= 128 { let t = self.extract(b, w - 1, w - 1); return self.not(t); }
                let (na, nb) = (self.n(a).clone(), self.n(b).clone());
                if na.op == Op::ZExt && (nb.op == Op::ZExt || cb.map_or(false, |y| y >> (w - 1) == 0)) {
                    return self.bin(Op::Ult, a, b);
                }
                if nb.op == Op::ZExt && ca.map_or(false, |x| x >> (w - 1) == 0) { return self.bin(Op::Ult, a, b); }
                if na.op == Op::ZExt && cb.map_or(false, |y| y >> (w - 1) == 1) { return 0; }
                if na.op == Op::SExt && cb.is_some() {
                    let iw = self.w(na.a);
                    let y = cb.unwrap();
                    if (sext(y & mask(iw), iw) as u128) & m == y {
                        let k = self.konst(y, iw);
                        return self.bin(Op::Slt, na.a, k);
                    }
                }
                if na.op == Op::Ite && cb.is_some() && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                    let p = self.bin(Op::Slt, na.b, b);
                    let q = self.bin(Op::Slt, na.c, b);
                    return self.ite(na.a, p, q);
                }
            }
            _ => {}
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        self.raw(op, rw, a, b)
    }

    fn not_of(&self, a: E) -> Option<E> {
        let n = self.n(a);
        if n.op == Op::Xor && n.w == 1 && self.as_const(n.b) == Some(1) { Some(n.a) } else { None }
    }

    /// top-down list of pieces (msb first)
    fn pieces(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.n(e).clone();
        match n.op {
            Op::Concat => { self.pieces(n.a, out); self.pieces(n.b, out); }
            Op::ZExt => {
                let k = self.konst(0, n.w - self.w(n.a));
                out.push(k);
                self.pieces(n.a, out);
            }
            Op::SExt if self.w(n.a) == 1 => { for _ in 0..n.w.min(64) { out.push(n.a); } if n.w > 64 { out.clear(); out.push(e); } }
            _ => out.push(e),
        }
    }
    fn bitwise_pieces(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w == 1 { return None; }
        let (na, nb) = (self.n(a).op, self.n(b).op);
        let cplx = |o: Op| matches!(o, Op::Concat | Op::ZExt | Op::SExt);
        let cb = self.as_const(b);
        if !cplx(na) && !cplx(nb) {
            // x & contiguous mask
            if op == Op::And { if let Some(k) = cb {
                let tz = k.trailing_zeros() as u16;
                let run = (k >> tz).trailing_ones() as u16;
                if (k >> tz) >> run == 0 && k != 0 && (tz > 0 || tz + run < w) {
                    let mid = self.extract(a, tz + run - 1, tz);
                    let mut r = mid;
                    if tz > 0 { let z = self.konst(0, tz); r = self.concat(r, z); }
                    return Some(self.zext(r, w));
                }
            } }
            return None;
        }
        if cb.is_none() && !(cplx(na) && cplx(nb)) { return None; }
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        if pa.len() + pb.len() > 300 { return None; }
        // cut boundaries
        let mut cuts: Vec<u16> = vec![];
        for ps in [&pa, &pb] {
            let mut p = w;
            for &x in ps.iter() { p -= self.w(x); cuts.push(p); }
        }
        if let Some(k) = cb {
            // split constants at runs of zero/one bits so that masks vanish (only when few runs)
            let mut prev = k & 1;
            let mut cs = vec![];
            for i in 1..w { let bit = k >> i & 1; if bit != prev { cs.push(i); prev = bit; } }
            if cs.len() <= 40 { cuts.extend(cs); }
        }
        cuts.sort(); cuts.dedup();
        let mut hi = w;
        let mut res: Option<E> = None;
        let mut useful = false;
        let mut parts = vec![];
        for &lo in cuts.iter().rev() {
            let (x, y) = (self.extract(a, hi - 1, lo), self.extract(b, hi - 1, lo));
            parts.push((x, y));
            if self.as_const(x).is_some() || self.as_const(y).is_some() || x == y { useful = true; }
            hi = lo;
        }
        if !useful { return None; }
        for (x, y) in parts {
            let r = self.bin(op, x, y);
            res = Some(match res { None => r, Some(h) => self.concat(h, r) });
        }
        res
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(lo)) {
            if w <= 128 { return self.konst(x << wl | y, w); }
        }
        let (nh, nl) = (self.n(hi).clone(), self.n(lo).clone());
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a {
            let (hh, hl) = ((nh.k >> 16) as u16, nh.k as u16);
            let (lh, ll) = ((nl.k >> 16) as u16, nl.k as u16);
            if hl == lh + 1 { return self.extract(nh.a, hh, ll); }
        }
        if self.as_const(hi) == Some(0) && w <= 128 { return self.zext(lo, w); }
        // keep right-nested form: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let l2 = self.concat(nh.b, lo);
            return self.concat(nh.a, l2);
        }
        if nl.op == Op::Concat {
            // merge adjacent
            let (nla, nlb) = (nl.a, nl.b);
            let na = self.n(nla).clone();
            if nh.op == Op::Extract && na.op == Op::Extract && nh.a == na.a && nh.k as u16 == (na.k >> 16) as u16 + 1 {
                let m = self.extract(nh.a, (nh.k >> 16) as u16, na.k as u16);
                return self.concat(m, nlb);
            }
            if nh.op == Op::Const && na.op == Op::Const && nh.w + na.w <= 128 {
                let m = self.konst(nh.k << na.w | na.k, nh.w + na.w);
                return self.concat(m, nlb);
            }
        }
        if nh.op == Op::ZExt && w <= 128 {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        self.intern(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn extract(&mut self, e: E, hi: u16, lo: u16) -> E {
        let n = self.n(e).clone();
        let w = hi - lo + 1;
        if w == n.w { return e; }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => { let l0 = n.k as u16; return self.extract(n.a, hi + l0, lo + l0); }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw { return self.extract(n.b, hi, lo); }
                if lo >= lw { return self.extract(n.a, hi - lw, lo - lw); }
                let (h, l) = (self.extract(n.a, hi - lw, 0), self.extract(n.b, lw - 1, lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(0, w); }
                if hi < iw { return self.extract(n.a, hi, lo); }
                let x = self.extract(n.a, iw - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw { return self.extract(n.a, hi, lo); }
                if lo >= iw { let s = self.extract(n.a, iw - 1, iw - 1); return self.sext(s, w); }
                let x = self.extract(n.a, iw - 1, lo);
                return self.sext(x, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let (x, y) = (self.extract(n.a, hi, lo), self.extract(n.b, hi, lo));
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (x, y) = (self.extract(n.a, hi, 0), self.extract(n.b, hi, 0));
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let (x, y) = (self.extract(n.b, hi, lo), self.extract(n.c, hi, lo));
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: (hi as u128) << 16 | lo as u128 })
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e).clone();
        if n.w == w { return e; }
        match n.op {
            Op::Const if w <= 128 => return self.konst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if w > 128 {
            let mut rest = w - n.w;
            let mut r = e;
            while rest > 0 { let k = rest.min(128); let z = self.konst(0, k); r = self.intern(Node { op: Op::Concat, w: self.w(r) + k, a: z, b: r, c: 0, k: 0 }); rest -= k; }
            return r;
        }
        self.intern(Node { op: Op::ZExt, w, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e).clone();
        if n.w == w { return e; }
        match n.op {
            Op::Const => return self.konst(sext(n.k, n.w) as u128, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let (x, y) = (self.sext(n.b, w), self.sext(n.c, w));
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::SExt, w, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if t == f { return t; }
        match self.as_const(c) { Some(0) => return f, Some(_) => return t, None => {} }
        if let Some(x) = self.not_of(c) { return self.ite(x, f, t); }
        if self.is_bool(t) {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(_), None) => { let nc = self.not(c); return self.bin(Op::And, nc, f); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(_)) => { let nc = self.not(c); return self.bin(Op::Or, nc, t); }
                _ => {}
            }
        }
        let (nt, nf) = (self.n(t).clone(), self.n(f).clone());
        if nt.op == Op::Ite && nt.a == c { return self.ite(c, nt.b, f); }
        if nf.op == Op::Ite && nf.a == c { return self.ite(c, t, nf.c); }
        if nt.op == Op::ZExt && nf.op == Op::ZExt && self.w(nt.a) == self.w(nf.a) {
            let x = self.ite(c, nt.a, nf.a);
            return self.zext(x, nt.w);
        }
        let w = self.w(t);
        self.intern(Node { op: Op::Ite, w, a: c, b: t, c: f, k: 0 })
    }

    /// evaluate under an assignment; only for nodes of width <= 128 (wider concats are handled by parts)
    pub fn eval(&self, e: E, m: &dyn Fn(u32) -> u8, memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m(n.k as u32) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let r = match n.op {
            Op::Ite => if self.eval(n.a, m, memo) != 0 { self.eval(n.b, m, memo) } else { self.eval(n.c, m, memo) },
            Op::Concat => { let (h, l) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo)); assert!(n.w <= 128); h << self.w(n.b) | l }
            Op::Extract => {
                let (hi, lo) = ((n.k >> 16) as u16, n.k as u16);
                (self.eval(n.a, m, memo) >> lo) & mask(hi - lo + 1)
            }
            Op::ZExt => self.eval(n.a, m, memo),
            Op::SExt => { let v = self.eval(n.a, m, memo); sext(v, self.w(n.a)) as u128 & mask(n.w) }
            Op::Slt => { let w = self.w(n.a); (sext(self.eval(n.a, m, memo), w) < sext(self.eval(n.b, m, memo), w)) as u128 }
            op => {
                let w = self.w(n.a);
                let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                match fold(op, w, x, y) {
                    Some(v) => v,
                    // SMT-LIB semantics of division by zero
                    None => match op { Op::UDiv => mask(w), Op::URem | Op::SRem => x, Op::SDiv => if sext(x, w) < 0 { 1 } else { mask(w) }, _ => panic!("eval {:?}", op) },
                }
            }
        };
        memo.insert(e, r);
        r
    }

    /// truth table of a boolean over its only variable
    pub fn truth(&mut self, e: E, var: u32) -> Rc<BitSet> {
        if let Some(t) = self.truth.get(&e) { return t.clone(); }
        let mut bs: BitSet = [0; 4];
        for v in 0..256usize {
            let mut memo = HashMap::new();
            if self.eval(e, &|i| { debug_assert_eq!(i, var); v as u8 }, &mut memo) != 0 { bs_set(&mut bs, v); }
        }
        let r = Rc::new(bs);
        self.truth.insert(e, r.clone());
        r
    }
    /// values of an expression over its only variable
    pub fn table(&self, e: E) -> Vec<u128> {
        (0..256usize).map(|v| { let mut memo = HashMap::new(); self.eval(e, &|_| v as u8, &mut memo) }).collect()
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ if depth == 0 => "..".into(),
            Op::Extract => format!("{}[{}:{}]", self.show(n.a, depth - 1), n.k >> 16, n.k & 0xffff),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
