//! The symbolic interpreter: path exploration over LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub struct Frame { pub func: usize, pub body: Rc<Body>, pub blk: u32, pub ip: u32, pub regs: Vec<V>, pub dst: u32, pub normal: u32, pub allocas: Vec<u64> }
impl Clone for Frame {
    fn clone(&self) -> Frame { Frame { func: self.func, body: self.body.clone(), blk: self.blk, ip: self.ip, regs: self.regs.clone(), dst: self.dst, normal: self.normal, allocas: self.allocas.clone() } }
}
#[derive(Clone, Debug)]
pub enum Ev { Bytes(Vec<E>), Choice(u32, u32) }

#[derive(Clone)]
pub struct State {
    pub top: Frame, pub stack: Vec<Rc<Frame>>, pub mem: Mem,
    pub dom: Vec<BitSet>, pub incons: Vec<bool>, pub cons: Vec<E>, pub model: Vec<u8>, pub fixed: Vec<(E, u64)>, pub ranges: Vec<(E, u128, u128)>,
    pub ev: Vec<Ev>, pub nin: usize, pub nundef: usize, pub nfrozen: usize,
    pub obs: Vec<Vec<E>>, pub steps: u64, pub forks: u32, pub pending: Option<usize>,
    /// what a choice resumed from a fork must return
    pub choice: Option<u32>,
    pub errno: u64,
}

pub enum Stop { Done, Infeasible, Violation { kind: String, key: String, msg: String }, Error(String) }
type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Error(s.into())) }

#[derive(Clone, Debug, Default)]
pub struct Found { pub kind: String, pub key: String, pub msg: String, pub trace: Vec<String>, pub inputs: String }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub instrs: u64, pub forks: u64, pub dom_decisions: u64, pub model_decisions: u64, pub fast_sat: u64,
    pub asserts: u64, pub asserts_solver: u64, pub asserts_concrete: u64, pub crosschecks: u64, pub path_checks: u64, pub branches_sym: u64, pub maxdepth: u32,
    pub killed_time: u64,
}
pub struct Cfg { pub max_steps: u64, pub witness_every: u64, pub verbose: bool, pub max_viol: usize, pub concrete: Option<Vec<Ev0>> , pub trace: bool }
#[derive(Clone, Debug)]
pub enum Ev0 { B(Vec<u8>), C(u32) }

pub struct Exec {
    pub m: Module, pub g: Globals, pub p: Pool, pub z: Z3, pub cfg: Cfg, pub st: Stats,
    pub work: Vec<State>, pub found: Vec<Found>, pub errors: BTreeMap<String, (u64, String)>, pub reach: BTreeMap<u32, u64>,
    pub witnesses: Vec<(String, Vec<String>)>,
    vars: HashMap<(u8, usize), E>, qcache: HashMap<Vec<u64>, Option<Vec<(u32, u8)>>>, rng: u64,
    pub fork_sites: HashMap<(usize, u32), u64>, pub errno_addr: u64, pub cur_loc: (usize, u32),
    pub stop: Option<(&'static std::sync::atomic::AtomicU64, u64, Instant)>, pub deadline: Option<Instant>,
}

fn c64(v: &V) -> Option<u64> { if let V::C(c) = v { Some(*c) } else { None } }
fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1 << w) - 1 } }
fn s64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn bin64(op: BinOp, w: u16, a: u64, b: u64) -> Option<u64> {
    let m = m64(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m, BinOp::Sub => a.wrapping_sub(b) & m, BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::And => a & b, BinOp::Or => a | b, BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u64 { 0 } else { (a << b) & m }, BinOp::LShr => if b >= w as u64 { 0 } else { a >> b },
        BinOp::AShr => ((s64(a, w) >> b.min(w as u64 - 1).min(63)) as u64) & m,
        BinOp::UDiv => if b == 0 { return None } else { a / b }, BinOp::URem => if b == 0 { return None } else { a % b },
        BinOp::SDiv => if b == 0 { return None } else { (s64(a, w).wrapping_div(s64(b, w)) as u64) & m },
        BinOp::SRem => if b == 0 { return None } else { (s64(a, w).wrapping_rem(s64(b, w)) as u64) & m },
        _ => return None,
    })
}
fn cmp64(p: Pred, w: u16, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
        Pred::Sgt => s64(a, w) > s64(b, w), Pred::Sge => s64(a, w) >= s64(b, w), Pred::Slt => s64(a, w) < s64(b, w), Pred::Sle => s64(a, w) <= s64(b, w),
    }
}
fn n_k(p: &Pool, e: E) -> u128 { p.as_const(e).unwrap_or(0) }
fn eop(op: BinOp) -> Option<Op> {
    Some(match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem,
        BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, _ => return None })
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg, timeout_ms: u32) -> Exec {
        let g = Globals::new(&m);
        Exec { m, g, p: Pool::new(), z: Z3::new(timeout_ms), cfg, st: Stats::default(), work: vec![], stop: None, deadline: None, found: vec![], errors: BTreeMap::new(), reach: BTreeMap::new(),
            witnesses: vec![], vars: HashMap::new(), qcache: HashMap::new(), rng: 0x9e3779b97f4a7c15, fork_sites: HashMap::new(), errno_addr: 0, cur_loc: (0, 0) }
    }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    pub fn initial(&mut self, entry: &str) -> Option<State> {
        let f = *self.m.fn_by_name.get(entry)?;
        let body = self.m.body(f)?;
        let mut mem = Mem::new();
        self.errno_addr = mem.alloc(8, 8, Kind::Misc, true);
        let top = Frame { func: f, blk: 0, ip: 0, regs: vec![V::C(0); body.nregs], body, dst: u32::MAX, normal: u32::MAX, allocas: vec![] };
        Some(State { top, stack: vec![], mem, dom: vec![], incons: vec![], cons: vec![], model: vec![], fixed: vec![], ranges: vec![], ev: vec![], nin: 0, nundef: 0, nfrozen: 0, obs: vec![], steps: 0, forks: 0, pending: None, choice: None, errno: 0 })
    }

    // ---------- values ----------
    pub fn to_e(&mut self, v: &V, w: u16) -> E {
        match v { V::C(c) => self.p.konst(*c as u128, w), V::W(c) => self.p.konst(**c, w), V::S(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }
    pub fn from_e(&self, e: E) -> V {
        match self.p.as_const(e) { Some(k) => vk(k, self.p.w(e)), None => V::S(e) }
    }
    fn to_bits(&mut self, v: &V, ty: &Ty) -> E {
        match (ty, v) {
            (Ty::Vec(_, t), V::A(a)) => {
                let mut r: Option<E> = None;
                for x in a.iter() { let e = self.to_bits(x, t); r = Some(match r { None => e, Some(l) => self.p.concat(e, l) }); }
                r.unwrap()
            }
            _ => self.to_e(v, ty.bits()),
        }
    }
    fn from_bits(&mut self, e: E, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let b = t.bits();
                V::A(Rc::new((0..*n as u16).map(|i| { let x = self.p.extract(e, (i + 1) * b - 1, i * b); self.from_bits(x, t) }).collect()))
            }
            _ => self.from_e(e),
        }
    }
    fn newvar(&mut self, st: &mut State, kind: VarKind) -> E {
        let (k, n) = match kind { VarKind::Input => { st.nin += 1; (0u8, st.nin) } VarKind::Undef => { st.nundef += 1; (1, st.nundef) } VarKind::Frozen => { st.nfrozen += 1; (2, st.nfrozen) } };
        let e = match self.vars.get(&(k, n)) { Some(&e) => e, None => { let i = self.p.var_nodes.len(); let e = self.p.get_var(i, kind); self.vars.insert((k, n), e); e } };
        let id = self.p.n(e).k as usize;
        while st.dom.len() <= id { st.dom.push([u64::MAX; 4]); st.incons.push(false); st.model.push(0); }
        e
    }
    fn undef_deps(&self, e: E) -> bool { self.p.vars(e).iter().any(|&v| self.p.var_kind[v as usize] == VarKind::Undef) }

    // ---------- constraints ----------
    fn eval_model(&self, e: E, model: &[u8]) -> u128 { let mut memo = HashMap::new(); self.p.eval(e, &|i| model[i as usize], &mut memo) }
    pub fn add(&mut self, st: &mut State, c: E) {
        if c == 1 { return; }
        let n = self.p.n(c).clone();
        if n.op == Op::And { self.add(st, n.a); self.add(st, n.b); return; }
        if n.op == Op::Xor && self.p.as_const(n.b) == Some(1) {
            let i = self.p.n(n.a).clone();
            if i.op == Op::Or { let (x, y) = (self.p.not(i.a), self.p.not(i.b)); self.add(st, x); self.add(st, y); return; }
        }
        let vs = self.p.vars(c);
        if vs.len() == 1 { let t = self.p.truth(c, vs[0]); let d = &mut st.dom[vs[0] as usize]; *d = bs_and(d, &t); }
        else { for &v in vs.iter() { st.incons[v as usize] = true; } if !st.cons.contains(&c) { st.cons.push(c); } }
    }
    fn slice(&self, st: &State, c: E) -> (Vec<E>, Vec<u32>) {
        let mut vars: Vec<u32> = self.p.vars(c).to_vec();
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![];
        if vars.iter().any(|&v| st.incons[v as usize]) {
            let mut inset = vec![false; st.dom.len()];
            for &v in &vars { inset[v as usize] = true; }
            loop {
                let mut ch = false;
                for (i, &k) in st.cons.iter().enumerate() {
                    if used[i] { continue; }
                    let kv = self.p.vars(k);
                    if kv.iter().any(|&v| inset[v as usize]) { used[i] = true; ch = true; out.push(k); for &v in kv.iter() { if !inset[v as usize] { inset[v as usize] = true; vars.push(v); } } }
                }
                if !ch { break; }
            }
        }
        vars.sort(); out.sort();
        (out, vars)
    }
    /// Find a model of the path condition plus c (c multi-variable or entangled); None = infeasible
    fn solve(&mut self, st: &State, c: E) -> R<Option<Vec<(u32, u8)>>> {
        let (mut cons, vars) = self.slice(st, c);
        let mut key: Vec<u64> = Vec::with_capacity(cons.len() + 2 + vars.len() * 5);
        key.push(c as u64); key.push(u64::MAX);
        for &k in &cons { key.push(k as u64); }
        key.push(u64::MAX);
        for &v in &vars { let d = st.dom[v as usize]; if d != [u64::MAX; 4] { key.push(v as u64); key.extend_from_slice(&d); } }
        if let Some(r) = self.qcache.get(&key) { return Ok(r.clone()); }
        cons.push(c);
        let doms: Vec<(E, BitSet)> = vars.iter().map(|&v| (self.p.var_nodes[v as usize], st.dom[v as usize])).collect();
        let mut want: Vec<(E, u8)> = vars.iter().map(|&v| (self.p.var_nodes[v as usize], 0)).collect();
        let r = match self.z.check(&self.p, &cons, &doms, &mut want) {
            Res::Sat => Some(vars.iter().zip(want.iter()).map(|(&v, w)| (v, w.1)).collect::<Vec<_>>()),
            Res::Unsat => None,
            Res::Unknown => return err("solver timeout"),
        };
        if self.qcache.len() > 200_000 { self.qcache.clear(); }
        self.qcache.insert(key, r.clone());
        Ok(r)
    }
    fn try_sat(&mut self, st: &State, c: E, model: &mut Vec<u8>, depth: u32) -> bool {
        if c == 1 { return true; }
        if c == 0 || depth > 12 { return false; }
        let vs = self.p.vars(c);
        if vs.len() == 1 {
            let v = vs[0];
            let t = self.p.truth(c, v);
            let d = bs_and(&st.dom[v as usize], &t);
            if bs_empty(&d) { return false; }
            if !bs_get(&d, model[v as usize] as usize) { model[v as usize] = bs_first(&d); }
            return true;
        }
        if self.eval_model(c, model) != 0 { return true; }
        let n = self.p.n(c).clone();
        match n.op {
            Op::And => self.try_sat(st, n.a, model, depth + 1) && self.try_sat(st, n.b, model, depth + 1),
            Op::Or => { let save = model.clone(); if self.try_sat(st, n.a, model, depth + 1) { return true; } *model = save; self.try_sat(st, n.b, model, depth + 1) }
            Op::Xor if self.p.as_const(n.b) == Some(1) => {
                let i = self.p.n(n.a).clone();
                match i.op {
                    Op::And => { let (x, y) = (self.p.not(i.a), self.p.not(i.b)); let save = model.clone(); if self.try_sat(st, x, model, depth + 1) { return true; } *model = save; self.try_sat(st, y, model, depth + 1) }
                    Op::Or => { let (x, y) = (self.p.not(i.a), self.p.not(i.b)); self.try_sat(st, x, model, depth + 1) && self.try_sat(st, y, model, depth + 1) }
                    Op::Eq => {
                        // not (x == y): perturb one variable
                        for &v in vs.iter().take(3) {
                            let d = st.dom[v as usize]; let cur = model[v as usize];
                            let mut tried = 0;
                            for k in 0..256usize { if k as u8 != cur && bs_get(&d, k) { model[v as usize] = k as u8; if self.eval_model(c, model) != 0 { return true; } tried += 1; if tried > 3 { break; } } }
                            model[v as usize] = cur;
                        }
                        false
                    }
                    _ => false,
                }
            }
            Op::Eq => {
                // variable == something
                let (a, b) = (self.p.n(n.a).clone(), self.p.n(n.b).clone());
                if a.op == Op::Var { let k = self.eval_model(n.b, model) as usize; if bs_get(&st.dom[a.k as usize], k) { model[a.k as usize] = k as u8; return self.eval_model(c, model) != 0; } }
                if b.op == Op::Var { let k = self.eval_model(n.a, model) as usize; if bs_get(&st.dom[b.k as usize], k) { model[b.k as usize] = k as u8; return self.eval_model(c, model) != 0; } }
                false
            }
            _ => false,
        }
    }
    fn model_ok(&self, st: &State, model: &[u8], vars: &[u32]) -> bool {
        for &v in vars { if !bs_get(&st.dom[v as usize], model[v as usize] as usize) { return false; } }
        for &k in &st.cons { let kv = self.p.vars(k); if kv.iter().any(|v| model[*v as usize] != st.model[*v as usize]) && self.eval_model(k, model) == 0 { return false; } }
        true
    }
    /// feasibility of c in st; on success returns a model satisfying path condition and c
    pub fn feasible(&mut self, st: &State, c: E) -> R<Option<Vec<u8>>> {
        if c == 1 { return Ok(Some(st.model.clone())); }
        if c == 0 { return Ok(None); }
        let vs = self.p.vars(c);
        if vs.len() == 1 {
            let v = vs[0] as usize;
            let t = self.p.truth(c, vs[0]);
            let d = bs_and(&st.dom[v], &t);
            self.st.dom_decisions += 1;
            if self.rnd() % 512 == 0 { self.crosscheck(st, c, !bs_empty(&d) , vs[0])?; }
            if bs_empty(&d) { return Ok(None); }
            if bs_get(&d, st.model[v] as usize) { return Ok(Some(st.model.clone())); }
            if !st.incons[v] { let mut m = st.model.clone(); m[v] = bs_first(&d); return Ok(Some(m)); }
            let mut m = st.model.clone();
            let mut tried = 0;
            for k in 0..256 { if bs_get(&d, k) { m[v] = k as u8; if self.model_ok(st, &m, &vs) { self.st.fast_sat += 1; return Ok(Some(m)); } tried += 1; if tried >= 4 { break; } } }
        } else {
            if self.eval_model(c, &st.model) != 0 { self.st.model_decisions += 1; return Ok(Some(st.model.clone())); }
            let mut m = st.model.clone();
            if self.try_sat(st, c, &mut m, 0) {
                let vs = self.p.vars(c);
                if self.model_ok(st, &m, &vs) && self.eval_model(c, &m) != 0 { self.st.fast_sat += 1; return Ok(Some(m)); }
            }
        }
        match self.solve(st, c)? {
            None => Ok(None),
            Some(asg) => {
                let mut m = st.model.clone();
                for (v, k) in asg { m[v as usize] = k; }
                if self.eval_model(c, &m) == 0 { return err("model does not satisfy its query (encoding bug)"); }
                Ok(Some(m))
            }
        }
    }
    fn crosscheck(&mut self, st: &State, c: E, want: bool, v: u32) -> R<()> {
        self.st.crosschecks += 1;
        let d = [(self.p.var_nodes[v as usize], st.dom[v as usize])];
        match self.z.check(&self.p, &[c], &d, &mut []) {
            Res::Sat if want => Ok(()), Res::Unsat if !want => Ok(()), Res::Unknown => Ok(()),
            r => err(format!("solver disagrees with domain decision: {:?} vs {}", r, want)),
        }
    }
    fn set_model(&mut self, st: &mut State, m: Vec<u8>) { st.model = m; }

    /// Branch on a boolean. Returns (taken in this state); pushes the other side if feasible.
    /// `fix` prepares the forked state for the other outcome.
    fn branch(&mut self, st: &mut State, c: E, fix: &mut dyn FnMut(&mut Exec, &mut State, bool)) -> R<bool> {
        if c == 1 { return Ok(true); }
        if c == 0 { return Ok(false); }
        self.st.branches_sym += 1;
        let nc = self.p.not(c);
        if self.undef_deps(c) {
            let (t, f) = (self.feasible(st, c)?, self.feasible(st, nc)?);
            if t.is_some() && f.is_some() { return self.uninit_violation(st, c, "branch"); }
        }
        let t = self.feasible(st, c)?;
        let f = self.feasible(st, nc)?;
        match (t, f) {
            (Some(mt), Some(mf)) => {
                self.st.forks += 1;
                *self.fork_sites.entry(self.cur_loc).or_insert(0) += 1;
                let mut o = st.clone();
                o.forks += 1; st.forks += 1;
                o.model = mf;
                self.add(&mut o, nc);
                fix(self, &mut o, false);
                self.work.push(o);
                self.set_model(st, mt);
                self.add(st, c);
                Ok(true)
            }
            (Some(mt), None) => { self.set_model(st, mt); Ok(true) }
            (None, Some(mf)) => { self.set_model(st, mf); Ok(false) }
            (None, None) => Err(Stop::Infeasible),
        }
    }
    /// does c really depend on uninitialised bytes? (not just syntactically)
    fn uninit_violation<T>(&mut self, st: &mut State, c: E, what: &str) -> R<T> {
        // make a renamed copy of c where every undef variable is replaced by a fresh one
        let vs = self.p.vars(c);
        let mut map = HashMap::new();
        for &v in vs.iter() { if self.p.var_kind[v as usize] == VarKind::Undef { let f = self.newvar(st, VarKind::Frozen); map.insert(v, f); } }
        let mut memo = HashMap::new();
        let c2 = self.subst(c, &map, &mut memo);
        let same = self.p.eq(c, c2);
        let diff = self.p.not(same);
        let diff = if self.p.w(c) == 1 { diff } else { diff };
        match self.feasible(st, diff)? {
            Some(m) => { st.model = m; Err(Stop::Violation { kind: "uninit".into(), key: format!("uninit:{}", self.whereami(st)), msg: format!("{} depends on uninitialised memory", what) }) }
            None => err("undef-tainted but independent condition"),
        }
    }
    fn subst(&mut self, e: E, map: &HashMap<u32, E>, memo: &mut HashMap<E, E>) -> E {
        if let Some(&r) = memo.get(&e) { return r; }
        let n = self.p.n(e).clone();
        let r = match n.op {
            Op::Const => e,
            Op::Var => map.get(&(n.k as u32)).copied().unwrap_or(e),
            Op::Ite => { let (a, b, c) = (self.subst(n.a, map, memo), self.subst(n.b, map, memo), self.subst(n.c, map, memo)); self.p.ite(a, b, c) }
            Op::Extract => { let a = self.subst(n.a, map, memo); self.p.extract(a, (n.k >> 16) as u16, n.k as u16) }
            Op::ZExt => { let a = self.subst(n.a, map, memo); self.p.zext(a, n.w) }
            Op::SExt => { let a = self.subst(n.a, map, memo); self.p.sext(a, n.w) }
            Op::Concat => { let (a, b) = (self.subst(n.a, map, memo), self.subst(n.b, map, memo)); self.p.concat(a, b) }
            op => { let (a, b) = (self.subst(n.a, map, memo), self.subst(n.b, map, memo)); self.p.bin(op, a, b) }
        };
        memo.insert(e, r);
        r
    }

    /// Force a value to be concrete in this state, forking over its other values.
    fn conc_e(&mut self, st: &mut State, e: E, write: &mut dyn FnMut(&mut State, u64)) -> R<u64> {
        if let Some(k) = self.p.as_const(e) { return Ok(k as u64); }
        if let Some(f) = st.fixed.iter().find(|f| f.0 == e) { let k = f.1; write(st, k); return Ok(k); }
        if self.undef_deps(e) { return self.uninit_violation(st, e, "address, length or selector"); }
        let w = self.p.w(e);
        let mut vals: Vec<(u64, Vec<u8>)> = vec![];
        let vs = self.p.vars(e);
        let mut cands: Option<Vec<u64>> = None;
        if vs.len() == 1 {
            let t = self.p.table(e);
            let d = st.dom[vs[0] as usize];
            let mut c: Vec<u64> = (0..256).filter(|&i| bs_get(&d, i)).map(|i| t[i] as u64).collect();
            c.sort(); c.dedup();
            cands = Some(c);
        }
        match cands {
            Some(c) => for k in c { let kk = self.p.konst(k as u128, w); let q = self.p.eq(e, kk); if let Some(m) = self.feasible(st, q)? { vals.push((k, m)); } },
            None => {
                let mut excl = 1;
                loop {
                    let Some(m) = self.feasible(st, excl)? else { break };
                    let k = self.eval_model(e, &m) as u64;
                    let kk = self.p.konst(k as u128, w);
                    let q = self.p.eq(e, kk);
                    let nq = self.p.not(q);
                    excl = self.p.bin(Op::And, excl, nq);
                    vals.push((k, m));
                    if vals.len() > 600 { return err("too many values to enumerate"); }
                }
            }
        }
        if vals.is_empty() { return Err(Stop::Infeasible); }
        if vals.len() > 1 { *self.fork_sites.entry(self.cur_loc).or_insert(0) += vals.len() as u64 - 1; }
        let multi = vals.len() > 1;
        for (k, m) in vals.drain(1..).rev() {
            let mut o = st.clone();
            o.forks += 1;
            o.model = m;
            let kk = self.p.konst(k as u128, w);
            let q = self.p.eq(e, kk);
            self.add(&mut o, q);
            o.fixed.push((e, k));
            write(&mut o, k);
            self.st.forks += 1;
            self.work.push(o);
        }
        let (k, m) = vals.pop().unwrap();
        st.model = m;
        if multi { st.forks += 1; }
        let kk = self.p.konst(k as u128, w);
        let q = self.p.eq(e, kk);
        self.add(st, q);
        st.fixed.push((e, k));
        write(st, k);
        Ok(k)
    }
    /// Floating-point operands are made concrete (forking over their values).
    fn fix(&mut self, st: &mut State, v: &V) -> R<V> {
        match v { V::S(e) => Ok(V::C(self.conc_e(st, *e, &mut |_, _| {})?)), v => Ok(v.clone()) }
    }
    /// Forks over the values of an expression whose inputs have few joint
    /// values; inputs determined by the value become constants.
    fn split_values(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(f) = st.fixed.iter().find(|f| f.0 == e) { return Ok(f.1); }
        let (cons, vars) = self.slice(st, e);
        let vs = self.p.vars(e).to_vec();
        if vars != vs { return self.conc_e(st, e, &mut |_, _| {}); }
        let mut asg: Vec<Vec<u8>> = vec![vec![]];
        for &v in &vs {
            let d = st.dom[v as usize];
            asg = asg.into_iter().flat_map(|a| (0..256).filter(|&i| bs_get(&d, i)).map(move |i| { let mut b = a.clone(); b.push(i as u8); b }).collect::<Vec<_>>()).collect();
        }
        let mut by: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
        let mut m = st.model.clone();
        for a in asg {
            for (i, &v) in vs.iter().enumerate() { m[v as usize] = a[i]; }
            if cons.iter().any(|&c| self.eval_model(c, &m) == 0) { continue; }
            let k = self.eval_model(e, &m) as u64;
            by.entry(k).or_default().push(a);
        }
        self.st.dom_decisions += by.len() as u64;
        let mut out = vec![];
        for (k, a) in by {
            let mut o = st.clone();
            for (i, &v) in vs.iter().enumerate() {
                o.model[v as usize] = a[0][i];
                let mut d: BitSet = [0; 4];
                for x in &a { bs_set(&mut d, x[i] as usize); }
                o.dom[v as usize] = d;
            }
            if a.len() > 1 { let kk = self.p.konst(k as u128, self.p.w(e)); let q = self.p.eq(e, kk); self.add(&mut o, q); }
            o.fixed.push((e, k));
            out.push((k, o));
        }
        let Some((k, o)) = out.pop() else { return Err(Stop::Infeasible) };
        if !out.is_empty() { *self.fork_sites.entry(self.cur_loc).or_insert(0) += out.len() as u64; }
        let multi = !out.is_empty();
        for (_, mut o) in out { o.forks += 1; self.st.forks += 1; self.work.push(o); }
        *st = o;
        if multi { st.forks += 1; }
        Ok(k)
    }
    fn conc(&mut self, st: &mut State, o: &Opd, w: u16) -> R<u64> {
        match o {
            Opd::K(V::C(c)) => Ok(*c),
            Opd::R(r) => {
                let r = *r as usize;
                match &st.top.regs[r] { V::C(c) => Ok(*c), V::S(e) => { let e = *e; let _ = w; self.conc_e(st, e, &mut |s, k| s.top.regs[r] = V::C(k)) } _ => err("conc of wide value") }
            }
            _ => err("conc"),
        }
    }

    // ---------- memory ----------
    pub fn memerr<T>(&self, st: &State, s: String) -> R<T> { Err(Stop::Violation { kind: "memory".into(), key: format!("memory:{}", self.whereami(st)), msg: s }) }
    fn byte_e(&mut self, st: &mut State, b: u8, sh: u32) -> E {
        match sh { CONC => self.p.konst(b as u128, 8), UNINIT => self.newvar(st, VarKind::Undef), e => e }
    }
    pub fn load_int(&mut self, st: &mut State, a: u64, w: u16) -> R<V> {
        let n = (w as usize + 7) / 8;
        let (loc, off) = match st.mem.locate(&self.g, a, n as u64, false) { Ok(x) => x, Err(s) => return self.memerr(st, s) };
        let o = st.mem.obj(&self.g, &loc);
        if o.all_conc(off, n) {
            if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); return Ok(V::C(u64::from_le_bytes(b) & m64(w))); }
            if n <= 16 { let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.data[off..off + n]); return Ok(vk(u128::from_le_bytes(b), w)); }
        }
        let bytes: Vec<(u8, u32)> = (0..n).map(|i| o.get(off + i)).collect();
        let mut r: Option<E> = None;
        for (b, sh) in bytes { let e = self.byte_e(st, b, sh); r = Some(match r { None => e, Some(l) => self.p.concat(e, l) }); }
        let mut e = r.unwrap();
        if w as usize != n * 8 { e = self.p.extract(e, w - 1, 0); }
        Ok(self.from_e(e))
    }
    pub fn load(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => self.load_int(st, a, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, a, 64),
            Ty::F32 => self.load_int(st, a, 32),
            Ty::Vec(n, t) => {
                if t.bits() % 8 == 0 { let s = t.size(); let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load(st, a + i * s, t)?); } Ok(V::A(Rc::new(v))) }
                else { let b = self.load_int(st, a, ty.bits())?; let e = self.to_e(&b, ty.bits()); Ok(self.from_bits(e, ty)) }
            }
            Ty::Arr(n, t) => { let s = t.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load(st, a + i * s, t)?); } Ok(V::A(Rc::new(v))) }
            Ty::Struct(f, _) => { let mut v = vec![]; for i in 0..f.len() { let (o, t) = ty.field(i as u64); v.push(self.load(st, a + o, &t)?); } Ok(V::A(Rc::new(v))) }
            _ => err(format!("load of {:?}", ty)),
        }
    }
    pub fn store_int(&mut self, st: &mut State, a: u64, v: &V, w: u16) -> R<()> {
        let n = (w as usize + 7) / 8;
        let (loc, off) = match st.mem.locate(&self.g, a, n as u64, true) { Ok(x) => x, Err(s) => return self.memerr(st, s) };
        match v {
            V::C(_) | V::W(_) => {
                let k = match v { V::C(c) => *c as u128, V::W(c) => **c, _ => 0 };
                let o = st.mem.obj_mut(&self.g, &loc);
                o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sh { s[off..off + n].fill(CONC); }
            }
            V::S(e) => {
                let mut e = *e;
                if w as usize != n * 8 { e = self.p.zext(e, n as u16 * 8); }
                let bs: Vec<(u8, u32)> = (0..n as u16).map(|i| { let b = self.p.extract(e, i * 8 + 7, i * 8); match self.p.as_const(b) { Some(k) => (k as u8, CONC), None => {
                    // a byte that is exactly one undefined variable stays undefined memory
                    if self.p.n(b).op == Op::Var && self.p.var_kind[self.p.n(b).k as usize] == VarKind::Undef { (0, UNINIT) } else { (0, b) } } } }).collect();
                let o = st.mem.obj_mut(&self.g, &loc);
                for (i, (b, s)) in bs.into_iter().enumerate() { o.set(off + i, b, s); }
            }
            V::A(_) => return err("store aggregate int"),
        }
        Ok(())
    }
    pub fn store(&mut self, st: &mut State, a: u64, v: &V, ty: &Ty) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, a, v, *w),
            Ty::Ptr | Ty::F64 => self.store_int(st, a, v, 64),
            Ty::F32 => self.store_int(st, a, v, 32),
            Ty::Vec(_, t) if t.bits() % 8 == 0 => { let V::A(x) = v else { return err("store vec") }; let s = t.size(); for (i, x) in x.iter().enumerate() { self.store(st, a + i as u64 * s, x, t)?; } Ok(()) }
            Ty::Vec(..) => { let e = self.to_bits(v, ty); let x = self.from_e(e); self.store_int(st, a, &x, ty.bits()) }
            Ty::Arr(_, t) => { let V::A(x) = v else { return err("store arr") }; let s = t.size(); for (i, x) in x.iter().enumerate() { self.store(st, a + i as u64 * s, x, t)?; } Ok(()) }
            Ty::Struct(f, _) => { let V::A(x) = v else { return err("store struct") }; for i in 0..f.len() { let (o, t) = ty.field(i as u64); self.store(st, a + o, &x[i], &t)?; } Ok(()) }
            _ => err(format!("store of {:?}", ty)),
        }
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<(u8, u32)>> {
        if n == 0 { return Ok(vec![]); }
        let (loc, off) = match st.mem.locate(&self.g, a, n, false) { Ok(x) => x, Err(s) => return self.memerr(st, s) };
        let o = st.mem.obj(&self.g, &loc);
        Ok((0..n as usize).map(|i| o.get(off + i)).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[(u8, u32)]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (loc, off) = match st.mem.locate(&self.g, a, b.len() as u64, true) { Ok(x) => x, Err(s) => return self.memerr(st, s) };
        let o = st.mem.obj_mut(&self.g, &loc);
        for (i, &(x, s)) in b.iter().enumerate() { o.set(off + i, x, s); }
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sl, so) = match st.mem.locate(&self.g, s, n, false) { Ok(x) => x, Err(e) => return self.memerr(st, e) };
        let n = n as usize;
        let o = st.mem.obj(&self.g, &sl);
        let data = o.data[so..so + n].to_vec();
        let sh = if o.all_conc(so, n) { None } else { o.sh.as_ref().map(|x| x[so..so + n].to_vec()) };
        let (dl, doff) = match st.mem.locate(&self.g, d, n as u64, true) { Ok(x) => x, Err(e) => return self.memerr(st, e) };
        let o = st.mem.obj_mut(&self.g, &dl);
        o.data[doff..doff + n].copy_from_slice(&data);
        match (&mut o.sh, sh) {
            (Some(x), Some(y)) => x[doff..doff + n].copy_from_slice(&y),
            (Some(x), None) => x[doff..doff + n].fill(CONC),
            (None, Some(y)) => { let mut x = vec![CONC; o.size as usize]; x[doff..doff + n].copy_from_slice(&y); o.sh = Some(x); }
            (None, None) => {}
        }
        Ok(())
    }
    /// load through a symbolic pointer that depends on one input byte (table lookup)
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Option<V>> {
        let w = match ty { Ty::Int(w) if *w <= 64 => *w, Ty::Ptr => 64, _ => return Ok(None) };
        let vs = self.p.vars(e);
        if vs.len() != 1 || self.undef_deps(e) { return Ok(None); }
        let v = vs[0];
        let t = self.p.table(e);
        let d = st.dom[v as usize];
        let mut res: Vec<(usize, E)> = vec![];
        for i in 0..256usize {
            if !bs_get(&d, i) { continue; }
            let n = (w as u64 + 7) / 8;
            if st.mem.locate(&self.g, t[i] as u64, n, false).is_err() {
                // only an error if this value is feasible
                let ve = self.p.var_nodes[v as usize];
                let k = self.p.konst(i as u128, 8);
                let q = self.p.eq(ve, k);
                match self.feasible(st, q)? { Some(m) => { st.model = m; let s = st.mem.locate(&self.g, t[i] as u64, n, false).err().unwrap(); return self.memerr(st, s); } None => continue }
            }
            let x = self.load_int(st, t[i] as u64, w)?;
            let xe = self.to_e(&x, w);
            res.push((i, xe));
        }
        if res.is_empty() { return Err(Stop::Infeasible); }
        // pointer results are better forked over than merged
        if w == 64 && res.iter().any(|r| self.p.as_const(r.1).map_or(false, |k| k > 0xffff_ffff)) && res.windows(2).any(|x| x[0].1 != x[1].1) { return Ok(None); }
        let ve = self.p.var_nodes[v as usize];
        let mut acc = res.last().unwrap().1;
        let mut i = res.len();
        while i > 0 {
            let cur = res[i - 1].1;
            let mut j = i - 1;
            while j > 0 && res[j - 1].1 == cur { j -= 1; }
            // entries j..i have value cur; they apply when ve < bound of the next group
            if i < res.len() { let k = self.p.konst(res[i].0 as u128, 8); let c = self.p.bin(Op::Ult, ve, k); acc = self.p.ite(c, cur, acc); }
            i = j;
        }
        Ok(Some(self.from_e(acc)))
    }

    pub fn whereami(&self, st: &State) -> String {
        // innermost tmi function, else innermost function
        let mut names = vec![self.m.funcs[st.top.func].name.as_str()];
        for f in st.stack.iter().rev() { names.push(self.m.funcs[f.func].name.as_str()); }
        demangle(names[0])
    }
    pub fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![demangle(&self.m.funcs[st.top.func].name)];
        for f in st.stack.iter().rev().take(12) { v.push(demangle(&self.m.funcs[f.func].name)); }
        v
    }
    pub fn inputs_of(&self, st: &State, model: &[u8]) -> String {
        let mut s = String::new();
        for e in &st.ev {
            match e {
                Ev::Choice(n, k) => s.push_str(&format!("c {} {}\n", n, k)),
                Ev::Bytes(b) => { s.push_str("b "); for &x in b { s.push_str(&format!("{:02x}", self.eval_model(x, model))); } s.push('\n'); }
            }
        }
        s
    }

    // ---------- exploration ----------
    pub fn explore(&mut self, deadline: Option<Instant>, stop_at: Option<usize>) {
        let begin = Instant::now();
        self.deadline = deadline;
        while let Some(mut st) = if stop_at.is_some() { if self.work.is_empty() { None } else { Some(self.work.remove(0)) } } else { self.work.pop() } {
            self.run_path(&mut st, stop_at.is_some());
            if let Some(k) = stop_at { if self.work.len() >= k || (self.work.len() >= k / 8 && begin.elapsed().as_secs() >= 3) { return; } }
            if let Some(d) = deadline { if Instant::now() > d { self.st.killed_time += self.work.len() as u64; if !self.work.is_empty() { let n = self.work.len(); self.errors.insert("time limit".into(), (n as u64, String::new())); } self.work.clear(); return; } }
            if self.found.len() >= self.cfg.max_viol { self.work.clear(); return; }
            if self.stopped() && !self.work.is_empty() { let n = self.work.len(); self.errors.insert("not continued after a violation".into(), (n as u64, String::new())); self.work.clear(); return; }
        }
    }
    fn stopped(&mut self) -> bool {
        let Some((at, secs, t0)) = &self.stop else { return false };
        let now = t0.elapsed().as_millis() as u64;
        let end = at.load(std::sync::atomic::Ordering::Relaxed);
        if end != 0 { return now > end; }
        if !self.found.is_empty() { at.store(now + 1000 * secs, std::sync::atomic::Ordering::Relaxed); }
        false
    }
    fn run_path(&mut self, st: &mut State, bfs: bool) {
        let forks0 = st.forks;
        let r = loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => break s,
            }
            if st.steps > self.cfg.max_steps { break Stop::Violation { kind: "nontermination".into(), key: format!("steps:{}", self.whereami(st)), msg: format!("no termination within {} instructions", self.cfg.max_steps) }; }
            if st.steps & 0x3ff == 0 { if let Some(d) = self.deadline { if Instant::now() > d + std::time::Duration::from_secs(5) { break Stop::Error("time limit within a path".into()); } } }
            if bfs && st.forks != forks0 { self.work.push(st.clone()); return; }
        };
        self.finish(st, r);
    }
    fn finish(&mut self, st: &mut State, r: Stop) {
        self.st.maxdepth = self.st.maxdepth.max(st.forks);
        match r {
            Stop::Infeasible => self.st.infeasible += 1,
            Stop::Error(s) => { let w = self.trace(st).join(" < "); let i = self.inputs_of(st, &st.model.clone()); self.errors.entry(s).or_insert((0, format!("{}\n{}", w, i))).0 += 1; }
            Stop::Done => {
                self.st.paths += 1;
                if self.cfg.witness_every > 0 && (self.st.paths == 1 || self.rnd() % self.cfg.witness_every == 0) { self.witness(st); }
            }
            Stop::Violation { kind, key, msg } => {
                self.st.paths += 1;
                let n = self.found.iter().filter(|f| f.key == key).count();
                if n < 2 {
                    // confirm the whole path condition with the solver before reporting
                    match self.full_check(st, true) {
                        Ok(true) => { let inputs = self.inputs_of(st, &st.model.clone()); let trace = self.trace(st); self.found.push(Found { kind, key, msg, trace, inputs }); }
                        Ok(false) => { self.errors.entry("path condition unsat at violation (engine bug)".into()).or_insert((0, msg)).0 += 1; }
                        Err(_) => { self.errors.entry("solver timeout at violation".into()).or_insert((0, msg)).0 += 1; }
                    }
                }
            }
        }
    }
    /// whole path condition to z3; refreshes the model
    fn full_check(&mut self, st: &mut State, keep_model: bool) -> Result<bool, ()> {
        self.st.path_checks += 1;
        let doms: Vec<(E, BitSet)> = (0..st.dom.len()).map(|v| (self.p.var_nodes[v], st.dom[v])).collect();
        let mut want: Vec<(E, u8)> = if keep_model { vec![] } else { (0..st.dom.len()).map(|v| (self.p.var_nodes[v], 0)).collect() };
        let mut cons = st.cons.clone();
        if keep_model {
            // the model found on the way must satisfy everything: add it as assumptions
            for v in 0..st.dom.len() { let (x, k) = (self.p.var_nodes[v], self.p.konst(st.model[v] as u128, 8)); let q = self.p.eq(x, k); cons.push(q); }
        }
        match self.z.check(&self.p, &cons, &doms, &mut want) {
            Res::Sat => { for (i, w) in want.iter().enumerate() { st.model[i] = w.1; } Ok(true) }
            Res::Unsat => Ok(false),
            Res::Unknown => Err(()),
        }
    }
    fn witness(&mut self, st: &mut State) {
        match self.full_check(st, false) {
            Ok(true) => {
                let inp = self.inputs_of(st, &st.model.clone());
                let obs = st.obs.clone();
                let o = obs.iter().map(|b| b.iter().map(|&e| format!("{:02x}", self.eval_model(e, &st.model))).collect::<String>()).collect();
                if self.witnesses.len() < 400 { self.witnesses.push((inp, o)); }
            }
            Ok(false) => { self.errors.entry("path condition unsat at end of path (engine bug)".into()).or_insert((0, String::new())).0 += 1; }
            Err(()) => { self.errors.entry("solver timeout at end of path".into()).or_insert((0, String::new())).0 += 1; }
        }
    }

    // ---------- one instruction ----------
    fn get(&self, st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.top.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn set(&self, st: &mut State, r: u32, v: V) { if r != u32::MAX { st.top.regs[r as usize] = v; } }

    fn goto(&mut self, st: &mut State, to: u32) {
        let from = st.top.blk;
        let body = st.top.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                let v = ph.inc.iter().find(|x| x.0 == from).map(|x| self.get(st, &x.1)).expect("phi edge");
                st.top.regs[ph.dst as usize] = v;
            } else {
                let vals: Vec<V> = b.phis.iter().map(|ph| ph.inc.iter().find(|x| x.0 == from).map(|x| self.get(st, &x.1)).expect("phi edge")).collect();
                for (ph, v) in b.phis.iter().zip(vals) { st.top.regs[ph.dst as usize] = v; }
            }
        }
        st.top.blk = to;
        st.top.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let body = st.top.body.clone();
        let blk = &body.blocks[st.top.blk as usize];
        let ins = &blk.ins[st.top.ip as usize];
        st.steps += 1;
        self.st.instrs += 1;
        self.cur_loc = (st.top.func, st.top.blk);
        if self.cfg.trace { eprintln!("{} {} {:?}", &demangle(&self.m.funcs[st.top.func].name), blk.name, ins); }
        match ins {
            I::Bin(op, d, ty, a, b) => {
                let r = match (ty, a, b) {
                    (Ty::Int(w), _, _) if *w <= 64 => {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        match (&x, &y) {
                            (V::C(p), V::C(q)) => match bin64(*op, *w, *p, *q) { Some(r) => V::C(r), None => return self.div0(st) },
                            _ => self.bin(st, *op, ty, &x, &y)?,
                        }
                    }
                    _ => { let (x, y) = (self.get(st, a), self.get(st, b)); self.bin(st, *op, ty, &x, &y)? }
                };
                self.set(st, *d, r);
            }
            I::Cmp(p, d, ty, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match (&x, &y) { (V::C(q), V::C(s)) => V::C(cmp64(*p, ty.bits(), *q, *s) as u64), _ => match self.cmp_range(st, *p, if matches!(ty, Ty::Vec(..)) { 0 } else { ty.bits() }, &x, &y) { Some(r) => V::C(r as u64), None => self.cmp(*p, ty, &x, &y)? } };
                self.set(st, *d, r);
            }
            I::Cast(k, d, t1, t2, a) => { let mut x = self.get(st, a); if matches!(k, CastOp::FpOp(_)) { x = self.fix(st, &x)?; } let r = self.cast(*k, t1, t2, &x)?; self.set(st, *d, r); }
            I::Gep(d, base, off, idx) => {
                let bv = self.get(st, base);
                let mut acc = match &bv { V::C(b) => Ok(b.wrapping_add(*off as u64)), V::S(e) => { let k = self.p.konst(*off as u64 as u128, 64); Err(self.p.bin(Op::Add, *e, k)) } _ => return err("gep base") };
                for (o, w, sc) in idx {
                    let v = self.get(st, o);
                    match (&acc, &v) {
                        (Ok(b), V::C(i)) => acc = Ok(b.wrapping_add((s64(*i, *w) as u64).wrapping_mul(*sc as u64))),
                        (_, V::C(_)) | (_, V::S(_)) => {
                            let ie = self.to_e(&v, *w);
                            let ie = self.p.sext(ie, 64);
                            let k = self.p.konst(*sc as u64 as u128, 64);
                            let t = self.p.bin(Op::Mul, ie, k);
                            let b = match acc { Ok(b) => self.p.konst(b as u128, 64), Err(e) => e };
                            acc = Err(self.p.bin(Op::Add, b, t));
                        }
                        _ => return err("gep index"),
                    }
                }
                let r = match acc { Ok(b) => V::C(b), Err(e) => self.from_e(e) };
                self.set(st, *d, r);
            }
            I::Load(d, ty, p, _al) => {
                let pv = self.get(st, p);
                let a = match pv {
                    V::C(a) => a,
                    V::S(e) => {
                        if let Some(v) = self.load_sym(st, e, ty)? { self.set(st, *d, v); st.top.ip += 1; return Ok(()); }
                        self.conc(st, p, 64)?
                    }
                    _ => return err("load ptr"),
                };
                let v = self.load(st, a, ty)?;
                self.set(st, *d, v);
            }
            I::Store(ty, v, p, _al) => {
                let a = self.conc(st, p, 64)?;
                let x = self.get(st, v);
                self.store(st, a, &x, ty)?;
            }
            I::Alloca(d, size, al, n) => {
                let k = self.conc(st, n, 64)?;
                let a = st.mem.alloc(size * k, *al as u64, Kind::Stack, false);
                st.top.allocas.push(a);
                self.set(st, *d, V::C(a));
            }
            I::Select(d, ty, c, a, b, vec) => {
                let cv = self.get(st, c);
                let r = if *vec {
                    let (V::A(cs), V::A(x), V::A(y)) = (&cv, &self.get(st, a), &self.get(st, b)) else { return err("vselect") };
                    let Ty::Vec(_, t) = ty else { return err("vselect") };
                    let mut o = vec![];
                    for i in 0..cs.len() { o.push(match &cs[i] { V::C(1) => x[i].clone(), V::C(_) => y[i].clone(), V::S(e) => { let (p, q) = (self.to_e(&x[i], t.bits()), self.to_e(&y[i], t.bits())); let r = self.p.ite(*e, p, q); self.from_e(r) } _ => return err("vselect") }); }
                    V::A(Rc::new(o))
                } else {
                    match cv {
                        V::C(0) => self.get(st, b),
                        V::C(_) => self.get(st, a),
                        V::S(e) => {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            let isptr = matches!(ty, Ty::Ptr) || matches!(x, V::A(_));
                            if isptr {
                                let (c64a, c64b) = (c64(&x), c64(&y));
                                if c64a.is_some() && c64a == c64b { x }
                                else {
                                    // fork on pointer selects: addresses stay concrete
                                    let d2 = *d; let bo = y.clone();
                                    let t = self.branch(st, e, &mut |_, s, _| { if d2 != u32::MAX { s.top.regs[d2 as usize] = bo.clone(); } s.top.ip += 1; })?;
                                    if t { x } else { y }
                                }
                            } else {
                                let w = ty.bits();
                                let (p, q) = (self.to_e(&x, w), self.to_e(&y, w));
                                let r = self.p.ite(e, p, q);
                                self.from_e(r)
                            }
                        }
                        _ => return err("select"),
                    }
                };
                self.set(st, *d, r);
            }
            I::Call(c) => return self.call(st, c),
            I::Extract(d, a, ix) => {
                let mut v = self.get(st, a);
                for &i in ix { let V::A(x) = &v else { return err("extractvalue") }; let y = x[i as usize].clone(); v = y; }
                self.set(st, *d, v);
            }
            I::Insert(d, a, b, ix) => {
                let v = self.get(st, a);
                let x = self.get(st, b);
                fn ins(v: &V, x: V, ix: &[u32]) -> V { if ix.is_empty() { return x; } let V::A(a) = v else { return x }; let mut a = (**a).clone(); a[ix[0] as usize] = ins(&a[ix[0] as usize], x, &ix[1..]); V::A(Rc::new(a)) }
                let r = ins(&v, x, ix);
                self.set(st, *d, r);
            }
            I::ExtElt(d, a, i) => { let k = self.conc(st, i, 64)?; let V::A(x) = self.get(st, a) else { return err("extractelement") }; self.set(st, *d, x[k as usize].clone()); }
            I::InsElt(d, a, v, i) => { let k = self.conc(st, i, 64)?; let V::A(x) = self.get(st, a) else { return err("insertelement") }; let mut x = (*x).clone(); x[k as usize] = self.get(st, v); self.set(st, *d, V::A(Rc::new(x))); }
            I::Shuffle(d, a, b, mk) => {
                let (V::A(x), V::A(y)) = (self.get(st, a), self.get(st, b)) else { return err("shuffle") };
                let n = x.len();
                let r: Vec<V> = mk.iter().map(|&i| { let i = i as usize; if i < n { x[i].clone() } else { y[i - n].clone() } }).collect();
                self.set(st, *d, V::A(Rc::new(r)));
            }
            I::Freeze(d, ty, a) => {
                let v = self.get(st, a);
                let r = self.freeze(st, &v, ty);
                self.set(st, *d, r);
            }
            I::Rmw(d, op, ty, p, v) => {
                let a = self.conc(st, p, 64)?;
                let old = self.load(st, a, ty)?;
                let x = self.get(st, v);
                let nv = match op.as_str() {
                    "xchg" => x, "add" => self.bin(st, BinOp::Add, ty, &old, &x)?, "sub" => self.bin(st, BinOp::Sub, ty, &old, &x)?, "and" => self.bin(st, BinOp::And, ty, &old, &x)?,
                    "or" => self.bin(st, BinOp::Or, ty, &old, &x)?, "xor" => self.bin(st, BinOp::Xor, ty, &old, &x)?,
                    "umax" | "umin" | "max" | "min" => { let pr = match op.as_str() { "umax" => Pred::Ugt, "umin" => Pred::Ult, "max" => Pred::Sgt, _ => Pred::Slt }; match self.cmp(pr, ty, &old, &x)? { V::C(1) => old.clone(), V::C(_) => x, _ => return err("rmw minmax") } }
                    "nand" => { let t = self.bin(st, BinOp::And, ty, &old, &x)?; let m = V::C(m64(ty.bits())); self.bin(st, BinOp::Xor, ty, &t, &m)? }
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store(st, a, &nv, ty)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(d, ty, p, e, n) => {
                let a = self.conc(st, p, 64)?;
                let old = self.load(st, a, ty)?;
                let x = self.get(st, e);
                let (old, x) = match (self.cmp(Pred::Eq, ty, &old, &x)?, old, x) {
                    (V::C(1), o, _) => { let nv = self.get(st, n); self.store(st, a, &nv, ty)?; (o, 1u64) }
                    (V::C(_), o, _) => (o, 0),
                    _ => return err("cmpxchg on symbolic"),
                };
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(x)])));
            }
            I::Nop => {}
            I::Br(t) => { let t = *t; self.goto(st, t); return Ok(()); }
            I::CondBr(c, t, f) => {
                let (t, f) = (*t, *f);
                let v = self.get(st, c);
                let taken = match v {
                    V::C(k) => k & 1 == 1,
                    V::S(e) => self.branch(st, e, &mut |x, s, _| x.goto(s, f))?,
                    _ => return err("condbr"),
                };
                self.goto(st, if taken { t } else { f });
                return Ok(());
            }
            I::Switch(ty, v, def, cases) => return self.switch(st, ty, v, *def, cases),
            I::Ret(_, v) => {
                let rv = v.as_ref().map(|v| self.get(st, v));
                return self.ret(st, rv);
            }
            I::Unreachable => return Err(Stop::Violation { kind: "unreachable".into(), key: format!("unreachable:{}", self.whereami(st)), msg: "code marked unreachable was reached (undefined behaviour)".into() }),
            I::FCmp(p, d, ty, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (V::C(x), V::C(y)) = (self.fix(st, &x)?, self.fix(st, &y)?) else { return err("symbolic float compare") };
                let (x, y) = if *ty == Ty::F64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, "uno" => un, "true" => true, _ => false };
                self.set(st, *d, V::C(r as u64));
            }
            I::Unsupported(s) => return err(format!("unsupported instruction {} in {}", s, demangle(&self.m.funcs[st.top.func].name))),
        }
        st.top.ip += 1;
        Ok(())
    }
    fn div0(&self, st: &State) -> R<()> { Err(Stop::Violation { kind: "ub".into(), key: format!("div0:{}", self.whereami(st)), msg: "division by zero".into() }) }

    fn freeze(&mut self, st: &mut State, v: &V, ty: &Ty) -> V {
        match v {
            V::S(e) if self.undef_deps(*e) => {
                let vs = self.p.vars(*e);
                let mut map = HashMap::new();
                for &x in vs.iter() { if self.p.var_kind[x as usize] == VarKind::Undef { let f = self.newvar(st, VarKind::Frozen); map.insert(x, f); } }
                let mut memo = HashMap::new();
                let r = self.subst(*e, &map, &mut memo);
                self.from_e(r)
            }
            V::A(a) => V::A(Rc::new(a.iter().enumerate().map(|(i, x)| { let t = match ty { Ty::Struct(..) => ty.field(i as u64).1, Ty::Vec(_, t) | Ty::Arr(_, t) => (**t).clone(), _ => Ty::Int(64) }; self.freeze(st, x, &t) }).collect())),
            _ => v.clone(),
        }
    }

    fn switch(&mut self, st: &mut State, ty: &Ty, v: &Opd, def: u32, cases: &[(u128, u32)]) -> R<()> {
        let x = self.get(st, v);
        match x {
            V::C(k) => { let t = cases.iter().find(|c| c.0 as u64 == k).map(|c| c.1).unwrap_or(def); self.goto(st, t); Ok(()) }
            V::W(k) => { let t = cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(def); self.goto(st, t); Ok(()) }
            V::S(e) => {
                if self.undef_deps(e) { return self.uninit_violation(st, e, "switch"); }
                let w = ty.bits();
                let mut groups: Vec<(u32, E)> = vec![];
                let mut any = 0;
                for &(k, t) in cases {
                    let kk = self.p.konst(k, w);
                    let c = self.p.eq(e, kk);
                    any = self.p.bin(Op::Or, any, c);
                    match groups.iter_mut().find(|g| g.0 == t) { Some(g) => { let o = g.1; g.1 = self.p.bin(Op::Or, o, c); } None => groups.push((t, c)) }
                }
                let dc = self.p.not(any);
                match groups.iter_mut().find(|g| g.0 == def) { Some(g) => { let o = g.1; g.1 = self.p.bin(Op::Or, o, dc); } None => groups.push((def, dc)) }
                let mut feas = vec![];
                for (t, c) in groups { if let Some(m) = self.feasible(st, c)? { feas.push((t, c, m)); } }
                if feas.is_empty() { return Err(Stop::Infeasible); }
                self.st.branches_sym += 1;
                if feas.len() > 1 { *self.fork_sites.entry(self.cur_loc).or_insert(0) += feas.len() as u64 - 1; }
                let multi = feas.len() > 1;
                for (t, c, m) in feas.drain(1..) {
                    let mut o = st.clone();
                    o.forks += 1; o.model = m;
                    self.add(&mut o, c);
                    self.goto(&mut o, t);
                    self.st.forks += 1;
                    self.work.push(o);
                }
                let (t, c, m) = feas.pop().unwrap();
                if multi { st.forks += 1; }
                st.model = m;
                self.add(st, c);
                self.goto(st, t);
                Ok(())
            }
            _ => err("switch on aggregate"),
        }
    }

    /// The values of `e` under the domains of the path lie in `lo ..= lo + len`
    /// (modulo 2^w).
    fn arc(&self, st: &State, e: E, memo: &mut HashMap<E, Option<(u128, u128)>>) -> Option<(u128, u128)> {
        if let Some(r) = memo.get(&e) { return *r; }
        let n = *self.p.n(e);
        if n.w > 64 || memo.len() > 400 { return None; }
        if let Some(r) = st.ranges.iter().rev().find(|r| r.0 == e) { return Some((r.1, r.2)); }
        let m = mask(n.w);
        let full = |x: u128, len: u128| if len >= m { None } else { Some((x & m, len)) };
        let r = (|| match n.op {
            Op::Const => Some((n.k, 0)),
            Op::Var => {
                let d = st.dom.get(n.k as usize)?;
                let lo = (0..256).find(|&i| bs_get(d, i))?;
                let hi = (0..256).rev().find(|&i| bs_get(d, i))?;
                full(lo as u128, (hi - lo) as u128)
            }
            Op::Add => { let (a, b) = (self.arc(st, n.a, memo)?, self.arc(st, n.b, memo)?); full(a.0 + b.0, a.1 + b.1) }
            Op::Sub => { let (a, b) = (self.arc(st, n.a, memo)?, self.arc(st, n.b, memo)?); full((a.0 + (m + 1)).wrapping_sub(b.0 + b.1), a.1 + b.1) }
            Op::Mul => { let k = self.p.as_const(n.b)?; let a = self.arc(st, n.a, memo)?; full((a.0 * k) & m, a.1.checked_mul(k)?) }
            Op::Xor if self.p.as_const(n.b) == Some(m) => { let a = self.arc(st, n.a, memo)?; full(m.wrapping_sub((a.0 + a.1) & m), a.1) }
            Op::Ite => {
                let (a, b) = (self.arc(st, n.b, memo)?, self.arc(st, n.c, memo)?);
                let (p, q) = (b.0.wrapping_sub(a.0) & m, a.0.wrapping_sub(b.0) & m);
                if p <= q { full(a.0, (p + b.1).max(a.1)) } else { full(b.0, (q + a.1).max(b.1)) }
            }
            Op::ZExt => { let a = self.arc(st, n.a, memo)?; if a.0 + a.1 <= mask(self.p.w(n.a)) { full(a.0, a.1) } else { None } }
            Op::SExt => {
                let (a, iw) = (self.arc(st, n.a, memo)?, self.p.w(n.a));
                let s = 1u128 << (iw - 1);
                if a.0 < s && a.0 + a.1 < s || a.0 >= s && a.0 + a.1 <= mask(iw) { full(sext(a.0, iw) as u128 & m, a.1) } else { None }
            }
            Op::Concat if self.p.as_const(n.a).is_some() => {
                let (a, lw) = (self.arc(st, n.b, memo)?, self.p.w(n.b));
                if a.0 + a.1 <= mask(lw) { full(n_k(&self.p, n.a) << lw | a.0, a.1) } else { None }
            }
            Op::Concat if self.p.as_const(n.b).is_some() => {
                let (a, lw) = (self.arc(st, n.a, memo)?, self.p.w(n.b));
                full(a.0 << lw | n_k(&self.p, n.b), a.1 << lw)
            }
            Op::Extract if n.k as u16 == 0 => { let a = self.arc(st, n.a, memo)?; if a.1 < m { full(a.0 & m, a.1) } else { None } }
            _ => None,
        })();
        memo.insert(e, r);
        r
    }
    /// Division of an expression by a constant. When the quotient takes few
    /// values on this path: over one input as a table, otherwise the path forks
    /// on the quotient.
    fn divide(&mut self, st: &mut State, op: Op, a: E, k: u128, w: u16) -> R<Option<E>> {
        if k == 0 || sext(k, w) < 0 || self.undef_deps(a) { return Ok(None); }
        let signed = matches!(op, Op::SDiv | Op::SRem);
        if !signed && k.is_power_of_two() { return Ok(None); }
        let vs = self.p.vars(a);
        if vs.len() == 1 {
            let e = { let b = self.p.konst(k, w); self.p.bin(op, a, b) };
            let t = self.p.table(e);
            let Some(&d) = st.dom.get(vs[0] as usize) else { return Ok(None) };
            let vals: Vec<usize> = (0..256).filter(|&i| bs_get(&d, i)).collect();
            if vals.is_empty() || vals.len() > 32 { return Ok(None); }
            let ve = self.p.var_nodes[vs[0] as usize];
            let mut acc = self.p.konst(t[*vals.last().unwrap()], w);
            for p in vals.windows(2).rev() {
                if t[p[0]] == t[p[1]] { continue; }
                let (c, x) = (self.p.konst(p[1] as u128, 8), self.p.konst(t[p[0]], w));
                let c = self.p.bin(Op::Ult, ve, c);
                acc = self.p.ite(c, x, acc);
            }
            return Ok(Some(acc));
        }
        // few values in all: one path for each
        let mut combos = 1usize;
        for &v in vs.iter() { let d = &st.dom[v as usize]; combos = combos.saturating_mul(d.iter().map(|x| x.count_ones() as usize).sum()); }
        let arc = self.arc(st, a, &mut HashMap::new());
        let few = matches!(arc, Some((_, len)) if len / k <= 24);
        if !few && combos <= 1100 {
            let v = self.split_values(st, a)?;
            let f = match op { Op::UDiv => BinOp::UDiv, Op::URem => BinOp::URem, Op::SDiv => BinOp::SDiv, _ => BinOp::SRem };
            return Ok(bin64(f, w, v, k as u64).map(|r| self.p.konst(r as u128, w)));
        }
        let Some((lo, len)) = arc else { return Ok(None) };
        let top = if signed { mask(w) >> 1 } else { mask(w) } as i128;
        let bounds = |lo: u128, len: u128| { let l = if signed { sext(lo, w) } else { lo as i128 }; (l, l + len as i128) };
        let (lo, hi) = bounds(lo, len);
        if hi > top { return Ok(None); }
        let ki = k as i128;
        // an exact multiple
        let n = *self.p.n(a);
        if n.op == Op::Mul { if let Some(c) = self.p.as_const(n.b) { if c % k == 0 && sext(c, w) > 0 {
            if let Some((l, len)) = self.arc(st, n.a, &mut HashMap::new()) {
                let (l, h) = bounds(l, len);
                if h <= top && h * (c as i128) <= top && l * (c as i128) >= if signed { -top } else { 0 } {
                    let r = if matches!(op, Op::UDiv | Op::SDiv) { let q = self.p.konst(c / k, w); self.p.bin(Op::Mul, n.a, q) } else { self.p.konst(0, w) };
                    return Ok(Some(r));
                }
            }
        } } }
        let (qlo, qhi) = (lo / ki, hi / ki);
        if qhi - qlo > 24 { return Ok(None); }
        let mut q = self.p.konst(qhi as u128, w);
        for v in (qlo..qhi).rev() {
            // the quotient is at most v below this bound
            let t = if v >= 0 { (v + 1) * ki } else { v * ki + 1 };
            let (c, y) = (self.p.konst(t as u128, w), self.p.konst(v as u128, w));
            let c = self.p.bin(if signed { Op::Slt } else { Op::Ult }, a, c);
            q = self.p.ite(c, y, q);
        }
        let v = self.conc_e(st, q, &mut |_, _| {})?;
        let v = if signed { sext(v as u128, w) } else { v as i128 };
        let (l, h) = if v > 0 { (v * ki, v * ki + ki - 1) } else if v < 0 { (v * ki - ki + 1, v * ki) } else if signed { (1 - ki, ki - 1) } else { (0, ki - 1) };
        let (l, h) = (l.max(lo), h.min(hi));
        if l > h { return Err(Stop::Infeasible); }
        let m = mask(w);
        if self.p.as_const(q).is_none() { st.ranges.push((a, l as u128 & m, (h - l) as u128)); }
        if matches!(op, Op::UDiv | Op::SDiv) { return Ok(Some(self.p.konst(v as u128, w))); }
        let s = self.p.konst((v * ki) as u128, w);
        let r = self.p.bin(Op::Sub, a, s);
        if self.p.as_const(q).is_none() { st.ranges.push((r, (l - v * ki) as u128 & m, (h - l) as u128)); }
        Ok(Some(r))
    }
    pub fn bin(&mut self, st: &mut State, op: BinOp, ty: &Ty, x: &V, y: &V) -> R<V> {
        match ty {
            Ty::Vec(_, t) => {
                let (V::A(a), V::A(b)) = (x, y) else { return err("vector op") };
                let mut o = Vec::with_capacity(a.len());
                for i in 0..a.len() { o.push(self.bin(st, op, t, &a[i], &b[i])?); }
                Ok(V::A(Rc::new(o)))
            }
            Ty::F64 | Ty::F32 => {
                let (V::C(a), V::C(b)) = &(self.fix(st, x)?, self.fix(st, y)?) else { return err("symbolic float") };
                if *ty == Ty::F64 {
                    let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                    let r = match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b };
                    Ok(V::C(r.to_bits()))
                } else {
                    let (a, b) = (f32::from_bits(*a as u32), f32::from_bits(*b as u32));
                    let r = match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b };
                    Ok(V::C(r.to_bits() as u64))
                }
            }
            _ => {
                let w = ty.bits();
                if w <= 64 { if let (V::C(a), V::C(b)) = (x, y) { return match bin64(op, w, *a, *b) { Some(r) => Ok(V::C(r)), None => err("division by zero") }; } }
                if op == BinOp::Shl || op == BinOp::LShr || op == BinOp::AShr {
                    if let V::S(s) = y { if self.undef_deps(*s) { return self.uninit_violation(st, *s, "shift amount"); } }
                }
                let (a, b) = (self.to_e(x, w), self.to_e(y, w));
                let Some(o) = eop(op) else { return err("float op on int") };
                if w <= 64 && matches!(o, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                    if let Some(k) = self.p.as_const(b) { if let Some(r) = self.divide(st, o, a, k, w)? { return Ok(self.from_e(r)); } }
                }
                let r = self.p.bin(o, a, b);
                if matches!(o, Op::LShr | Op::AShr) && !st.ranges.is_empty() && w <= 64 && self.p.vars(r).len() > 1 {
                    if let (Some(k), Some((lo, len))) = (self.p.as_const(b), self.arc(st, a, &mut HashMap::new())) {
                        let k = k as u32;
                        if lo + len <= mask(w) && (k as u16) < w && lo >> k == (lo + len) >> k {
                            let v = if o == Op::AShr { (sext(lo, w) >> k) as u128 } else { lo >> k };
                            return Ok(V::C(v as u64 & m64(w)));
                        }
                    }
                }
                Ok(self.from_e(r))
            }
        }
    }
    /// A comparison decided by the ranges of its operands on this path.
    fn cmp_range(&self, st: &State, p: Pred, w: u16, x: &V, y: &V) -> Option<bool> {
        if st.ranges.is_empty() { return None; }
        let r = |v: &V| match v { V::C(c) => Some((*c as u128, 0)), V::S(e) => if self.p.vars(*e).len() < 2 { None } else { self.arc(st, *e, &mut HashMap::new()) }, _ => None };
        let (a, b) = (r(x)?, r(y)?);
        let f = |(lo, len): (u128, u128), signed: bool| { let l = if signed { sext(lo, w) } else { lo as i128 }; let h = l + len as i128; if h > if signed { mask(w) >> 1 } else { mask(w) } as i128 { None } else { Some((l, h)) } };
        let s = matches!(p, Pred::Slt | Pred::Sgt | Pred::Sle | Pred::Sge);
        let (a, b) = (f(a, s)?, f(b, s)?);
        match p {
            Pred::Eq | Pred::Ne => if a.1 < b.0 || b.1 < a.0 { Some(p == Pred::Ne) } else { None },
            Pred::Ult | Pred::Slt => if a.1 < b.0 { Some(true) } else if a.0 >= b.1 { Some(false) } else { None },
            Pred::Ugt | Pred::Sgt => if a.0 > b.1 { Some(true) } else if a.1 <= b.0 { Some(false) } else { None },
            Pred::Ule | Pred::Sle => if a.1 <= b.0 { Some(true) } else if a.0 > b.1 { Some(false) } else { None },
            Pred::Uge | Pred::Sge => if a.0 >= b.1 { Some(true) } else if a.1 < b.0 { Some(false) } else { None },
        }
    }
    pub fn cmp(&mut self, p: Pred, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            let (V::A(a), V::A(b)) = (x, y) else { return err("vector cmp") };
            let mut o = Vec::with_capacity(a.len());
            for i in 0..a.len() { o.push(self.cmp(p, t, &a[i], &b[i])?); }
            return Ok(V::A(Rc::new(o)));
        }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) { return Ok(V::C(cmp64(p, w, *a, *b) as u64)); }
        let (a, b) = (self.to_e(x, w), self.to_e(y, w));
        let r = match p {
            Pred::Eq => self.p.eq(a, b),
            Pred::Ne => { let e = self.p.eq(a, b); self.p.not(e) }
            Pred::Ult => self.p.bin(Op::Ult, a, b), Pred::Ugt => self.p.bin(Op::Ult, b, a),
            Pred::Uge => { let e = self.p.bin(Op::Ult, a, b); self.p.not(e) } Pred::Ule => { let e = self.p.bin(Op::Ult, b, a); self.p.not(e) }
            Pred::Slt => self.p.bin(Op::Slt, a, b), Pred::Sgt => self.p.bin(Op::Slt, b, a),
            Pred::Sge => { let e = self.p.bin(Op::Slt, a, b); self.p.not(e) } Pred::Sle => { let e = self.p.bin(Op::Slt, b, a); self.p.not(e) }
        };
        Ok(self.from_e(r))
    }
    fn cast(&mut self, k: CastOp, t1: &Ty, t2: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(_, a), Ty::Vec(_, b)) = (t1, t2) {
            if k != CastOp::Bitcast {
                let V::A(v) = x else { return err("vector cast") };
                let mut o = Vec::with_capacity(v.len());
                for e in v.iter() { o.push(self.cast(k, a, b, e)?); }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let (w1, w2) = (t1.bits(), t2.bits());
        Ok(match k {
            CastOp::Bitcast => { if !matches!(t1, Ty::Vec(..)) && !matches!(t2, Ty::Vec(..)) { return Ok(x.clone()); } let e = self.to_bits(x, t1); self.from_bits(e, t2) }
            CastOp::FpOp(o) => {
                let V::C(a) = x else { return err("symbolic float conversion") };
                let f = |t: &Ty, b: u64| if *t == Ty::F64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
                let back = |t: &Ty, v: f64| V::C(if *t == Ty::F64 { v.to_bits() } else { (v as f32).to_bits() as u64 });
                match o { 0 => back(t2, *a as f64), 1 => back(t2, s64(*a, w1) as f64), 2 => V::C((f(t1, *a) as u64) & m64(w2)), 3 => V::C((f(t1, *a) as i64 as u64) & m64(w2)), _ => back(t2, f(t1, *a)) }
            }
            _ => match x {
                V::C(a) if w2 <= 64 => match k { CastOp::SExt => V::C((s64(*a, w1) as u64) & m64(w2)), _ => V::C(*a & m64(w2)) },
                _ => {
                    let e = self.to_e(x, w1);
                    let r = if w2 < w1 { self.p.extract(e, w2 - 1, 0) } else if k == CastOp::SExt { self.p.sext(e, w2) } else { self.p.zext(e, w2) };
                    self.from_e(r)
                }
            },
        })
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let al = std::mem::take(&mut st.top.allocas);
        for a in al.iter().rev() { st.mem.pop_stack(*a); }
        let Some(f) = st.stack.pop() else { return Err(Stop::Done) };
        let f = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
        let (dst, normal) = (st.top.dst, st.top.normal);
        st.top = f;
        if let Some(v) = v { self.set(st, dst, v); }
        self.after_call(st, normal);
        Ok(())
    }
    fn after_call(&mut self, st: &mut State, normal: u32) { if normal != u32::MAX { self.goto(st, normal); } else { st.top.ip += 1; } }

    fn panic_msg(&mut self, st: &mut State, c: &CallI, name: &str) -> String {
        let mut loc = String::new();
        for a in c.args.iter().rev() {
            if let V::C(p) = self.get(st, a) {
                let rd = |x: &mut Exec, st: &mut State, p: u64, w: u16| match x.load_int(st, p, w) { Ok(V::C(c)) => Some(c), _ => None };
                let (Some(f), Some(n), Some(line)) = (rd(self, st, p, 64), rd(self, st, p + 8, 64), rd(self, st, p + 16, 32)) else { continue };
                if n == 0 || n > 300 { continue; }
                if let Ok(b) = self.read_bytes(st, f, n) {
                    if b.iter().all(|x| x.1 == CONC) { let s: String = b.iter().map(|x| x.0 as char).collect(); if s.contains(".rs") { loc = format!("{}:{}", s, line); break; } }
                }
            }
        }
        let mut text = String::new();
        if name.ends_with("9panic_fmt") || name.contains("5panic") || name.contains("expect_failed") {
            if let (Some(V::C(p)), Some(V::C(n))) = (c.args.get(0).map(|a| self.get(st, a)), c.args.get(1).map(|a| self.get(st, a))) {
                let n = if n > 0x1000 { 0 } else { n };
                if n > 0 && n < 200 { if let Ok(b) = self.read_bytes(st, p, n) { if b.iter().all(|x| x.1 == CONC) { text = b.iter().map(|x| x.0 as char).collect(); } } }
            }
        }
        format!("{} {} at {}", demangle(name), text, loc)
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let f = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Ind(o) => {
                let a = self.conc(st, o, 64)?;
                match self.m.fn_by_addr.get(&a) { Some(&f) => f, None => return self.memerr(st, format!("call through invalid function pointer {:#x}", a)) }
            }
        };
        if self.m.funcs[f].is_panic {
            let name = self.m.funcs[f].name.clone();
            let msg = self.panic_msg(st, c, &name);
            let key = format!("panic:{}", msg.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string());
            return Err(Stop::Violation { kind: "panic".into(), key, msg });
        }
        if self.m.funcs[f].is_hash && c.ret.bits() == 64 {
            // of a randomly keyed hash nothing is known: the constant one stands for all
            self.set(st, c.dst, V::C(0));
            self.after_call(st, c.normal);
            return Ok(());
        }
        match self.m.body(f) {
            Some(body) => {
                let fu = &self.m.funcs[f];
                fu.visits.set(fu.visits.get() + 1);
                if st.stack.len() > 400 { return Err(Stop::Violation { kind: "stack".into(), key: format!("stack:{}", self.whereami(st)), msg: "call depth over 400".into() }); }
                let mut regs = vec![V::C(0); body.nregs];
                for (i, p) in body.params.iter().enumerate() { if i < c.args.len() { regs[*p as usize] = self.get(st, &c.args[i]); } }
                let top = Frame { func: f, body, blk: 0, ip: 0, regs, dst: c.dst, normal: c.normal, allocas: vec![] };
                let old = std::mem::replace(&mut st.top, top);
                st.stack.push(Rc::new(old));
                Ok(())
            }
            None => {
                let name: &str = unsafe { &*(self.m.funcs[f].name.as_str() as *const str) };
                let r = self.external(st, name, c)?;
                if let Some(v) = r { self.set(st, c.dst, v); }
                self.after_call(st, c.normal);
                Ok(())
            }
        }
    }

    fn arg(&self, st: &State, c: &CallI, i: usize) -> V { self.get(st, &c.args[i]) }
    fn argc(&mut self, st: &mut State, c: &CallI, i: usize) -> R<u64> { let w = c.argtys[i].bits(); self.conc(st, &c.args[i], w) }

    fn external(&mut self, st: &mut State, name: &str, c: &CallI) -> R<Option<V>> {
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, c); }
        match name {
            "sym_bytes" => {
                let (p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                let i = st.ev.len();
                let conc = match &self.cfg.concrete { Some(evs) => match evs.get(i) { Some(Ev0::B(b)) => Some(b.clone()), _ => return err("concrete input mismatch") }, None => None };
                let mut es = vec![];
                for k in 0..n as usize { es.push(match &conc { Some(b) => self.p.konst(b[k] as u128, 8), None => self.newvar(st, VarKind::Input) }); }
                let bytes: Vec<(u8, u32)> = es.iter().map(|&e| match self.p.as_const(e) { Some(k) => (k as u8, CONC), None => (0, e) }).collect();
                self.write_bytes(st, p, &bytes)?;
                st.ev.push(Ev::Bytes(es));
                Ok(None)
            }
            "sym_choice" => {
                let n = self.argc(st, c, 0)? as u32;
                if n == 0 { return Err(Stop::Infeasible); }
                if let Some(evs) = &self.cfg.concrete { let k = match evs.get(st.ev.len()) { Some(Ev0::C(k)) => *k, _ => return err("concrete input mismatch") }; st.ev.push(Ev::Choice(n, k)); return Ok(Some(V::C(k as u64))); }
                let k = match st.choice.take() {
                    Some(k) => k,
                    None => {
                        for k in (1..n).rev() { let mut o = st.clone(); o.choice = Some(k); o.forks += 1; self.st.forks += 1; self.work.push(o); }
                        if n > 1 { st.forks += 1; }
                        0
                    }
                };
                st.ev.push(Ev::Choice(n, k));
                Ok(Some(V::C(k as u64)))
            }
            "sym_assume" => {
                match self.arg(st, c, 0) {
                    V::C(0) => Err(Stop::Infeasible),
                    V::S(e) => { match self.feasible(st, e)? { Some(m) => { st.model = m; self.add(st, e); Ok(None) } None => Err(Stop::Infeasible) } }
                    _ => Ok(None),
                }
            }
            "sym_assert" => {
                let id = self.argc(st, c, 1)? as u32;
                self.st.asserts += 1;
                *self.reach.entry(id).or_insert(0) += 1;
                match self.arg(st, c, 0) {
                    V::C(0) => Err(Stop::Violation { kind: "assert".into(), key: format!("assert:{}", id), msg: format!("assertion {} is false", id) }),
                    V::S(e) => {
                        self.st.asserts_solver += 1;
                        let ne = self.p.not(e);
                        if self.undef_deps(e) { return self.uninit_violation(st, e, "assertion"); }
                        match self.feasible(st, ne)? {
                            Some(m) => { st.model = m; self.add(st, ne); Err(Stop::Violation { kind: "assert".into(), key: format!("assert:{}", id), msg: format!("assertion {} can be false", id) }) }
                            None => Ok(None),
                        }
                    }
                    _ => { self.st.asserts_concrete += 1; Ok(None) }
                }
            }
            "sym_fail" => { let id = self.argc(st, c, 0)? as u32; Err(Stop::Violation { kind: "assert".into(), key: format!("assert:{}", id), msg: format!("failure {} reached", id) }) }
            "sym_reach" => { let id = self.argc(st, c, 0)? as u32; *self.reach.entry(id).or_insert(0) += 1; Ok(None) }
            "sym_observe" => {
                let (p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                let b = self.read_bytes(st, p, n)?;
                let mut v = vec![];
                for (x, s) in b {
                    if s == UNINIT { return Err(Stop::Violation { kind: "uninit".into(), key: format!("uninit:{}", self.whereami(st)), msg: "output contains uninitialised bytes".into() }); }
                    let e = self.byte_e(st, x, s);
                    if self.undef_deps(e) { return self.uninit_violation(st, e, "output"); }
                    v.push(e);
                }
                st.obs.push(v);
                Ok(None)
            }
            "sym_concretize" => { let k = self.argc(st, c, 0)?; Ok(Some(V::C(k))) }
            "malloc" => { let n = self.argc(st, c, 0)?; if n > 1 << 28 { return err("huge allocation"); } Ok(Some(V::C(st.mem.alloc(n, 16, Kind::Heap, false)))) }
            "calloc" => { let n = self.argc(st, c, 0)? * self.argc(st, c, 1)?; if n > 1 << 28 { return err("huge allocation"); } Ok(Some(V::C(st.mem.alloc(n, 16, Kind::Heap, true)))) }
            "posix_memalign" => { let (p, a, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?); let x = st.mem.alloc(n, a, Kind::Heap, false); self.store_int(st, p, &V::C(x), 64)?; Ok(Some(V::C(0))) }
            "aligned_alloc" => { let (a, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?); Ok(Some(V::C(st.mem.alloc(n, a, Kind::Heap, false)))) }
            "realloc" => {
                let (p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                if n > 1 << 28 { return err("huge allocation"); }
                let x = st.mem.alloc(n, 16, Kind::Heap, false);
                if p != 0 {
                    let (loc, off) = match st.mem.locate(&self.g, p, 0, false) { Ok(x) => x, Err(s) => return self.memerr(st, s) };
                    let sz = st.mem.obj(&self.g, &loc).size;
                    if off != 0 { return self.memerr(st, "realloc of interior pointer".into()); }
                    self.copy(st, x, p, sz.min(n))?;
                    if let Err(s) = st.mem.free(p) { return self.memerr(st, s); }
                }
                Ok(Some(V::C(x)))
            }
            "free" => { let p = self.argc(st, c, 0)?; if let Err(s) = st.mem.free(p) { return self.memerr(st, s); } Ok(None) }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                let (x, y) = (self.read_bytes(st, a, n)?, self.read_bytes(st, b, n)?);
                if x.iter().zip(&y).all(|(p, q)| p.1 == CONC && q.1 == CONC) {
                    let (p, q): (Vec<u8>, Vec<u8>) = (x.iter().map(|v| v.0).collect(), y.iter().map(|v| v.0).collect());
                    return Ok(Some(V::C(match p.cmp(&q) { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less => 0xffff_ffff, _ => 1 })));
                }
                let (mut xe, mut ye) = (vec![], vec![]);
                for i in 0..n as usize { let u = self.byte_e(st, x[i].0, x[i].1); let v = self.byte_e(st, y[i].0, y[i].1); xe.push(u); ye.push(v); }
                let mut all = 1;
                for i in 0..n as usize { let q = self.p.eq(xe[i], ye[i]); if q == 0 { all = 0; break; } all = self.p.bin(Op::And, all, q); }
                let (z, o, m1) = (self.p.konst(0, 32), self.p.konst(1, 32), self.p.konst(0xffff_ffff, 32));
                let r = if name == "bcmp" { self.p.ite(all, z, o) } else {
                    let mut r = z;
                    for i in (0..n as usize).rev() { let q = self.p.eq(xe[i], ye[i]); let l = self.p.bin(Op::Ult, xe[i], ye[i]); let d = self.p.ite(l, m1, o); r = self.p.ite(q, r, d); }
                    r
                };
                Ok(Some(self.from_e(r)))
            }
            "memchr" | "memrchr" => {
                let (a, n) = (self.argc(st, c, 0)?, self.argc(st, c, 2)?);
                let k = self.argc(st, c, 1)? as u8;
                let x = self.read_bytes(st, a, n)?;
                let mut hits = vec![];
                for i in 0..n as usize { let u = self.byte_e(st, x[i].0, x[i].1); let q = self.p.konst(k as u128, 8); hits.push(self.p.eq(u, q)); }
                let mut r = self.p.konst(0, 64);
                let order: Vec<usize> = if name == "memchr" { (0..n as usize).rev().collect() } else { (0..n as usize).collect() };
                for i in order {
                    if self.p.as_const(hits[i]) == Some(0) { continue; }
                    let at = self.p.konst((a + i as u64) as u128, 64);
                    r = self.p.ite(hits[i], at, r);
                }
                let r = self.conc_e(st, r, &mut |_, _| {})?;
                Ok(Some(V::C(r)))
            }
            "strlen" => {
                let p = self.argc(st, c, 0)?;
                for i in 0..1 << 20 { match self.load_int(st, p + i, 8)? { V::C(0) => return Ok(Some(V::C(i))), V::C(_) => {} _ => return err("strlen of symbolic data") } }
                err("strlen")
            }
            "memcpy" | "memmove" => { let (d, s, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?); self.copy(st, d, s, n)?; Ok(Some(V::C(d))) }
            "abort" | "_exit" | "exit" => Err(Stop::Violation { kind: "panic".into(), key: format!("abort:{}", self.whereami(st)), msg: format!("{} called", name) }),
            "getenv" => Ok(Some(V::C(0))),
            "__errno_location" => Ok(Some(V::C(self.errno_addr))),
            "__cxa_thread_atexit_impl" | "pthread_atfork" | "sched_yield" | "pthread_key_create" | "pthread_setspecific" | "madvise" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_attr_init" | "sigaltstack" | "signal" | "close" | "fcntl" => Ok(Some(V::C(0))),
            "pthread_getspecific" => Ok(Some(V::C(0))),
            "gettid" | "getpid" | "pthread_self" => Ok(Some(V::C(4242))),
            "clock_gettime" => { let p = self.argc(st, c, 1)?; self.store_int(st, p, &V::C(1_700_000_000), 64)?; self.store_int(st, p + 8, &V::C(0), 64)?; Ok(Some(V::C(0))) }
            "getrandom" => { let (p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?); let b = vec![(0x5au8, CONC); n as usize]; self.write_bytes(st, p, &b)?; Ok(Some(V::C(n))) }
            "syscall" => {
                match self.argc(st, c, 0)? {
                    318 => { let (p, n) = (self.argc(st, c, 1)?, self.argc(st, c, 2)?); let b = vec![(0x5au8, CONC); n as usize]; self.write_bytes(st, p, &b)?; Ok(Some(V::C(n))) }
                    202 => Ok(Some(V::C(0))),
                    k => err(format!("syscall {}", k)),
                }
            }
            "write" => { let n = self.argc(st, c, 2)?; Ok(Some(V::C(n))) }
            _ => err(format!("unmodelled external function {}", name)),
        }
    }

    fn lanes1(&mut self, st: &mut State, ty: &Ty, x: &V, f: &mut dyn FnMut(&mut Exec, &mut State, &Ty, &V) -> R<V>) -> R<V> {
        match (ty, x) {
            (Ty::Vec(_, t), V::A(a)) => { let mut o = vec![]; for v in a.iter() { o.push(f(self, st, t, v)?); } Ok(V::A(Rc::new(o))) }
            _ => f(self, st, ty, x),
        }
    }
    fn lanes2(&mut self, st: &mut State, ty: &Ty, x: &V, y: &V, f: &mut dyn FnMut(&mut Exec, &mut State, &Ty, &V, &V) -> R<V>) -> R<V> {
        match (ty, x, y) {
            (Ty::Vec(_, t), V::A(a), V::A(b)) => { let mut o = vec![]; for i in 0..a.len() { o.push(f(self, st, t, &a[i], &b[i])?); } Ok(V::A(Rc::new(o))) }
            _ => f(self, st, ty, x, y),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, c: &CallI) -> R<Option<V>> {
        let base = n;
        if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("dbg") || n == "x86.sse2.pause" || n.starts_with("prefetch") || n.starts_with("invariant") { return Ok(None); }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let (d, s, k) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
            if n.starts_with("memcpy") && k > 0 && d != s && d < s + k && s < d + k { return self.memerr(st, "memcpy with overlapping ranges".into()); }
            self.copy(st, d, s, k)?;
            return Ok(None);
        }
        if n.starts_with("memset") {
            let (d, k) = (self.argc(st, c, 0)?, self.argc(st, c, 2)?);
            let v = self.arg(st, c, 1);
            let b = match v { V::C(x) => (x as u8, CONC), V::S(e) => (0, e), _ => return err("memset") };
            self.write_bytes(st, d, &vec![b; k as usize])?;
            return Ok(None);
        }
        if n == "assume" {
            match self.arg(st, c, 0) {
                V::C(0) => return Err(Stop::Violation { kind: "ub".into(), key: format!("assume:{}", self.whereami(st)), msg: "compiler assumption violated (undefined behaviour)".into() }),
                V::S(e) => {
                    let ne = self.p.not(e);
                    if let Some(m) = self.feasible(st, ne)? { if !self.undef_deps(e) { st.model = m; self.add(st, ne); return Err(Stop::Violation { kind: "ub".into(), key: format!("assume:{}", self.whereami(st)), msg: "compiler assumption can be violated (undefined behaviour)".into() }); } }
                }
                _ => {}
            }
            return Ok(None);
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return Err(Stop::Violation { kind: "panic".into(), key: format!("trap:{}", self.whereami(st)), msg: "trap".into() }); }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip") { return Ok(Some(self.arg(st, c, 0))); }
        if n.starts_with("is.constant") { return Ok(Some(V::C(0))); }
        if n.starts_with("objectsize") { return Ok(Some(V::C(u64::MAX))); }
        if n.starts_with("load.relative") {
            let (p, o) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
            return match self.load_int(st, p.wrapping_add(o), 32)? { V::C(k) => Ok(Some(V::C(p.wrapping_add(s64(k, 32) as u64)))), _ => err("load.relative") };
        }
        let ty = c.argtys.get(0).cloned().unwrap_or(Ty::Void);
        let x = if c.args.is_empty() { V::C(0) } else { self.arg(st, c, 0) };
        let y = if c.args.len() > 1 { self.arg(st, c, 1) } else { V::C(0) };
        let name = base.split('.').next().unwrap();
        let r = match name {
            "umin" | "umax" | "smin" | "smax" => {
                let pr = match name { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                self.lanes2(st, &ty, &x, &y, &mut |s, _, t, a, b| { let q = s.cmp(pr, t, a, b)?; Ok(match q { V::C(1) => a.clone(), V::C(_) => b.clone(), V::S(e) => { let (u, v) = (s.to_e(a, t.bits()), s.to_e(b, t.bits())); let r = s.p.ite(e, u, v); s.from_e(r) } _ => return err("minmax") }) })?
            }
            "abs" => self.lanes1(st, &ty, &x, &mut |s, _, t, a| { let w = t.bits(); let e = s.to_e(a, w); let z = s.p.konst(0, w); let ng = s.p.bin(Op::Slt, e, z); let m = s.p.bin(Op::Sub, z, e); let r = s.p.ite(ng, m, e); Ok(s.from_e(r)) })?,
            "ctpop" => self.lanes1(st, &ty, &x, &mut |s, _, t, a| { let w = t.bits(); if let V::C(k) = a { return Ok(V::C(k.count_ones() as u64)); } let e = s.to_e(a, w); let mut r = s.p.konst(0, w); for i in 0..w { let b = s.p.extract(e, i, i); let b = s.p.zext(b, w); r = s.p.bin(Op::Add, r, b); } Ok(s.from_e(r)) })?,
            "bswap" => { let w = ty.bits(); let e = self.to_e(&x, w); let mut r: Option<E> = None; for i in 0..w / 8 { let b = self.p.extract(e, i * 8 + 7, i * 8); r = Some(match r { None => b, Some(h) => self.p.concat(h, b) }); } self.from_e(r.unwrap()) }
            "bitreverse" => { let w = ty.bits(); let e = self.to_e(&x, w); let mut r: Option<E> = None; for i in 0..w { let b = self.p.extract(e, i, i); r = Some(match r { None => b, Some(h) => self.p.concat(h, b) }); } self.from_e(r.unwrap()) }
            "cttz" | "ctlz" => {
                if matches!(ty, Ty::Vec(..)) { return err("vector cttz"); }
                let w = ty.bits();
                match &x {
                    V::C(k) => { let k = *k; V::C(if k == 0 { w as u64 } else if name == "cttz" { k.trailing_zeros() as u64 } else { k.leading_zeros() as u64 - (64 - w as u64) }) }
                    V::W(k) => V::C(if **k == 0 { w as u64 } else if name == "cttz" { k.trailing_zeros() as u64 } else { k.leading_zeros() as u64 - (128 - w as u64) }),
                    V::S(e) => {
                        // decide bit by bit; forked states resume after the call with their own result
                        let e = *e;
                        for k in 0..w {
                            let i = if name == "cttz" { k } else { w - 1 - k };
                            let b = self.p.extract(e, i, i);
                            let nb = self.p.not(b);
                            // continue in this state with the bit clear; the other side has the bit set
                            let (dst, normal) = (c.dst, c.normal);
                            let clear = self.branch(st, nb, &mut |x, s, _| { x.set(s, dst, V::C(k as u64)); x.after_call(s, normal); })?;
                            if !clear { return Ok(Some(V::C(k as u64))); }
                        }
                        V::C(w as u64)
                    }
                    _ => return err("cttz"),
                }
            }
            "fshl" | "fshr" => {
                let w = ty.bits();
                let s = self.argc(st, c, 2)? % w as u64;
                let (a, b) = (self.to_e(&x, w), self.to_e(&y, w));
                let cat = self.p.concat(a, b);
                let s = s as u16;
                let r = if name == "fshl" { self.p.extract(cat, 2 * w - 1 - s, w - s) } else { self.p.extract(cat, w - 1 + s, s) };
                self.from_e(r)
            }
            "ucmp" | "scmp" => {
                let (l, g) = if name == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let (l, g) = (self.cmp(l, &ty, &x, &y)?, self.cmp(g, &ty, &x, &y)?);
                let rw = c.ret.bits();
                let (l, g) = (self.to_e(&l, 1), self.to_e(&g, 1));
                let (z, o, m) = (self.p.konst(0, rw), self.p.konst(1, rw), self.p.konst(u128::MAX, rw));
                let t = self.p.ite(g, o, z);
                let r = self.p.ite(l, m, t);
                self.from_e(r)
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let sat = base.split('.').nth(1) == Some("sat");
                let f = &mut |s: &mut Exec, _: &mut State, t: &Ty, a: &V, b: &V| -> R<(V, V)> {
                    let w = t.bits();
                    let signed = name.starts_with('s');
                    let ew = if name.ends_with("mul") { w * 2 } else { w + 1 };
                    if ew > 128 {
                        // 128-bit operations: concrete only, except unsigned add/sub
                        let (p, q) = match (a, b) { (V::C(p), V::C(q)) => (*p as u128, *q as u128), (V::W(p), V::W(q)) => (**p, **q), _ => return err("wide overflow op on symbolic data") };
                        let (r, o) = match name { "uadd" => p.overflowing_add(q), "usub" => p.overflowing_sub(q), "umul" => p.overflowing_mul(q), _ => return err("wide signed overflow op") };
                        return Ok((vk(r, w), V::C(o as u64)));
                    }
                    let (p, q) = (s.to_e(a, w), s.to_e(b, w));
                    let (pe, qe) = if signed { (s.p.sext(p, ew), s.p.sext(q, ew)) } else { (s.p.zext(p, ew), s.p.zext(q, ew)) };
                    let op = if name.ends_with("add") { Op::Add } else if name.ends_with("sub") { Op::Sub } else { Op::Mul };
                    // compare forms that keep single-byte reasoning cheap
                    let full = s.p.bin(op, pe, qe);
                    let r = s.p.bin(op, p, q);
                    let back = if signed { s.p.sext(r, ew) } else { s.p.zext(r, ew) };
                    let same = s.p.eq(full, back);
                    let o = match name { "usub" => s.p.bin(Op::Ult, p, q), "uadd" => s.p.bin(Op::Ult, r, p), _ => s.p.not(same) };
                    if sat {
                        let lim = match name {
                            "uadd" => s.p.konst(u128::MAX, w), "usub" => s.p.konst(0, w),
                            _ => { let neg = s.p.extract(full, ew - 1, ew - 1); let (mn, mx) = (s.p.konst(1u128 << (w - 1), w), s.p.konst(mask(w) >> 1, w)); s.p.ite(neg, mn, mx) }
                        };
                        let x = s.p.ite(o, lim, r);
                        return Ok((s.from_e(x), V::C(0)));
                    }
                    Ok((s.from_e(r), s.from_e(o)))
                };
                if sat { self.lanes2(st, &ty, &x, &y, &mut |s, z, t, a, b| f(s, z, t, a, b).map(|r| r.0))? }
                else { let (a, b) = f(self, st, &ty, &x, &y)?; V::A(Rc::new(vec![a, b])) }
            }
            "vector" if base.starts_with("vector.reduce.") => {
                let op = base.split('.').nth(2).unwrap();
                let (Ty::Vec(_, t), V::A(a)) = (&ty, &x) else { return err("reduce") };
                let mut acc = a[0].clone();
                for v in a.iter().skip(1) { let o = match op { "or" => BinOp::Or, "and" => BinOp::And, "add" => BinOp::Add, "xor" => BinOp::Xor, _ => return err(format!("reduce {}", op)) }; acc = self.bin(st, o, t, &acc, v)?; }
                acc
            }
            "fptosi" | "fptoui" => {
                let V::C(k) = self.fix(st, &x)? else { return err("symbolic float") };
                let t1 = if base.ends_with("f32") { Ty::F32 } else { Ty::F64 };
                let w: u16 = base.split('.').nth(2).and_then(|t| t.strip_prefix('i')).and_then(|t| t.parse().ok()).unwrap_or(128);
                if w > 64 || !base.contains(".sat.") { return err(format!("unmodelled intrinsic {}", base)); }
                let f = if t1 == Ty::F64 { f64::from_bits(k) } else { f32::from_bits(k as u32) as f64 };
                let r = if name == "fptosi" { let lim = 1i128 << (w - 1); (f as i128).clamp(-lim, lim - 1) as u64 } else { (f as u128).min((1u128 << w) - 1) as u64 };
                V::C(r & m64(w))
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "sqrt" => {
                let V::C(k) = self.fix(st, &x)? else { return err("symbolic float") };
                let f = if ty == Ty::F64 { f64::from_bits(k) } else { f32::from_bits(k as u32) as f64 };
                let r = match name { "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "round" => f.round(), "sqrt" => f.sqrt(), _ => f.round_ties_even() };
                V::C(if ty == Ty::F64 { r.to_bits() } else { (r as f32).to_bits() as u64 })
            }
            "fabs" => match self.fix(st, &x)? { V::C(k) => V::C(k & if ty == Ty::F64 { u64::MAX >> 1 } else { 0x7fff_ffff }), _ => return err("symbolic float") },
            _ => return err(format!("unmodelled intrinsic {}", base)),
        };
        Ok(Some(r))
    }
    pub fn pre_explore_reset(&mut self) { self.st = Stats::default(); }
}

/// readable form of v0 / legacy mangled names: the path components only
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") && !s.starts_with("_ZN") { return s.to_string(); }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i; let mut n = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; if n > 200 { break; } }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if n >= 1 && i + n <= b.len() && b[i..i + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' || *c == b'$') && (b[i].is_ascii_alphabetic() || b[i] == b'_') {
                out.push(s[i..i + n].to_string()); i += n;
            } else { i = st + 1; }
        } else if b[i] == b's' || b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // disambiguator: skip base62 until '_'
            let save = i;
            i += if b[i] == b'C' { 2 } else { 1 };
            let mut k = i;
            while k < b.len() && b[k].is_ascii_alphanumeric() { k += 1; }
            if k < b.len() && b[k] == b'_' && k - i < 14 { i = k + 1; } else { i = save + 1; }
        } else { i += 1; }
    }
    if out.is_empty() { s.to_string() } else { out.join("::") }
}
#[allow(dead_code)]
pub fn ms(d: Duration) -> f64 { d.as_secs_f64() }
