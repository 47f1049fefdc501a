//! LLVM IR (textual, LLVM 19..23) data structures and parser.
//! Function bodies are parsed lazily, the first time they are executed.
use crate::expr::{mask, sext};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u16), Ptr, F32, F64, Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Meta, Label, Opaque,
}

/// A runtime value. Scalars of at most 64 bits are C; pointers and floats (bits) too.
#[derive(Clone, Debug)]
pub enum V { C(u64), W(Rc<u128>), S(u32), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrInt, Bitcast, FpOp(u8) }

#[derive(Clone, Debug)]
pub enum Callee { Fn(usize), Ind(Opd) }

#[derive(Clone, Debug)]
pub struct CallI { pub dst: u32, pub callee: Callee, pub args: Vec<Opd>, pub argtys: Vec<Ty>, pub ret: Ty, pub normal: u32 }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, Ty, Opd, Opd),
    Cmp(Pred, u32, Ty, Opd, Opd),
    FCmp(String, u32, Ty, Opd, Opd),
    Cast(CastOp, u32, Ty, Ty, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),
    Load(u32, Ty, Opd, u32),
    Store(Ty, Opd, Opd, u32),
    Alloca(u32, u64, u32, Opd),
    Select(u32, Ty, Opd, Opd, Opd, bool),
    Call(Box<CallI>),
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Opd, Opd, Vec<u32>),
    ExtElt(u32, Opd, Opd),
    InsElt(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>),
    Freeze(u32, Ty, Opd),
    Rmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    Unsupported(String),
}

pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Opd)> }
pub struct Block { pub name: String, pub phis: Vec<Phi>, pub ins: Vec<I> }
pub struct Body { pub nregs: usize, pub params: Vec<u32>, pub blocks: Vec<Block> }

pub struct Func {
    pub name: String, pub addr: u64, pub src: Option<(usize, usize)>,
    pub body: RefCell<Option<Rc<Body>>>, pub visits: Cell<u64>,
    pub is_panic: bool,
    /// The hash of a value under randomly chosen keys: any function will do.
    pub is_hash: bool,
}
pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub init: Vec<u8>, pub ty: Ty, pub konst: bool, pub tls: bool, pub defined: bool }

pub struct Module {
    pub text: String, pub funcs: Vec<Func>, pub fn_by_name: HashMap<String, usize>, pub fn_by_addr: HashMap<u64, usize>,
    pub globals: Vec<Global>, pub g_by_name: HashMap<String, usize>, pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, u64>,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => { let b = self.store(); let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn store(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => *n as u16 * t.bits(), _ => (self.size() * 8) as u16 }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> { Local(&'a str), Global(&'a str), Word(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(u8), Meta, Attr, Eof }

pub struct Lex<'a> { pub toks: Vec<(T<'a>, bool)>, pub i: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> {
        let b = s.as_bytes();
        let mut toks = Vec::with_capacity(b.len() / 5);
        let mut i = 0;
        let mut nl = true;
        let quoted = |mut i: usize| { while b[i] != b'"' { i += 1; } i };
        while i < b.len() {
            let c = b[i];
            match c {
                b'\n' => { nl = true; i += 1; continue; }
                b' ' | b'\t' | b'\r' => { i += 1; continue; }
                b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
                b'%' | b'@' => {
                    let name;
                    if b[i + 1] == b'"' { let e = quoted(i + 2); name = &s[i + 2..e]; i = e + 1; }
                    else { let st = i + 1; i = st; while i < b.len() && is_id(b[i]) { i += 1; } name = &s[st..i]; }
                    toks.push((if c == b'%' { T::Local(name) } else { T::Global(name) }, nl));
                }
                b'"' => {
                    let e = quoted(i + 1);
                    // quoted label?
                    toks.push((T::Str(&s[i + 1..e]), nl));
                    i = e + 1;
                }
                b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let e = quoted(i + 2); toks.push((T::CStr(&s[i + 2..e]), nl)); i = e + 1; }
                b'!' => {
                    i += 1;
                    if i < b.len() && b[i] == b'"' { i = quoted(i + 1) + 1; }
                    else { while i < b.len() && (is_id(b[i])) { i += 1; } }
                    toks.push((T::Meta, nl));
                }
                b'#' => { i += 1; while i < b.len() && is_id(b[i]) { i += 1; } toks.push((T::Attr, nl)); }
                b'0'..=b'9' | b'-' | b'+' => {
                    let st = i; i += 1;
                    while i < b.len() && (is_id(b[i]) || ((b[i] == b'+') && (b[i - 1] == b'e'))) { i += 1; }
                    let w = &s[st..i];
                    toks.push((T::Num(w), nl));
                }
                _ if is_id(c) => {
                    let st = i; while i < b.len() && is_id(b[i]) { i += 1; }
                    toks.push((T::Word(&s[st..i]), nl));
                }
                b'.' => { let st = i; while i < b.len() && is_id(b[i]) { i += 1; } toks.push((T::Word(&s[st..i]), nl)); }
                _ => { toks.push((T::P(c), nl)); i += 1; }
            }
            nl = false;
        }
        toks.push((T::Eof, true));
        Lex { toks, i: 0 }
    }
    pub fn peek(&self) -> T<'a> { self.toks[self.i].0 }
    pub fn peek2(&self) -> T<'a> { self.toks[(self.i + 1).min(self.toks.len() - 1)].0 }
    pub fn next(&mut self) -> T<'a> { let t = self.toks[self.i].0; if self.i + 1 < self.toks.len() { self.i += 1; } t }
    pub fn word(&mut self, w: &str) -> bool { if self.peek() == T::Word(w) { self.next(); true } else { false } }
    pub fn p(&mut self, c: u8) -> bool { if self.peek() == T::P(c) { self.next(); true } else { false } }
    pub fn exp(&mut self, c: u8) { let t = self.next(); if t != T::P(c) { panic!("expected {:?} got {:?} near {:?}", c as char, t, &self.toks[self.i.saturating_sub(8)..(self.i + 4).min(self.toks.len())]); } }
    pub fn line_end(&mut self) { loop { if self.toks[self.i].1 || self.peek() == T::Eof { return; } self.i += 1; } }
    pub fn at_line(&self) -> bool { self.toks[self.i].1 }
    pub fn skip_parens(&mut self) {
        self.exp(b'(');
        let mut d = 1;
        while d > 0 { match self.next() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, T::Eof => panic!("eof"), _ => {} } }
    }
}

const ATTRS: &[&str] = &["noundef", "nonnull", "noalias", "readonly", "readnone", "writeonly", "signext", "zeroext", "inreg", "returned", "nofree", "nest", "immarg", "allocptr", "allocalign", "noext", "dead_on_unwind", "writable", "dead_on_return",
    "fastcc", "coldcc", "ccc", "tail", "dso_local", "internal", "private", "hidden", "protected", "external", "unnamed_addr", "local_unnamed_addr", "weak", "linkonce_odr", "extern_weak", "preserve_mostcc", "preserve_allcc", "rustcc", "preserve_nonecc",
    "inbounds", "nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "nusw", "volatile", "atomic", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "weak_odr", "noinline"];
const ATTRS_P: &[&str] = &["align", "dereferenceable", "dereferenceable_or_null", "captures", "range", "initializes", "sret", "byval", "elementtype", "nofpclass", "memory", "addrspace", "allocsize", "inrange", "alignstack", "nofpclass", "dead_on_return"];

pub fn skip_attrs(l: &mut Lex) {
    loop {
        match l.peek() {
            T::Word(w) => {
                if ATTRS_P.contains(&w) && l.peek2() == T::P(b'(') { l.next(); l.skip_parens(); }
                else if w == "align" { l.next(); l.next(); }
                else if ATTRS.contains(&w) { l.next(); }
                else { return; }
            }
            T::Attr => { l.next(); }
            T::Str(_) => { l.next(); if l.p(b'=') { l.next(); } }
            _ => return,
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(h(b[i + 1]) << 4 | h(b[i + 2])); i += 3; }
        } else { o.push(b[i]); i += 1; }
    }
    o
}

pub fn vk(v: u128, w: u16) -> V { let v = v & mask(w); if w <= 64 { V::C(v as u64) } else { V::W(Rc::new(v)) } }

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module { text: String::new(), funcs: vec![], fn_by_name: HashMap::new(), fn_by_addr: HashMap::new(), globals: vec![],
            g_by_name: HashMap::new(), types: HashMap::new(), aliases: HashMap::new() };
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut alines: Vec<(usize, usize)> = vec![];
        let mut pos = 0;
        let b = text.as_bytes();
        let mut faddr = 0x0f_f000_0000u64;
        let add_fn = |m: &mut Module, name: String, src: Option<(usize, usize)>, faddr: &mut u64| {
            let id = m.funcs.len();
            let is_panic = name.contains("core9panicking") || name.contains("slice_error_fail") || name.contains("slice_index_fail")
                || name.contains("13unwrap_failed") || name.contains("13expect_failed") || name.contains("std9panicking")
                || name.contains("17capacity_overflow") || name.contains("18handle_alloc_error") || name.contains("12handle_error");
            let is_hash = name.contains("11RandomState") && name.contains("8hash_one");
            m.funcs.push(Func { name: name.clone(), addr: *faddr, src, body: RefCell::new(None), visits: Cell::new(0), is_panic, is_hash });
            m.fn_by_addr.insert(*faddr, id);
            m.fn_by_name.insert(name, id);
            *faddr += 16;
        };
        while pos < b.len() {
            let e = memchr(b, b'\n', pos).unwrap_or(b.len());
            let line = &text[pos..e];
            if line.starts_with('@') {
                let l = &line[..line.len().min(600)];
                let name = gname(l);
                // alias / function?
                let rest = &l[l.find(" = ").unwrap() + 3..];
                if rest.split(' ').take(8).any(|w| w == "alias" || w == "ifunc") { alines.push((pos, e)); }
                else { m.g_by_name.insert(name, glines.len()); glines.push((pos, e)); }
            } else if line.starts_with("define ") {
                let name = gname(&line[line.find('@').unwrap()..]);
                // find end "\n}\n"
                let mut p = e;
                loop {
                    let n = memchr(b, b'\n', p + 1).unwrap_or(b.len());
                    if b[p + 1] == b'}' { p = n; break; }
                    p = n;
                }
                add_fn(&mut m, name, Some((pos, p)), &mut faddr);
                pos = p + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = gname(&line[line.find('@').unwrap()..]);
                add_fn(&mut m, name, None, &mut faddr);
            } else if line.starts_with('%') {
                let mut lx = Lex::new(line);
                if let T::Local(n) = lx.next() { lx.exp(b'='); lx.word("type"); let t = if lx.word("opaque") { Ty::Opaque } else { m.ty(&mut lx) }; m.types.insert(n.to_string(), t); }
            }
            pos = e + 1;
        }
        // where such a hash is also computed in line, the two have to agree
        let sip = |f: &Func| f.src.map_or(false, |(s, e)| text[s..e].contains("8317987319222330741"));
        if m.funcs.iter().any(|f| !f.is_hash && sip(f)) { for f in m.funcs.iter_mut() { f.is_hash = false; } }
        // pass 1: types and addresses
        let mut addr = 0x10_0000_0000u64;
        let mut starts = vec![];
        for &(s, e) in &glines {
            let line = &text[s..e];
            let mut lx = Lex::new(line);
            let name = match lx.next() { T::Global(n) => n.to_string(), _ => panic!() };
            lx.exp(b'=');
            let (mut konst, mut tls, mut ext) = (false, false, false);
            loop {
                if let T::Word(w) = lx.peek() {
                    match w {
                        "constant" => { konst = true; lx.next(); break; }
                        "global" => { lx.next(); break; }
                        "thread_local" => { tls = true; lx.next(); if lx.peek() == T::P(b'(') { lx.skip_parens(); } }
                        "external" | "extern_weak" => { ext = true; lx.next(); }
                        "addrspace" => { lx.next(); lx.skip_parens(); }
                        _ => { lx.next(); }
                    }
                } else { lx.next(); }
            }
            let ty = m.ty(&mut lx);
            let at = lx.i;
            let mut align = 16u64;
            for k in 0..lx.toks.len() - 1 { if lx.toks[k].0 == T::Word("align") { if let T::Num(n) = lx.toks[k + 1].0 { align = align.max(n.parse().unwrap()); } } }
            let size = ty.size();
            addr = (addr + align - 1) / align * align;
            m.globals.push(Global { name, addr, size, init: vec![], ty, konst, tls, defined: !ext });
            addr += size + 32;
            starts.push(at);
        }
        m.text = text;
        for &(s, e) in &alines {
            let t: &str = unsafe { &*(&m.text[s..e] as *const str) };
            let mut lx = Lex::new(t);
            let name = match lx.next() { T::Global(n) => n.to_string(), _ => panic!() };
            // last global token is the target
            let mut tgt = None;
            for k in lx.i..lx.toks.len() { if let T::Global(n) = lx.toks[k].0 { tgt = Some(n); } }
            let a = m.gaddr(tgt.unwrap());
            m.aliases.insert(name.clone(), a);
            if let Some(&f) = m.fn_by_addr.get(&a) { m.fn_by_name.insert(name, f); }
        }
        for (k, &(s, e)) in glines.iter().enumerate() {
            if !m.globals[k].defined { let z = m.globals[k].size as usize; m.globals[k].init = vec![0; z]; continue; }
            let t: &str = unsafe { &*(&m.text[s..e] as *const str) };
            let mut lx = Lex::new(t);
            lx.i = starts[k];
            let ty = m.globals[k].ty.clone();
            let v = m.konst(&mut lx, &ty);
            let mut out = vec![0u8; m.globals[k].size as usize];
            store_const(&v, &ty, &mut out, 0);
            m.globals[k].init = out;
        }
        m
    }
    pub fn gaddr(&self, n: &str) -> u64 {
        if let Some(&g) = self.g_by_name.get(n) { return self.globals[g].addr; }
        if let Some(&f) = self.fn_by_name.get(n) { return self.funcs[f].addr; }
        if let Some(&a) = self.aliases.get(n) { return a; }
        panic!("unknown global {}", n)
    }
    pub fn ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            T::Word(w) => match w {
                "void" => Ty::Void, "ptr" => { if l.peek() == T::Word("addrspace") { l.next(); l.skip_parens(); } Ty::Ptr }
                "float" => Ty::F32, "double" => Ty::F64, "metadata" => Ty::Meta, "label" => Ty::Label, "token" => Ty::Opaque, "half" | "bfloat" => Ty::Int(16), "fp128" | "x86_fp80" => Ty::Int(128),
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                _ => panic!("type {}", w),
            },
            T::P(b'[') => { let n = num(l); l.word("x"); let t = self.ty(l); l.exp(b']'); Ty::Arr(n, Rc::new(t)) }
            T::P(b'{') => { let f = self.tylist(l, b'}'); Ty::Struct(Rc::new(f), false) }
            T::P(b'<') => {
                if l.p(b'{') { let f = self.tylist(l, b'}'); l.exp(b'>'); Ty::Struct(Rc::new(f), true) }
                else { let n = num(l); l.word("x"); let t = self.ty(l); l.exp(b'>'); Ty::Vec(n as u32, Rc::new(t)) }
            }
            T::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Opaque),
            t => panic!("type token {:?} near {:?}", t, &l.toks[l.i.saturating_sub(8)..(l.i + 4).min(l.toks.len())]),
        };
        t
    }
    fn tylist(&self, l: &mut Lex, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if l.p(end) { return v; }
        loop { v.push(self.ty(l)); if l.p(end) { return v; } l.exp(b','); }
    }
    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Arr(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Self::zero).collect())),
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            _ => V::C(0),
        }
    }
    fn tv(&self, l: &mut Lex) -> (Ty, V) { let t = self.ty(l); skip_attrs(l); let v = self.konst(l, &t); (t, v) }
    fn aggr(&self, l: &mut Lex, end: u8) -> V {
        let mut v = vec![];
        if l.p(end) { return V::A(Rc::new(v)); }
        loop { v.push(self.tv(l).1); if l.p(end) { return V::A(Rc::new(v)); } l.exp(b','); }
    }
    pub fn konst(&self, l: &mut Lex, ty: &Ty) -> V {
        match l.next() {
            T::Num(n) => match ty {
                Ty::Int(w) => {
                    let v: u128 = if let Some(x) = n.strip_prefix('-') { (x.parse::<u128>().unwrap()).wrapping_neg() } else if let Some(x) = n.strip_prefix("0x") { u128::from_str_radix(x, 16).unwrap() } else { n.parse().unwrap_or_else(|_| panic!("int {} near {:?}", n, &l.toks[l.i.saturating_sub(8)..(l.i + 4).min(l.toks.len())])) };
                    vk(v, *w)
                }
                Ty::F64 | Ty::F32 => {
                    let d = if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { n.trim_start_matches('+').parse().unwrap_or(f64::INFINITY) };
                    if *ty == Ty::F64 { V::C(d.to_bits()) } else { V::C((d as f32).to_bits() as u64) }
                }
                _ => panic!("num for {:?}", ty),
            },
            T::Word(w) if w.starts_with("f0x") => V::C(u64::from_str_radix(&w[3..], 16).unwrap()),
            T::CStr(s) => V::A(Rc::new(unhex(s).into_iter().map(|b| V::C(b as u64)).collect())),
            T::Global(n) => V::C(self.gaddr(n)),
            T::P(b'[') => self.aggr(l, b']'),
            T::P(b'{') => self.aggr(l, b'}'),
            T::P(b'<') => if l.p(b'{') { let r = self.aggr(l, b'}'); l.exp(b'>'); r } else { self.aggr(l, b'>') },
            T::P(b'+') => { l.next(); V::C(f64::INFINITY.to_bits()) }
            T::P(b'-') => { l.next(); V::C(f64::NEG_INFINITY.to_bits()) }
            T::Meta => V::C(0),
            T::Word(w) => match w {
                "true" => V::C(1), "false" => V::C(0), "null" | "none" => V::C(0),
                "zeroinitializer" | "undef" | "poison" => Self::zero(ty),
                "inf" => V::C(f64::INFINITY.to_bits()), "nan" | "qnan" => V::C(f64::NAN.to_bits()),
                "splat" => { l.exp(b'('); let (_, v) = self.tv(l); l.exp(b')'); let n = match ty { Ty::Vec(n, _) => *n as usize, Ty::Arr(n, _) => *n as usize, _ => panic!() }; V::A(Rc::new(vec![v; n])) }
                "getelementptr" => {
                    skip_attrs(l);
                    l.exp(b'(');
                    let t = self.ty(l); l.exp(b',');
                    let (_, base) = self.tv(l);
                    let mut off = 0i64; let mut cur = t; let mut first = true;
                    while l.p(b',') {
                        skip_attrs(l);
                        let (ity, v) = self.tv(l);
                        let V::C(iv) = v else { panic!() };
                        let iv = sext(iv as u128, ity.bits()) as i64;
                        if first { off += iv * cur.size() as i64; first = false; } else { let (o, t) = cur.field(iv as u64); off += o as i64; cur = t; }
                    }
                    l.exp(b')');
                    let V::C(b) = base else { panic!() };
                    V::C(b.wrapping_add(off as u64))
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "zext" | "bitcast" | "addrspacecast" => {
                    l.exp(b'('); let (_, v) = self.tv(l); assert!(l.word("to")); let t = self.ty(l); l.exp(b')');
                    let V::C(v) = v else { panic!() };
                    V::C((v as u128 & mask(t.bits())) as u64)
                }
                "sub" | "add" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    skip_attrs(l);
                    l.exp(b'('); let (t, a) = self.tv(l); l.exp(b','); let (_, b) = self.tv(l); l.exp(b')');
                    let (V::C(a), V::C(b)) = (a, b) else { panic!() };
                    let r = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), "and" => a & b, "or" => a | b, "shl" => a << (b & 63), "lshr" => a >> (b & 63), _ => a ^ b };
                    V::C((r as u128 & mask(t.bits())) as u64)
                }
                _ => panic!("const word {} near {:?}", w, &l.toks[l.i.saturating_sub(8)..(l.i + 4).min(l.toks.len())]),
            },
            t => panic!("const token {:?} near {:?}", t, &l.toks[l.i.saturating_sub(8)..(l.i + 4).min(l.toks.len())]),
        }
    }

    pub fn body(&self, f: usize) -> Option<Rc<Body>> {
        if let Some(b) = &*self.funcs[f].body.borrow() { return Some(b.clone()); }
        let (s, e) = self.funcs[f].src?;
        let b = Rc::new(self.parse_body(&self.text[s..e]));
        *self.funcs[f].body.borrow_mut() = Some(b.clone());
        Some(b)
    }

    fn parse_body(&self, src: &str) -> Body {
        let hdr_end = src.find('\n').unwrap();
        let mut l = Lex::new(src);
        // header: parameters
        while !matches!(l.peek(), T::Global(_)) { l.next(); }
        l.next();
        let mut p = P { m: self, regs: HashMap::new(), blocks: HashMap::new(), n: 0 };
        let mut params = vec![];
        let mut unnamed = 0;
        l.exp(b'(');
        if !l.p(b')') {
            loop {
                if l.peek() == T::P(b'.') || matches!(l.peek(), T::Word("...")) { l.next(); l.p(b')'); break; }
                let _t = self.ty(&mut l);
                skip_attrs(&mut l);
                if let T::Local(n) = l.peek() { l.next(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } params.push(p.reg(n)); } else { let k = unnamed; unnamed += 1; params.push(p.reg(&k.to_string())); }
                if l.p(b')') { break; }
                l.exp(b',');
            }
        }
        let _ = hdr_end;
        l.line_end();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut order = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            match l.peek() {
                T::Eof => break,
                T::P(b'}') => break,
                T::Word(w) | T::Num(w) | T::Str(w) if l.peek2() == T::P(b':') => {
                    let w = w.to_string();
                    l.next(); l.next();
                    if let Some((i, b)) = cur.take() { set(&mut blocks, i, b); }
                    let id = p.block(&w); order.push(id);
                    cur = Some((id, Block { name: w, phis: vec![], ins: vec![] }));
                    continue;
                }
                _ => {}
            }
            if cur.is_none() {
                // implicit entry label: the next unnamed number after the parameters
                let nm = format!("{}", unnamed);
                let id = p.block(&nm); order.push(id);
                // also remember as generic entry
                cur = Some((id, Block { name: nm, phis: vec![], ins: vec![] }));
            }
            let blk = &mut cur.as_mut().unwrap().1;
            p.inst(&mut l, blk);
            if !l.at_line() { l.line_end(); }
        }
        if let Some((i, b)) = cur.take() { set(&mut blocks, i, b); }
        // order[0] must be block 0 for execution: remap
        let entry = order[0];
        let nb = p.blocks.len();
        let mut out: Vec<Block> = Vec::with_capacity(nb);
        for k in 0..nb { out.push(blocks.get_mut(k).and_then(|b| b.take()).unwrap_or(Block { name: "?".into(), phis: vec![], ins: vec![] })); }
        assert_eq!(entry, 0, "entry block order");
        Body { nregs: p.n as usize, params, blocks: out }
    }
}

fn set(b: &mut Vec<Option<Block>>, i: u32, x: Block) { while b.len() <= i as usize { b.push(None); } b[i as usize] = Some(x); }
fn memchr(b: &[u8], c: u8, from: usize) -> Option<usize> { b[from..].iter().position(|&x| x == c).map(|p| p + from) }
fn gname(l: &str) -> String {
    let b = l.as_bytes();
    if b[1] == b'"' { let e = l[2..].find('"').unwrap(); l[2..2 + e].to_string() } else { let mut i = 1; while i < b.len() && is_id(b[i]) { i += 1; } l[1..i].to_string() }
}
fn num(l: &mut Lex) -> u64 { match l.next() { T::Num(n) => n.parse().unwrap(), t => panic!("num {:?}", t) } }

pub fn store_const(v: &V, ty: &Ty, out: &mut [u8], off: usize) {
    match (v, ty) {
        (V::A(a), Ty::Struct(f, _)) => for i in 0..f.len() { let (o, t) = ty.field(i as u64); store_const(&a[i], &t, out, off + o as usize); },
        (V::A(a), Ty::Arr(_, t)) | (V::A(a), Ty::Vec(_, t)) => { let s = t.size() as usize; for (i, x) in a.iter().enumerate() { store_const(x, t, out, off + i * s); } }
        (V::C(c), _) => { let n = ty.store() as usize; out[off..off + n.min(8)].copy_from_slice(&c.to_le_bytes()[..n.min(8)]); }
        (V::W(c), _) => { let n = ty.store() as usize; out[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); }
        _ => panic!("store_const"),
    }
}

struct P<'m> { m: &'m Module, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, n: u32 }

impl<'m> P<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.n; self.n += 1; self.regs.insert(n.to_string(), r); r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) { return r; }
        let r = self.blocks.len() as u32; self.blocks.insert(n.to_string(), r); r
    }
    fn val(&mut self, l: &mut Lex, ty: &Ty) -> Opd {
        if let T::Local(n) = l.peek() { l.next(); return Opd::R(self.reg(n)); }
        Opd::K(self.m.konst(l, ty))
    }
    fn tval(&mut self, l: &mut Lex) -> (Ty, Opd) { let t = self.m.ty(l); skip_attrs(l); let v = self.val(l, &t); (t, v) }
    fn label(&mut self, l: &mut Lex) -> u32 { l.word("label"); match l.next() { T::Local(n) => self.block(n), t => panic!("label {:?}", t) } }
    fn align(&mut self, l: &mut Lex) -> u32 {
        let save = l.i; let mut a = 0;
        while !l.at_line() || l.i == save { if l.peek() == T::Eof { break; } if l.peek() == T::Word("align") { l.next(); a = num(l) as u32; break; } l.next(); if l.at_line() { break; } }
        a
    }
    fn inst(&mut self, l: &mut Lex, blk: &mut Block) {
        let mut dst = u32::MAX;
        if let T::Local(n) = l.peek() { if l.peek2() == T::P(b'=') { l.next(); l.next(); dst = self.reg(n); } }
        let w = match l.next() { T::Word(w) => w, t => panic!("inst token {:?} near {:?}", t, &l.toks[l.i.saturating_sub(8)..(l.i + 4).min(l.toks.len())]) };
        let ins = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_attrs(l);
                let (t, a) = self.tval(l); l.exp(b','); let b = self.val(l, &t);
                let op = match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem,
                    "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem };
                I::Bin(op, dst, t, a, b)
            }
            "icmp" => {
                skip_attrs(l);
                let pr = match l.next() { T::Word(p) => match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!() }, _ => panic!() };
                let (t, a) = self.tval(l); l.exp(b','); let b = self.val(l, &t);
                I::Cmp(pr, dst, t, a, b)
            }
            "fcmp" => {
                skip_attrs(l);
                let pr = match l.next() { T::Word(p) => p.to_string(), _ => panic!() };
                let (t, a) = self.tval(l); l.exp(b','); let b = self.val(l, &t);
                I::FCmp(pr, dst, t, a, b)
            }
            "fneg" => { skip_attrs(l); let (t, a) = self.tval(l); let k = if t == Ty::F64 { V::C((-0.0f64).to_bits()) } else { V::C((-0.0f32).to_bits() as u64) }; let ti = Ty::Int(t.bits()); I::Bin(BinOp::Xor, dst, ti, a, Opd::K(k)) }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" | "addrspacecast" => {
                skip_attrs(l);
                let (t, a) = self.tval(l); assert!(l.word("to")); let t2 = self.m.ty(l);
                let k = match w { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "inttoptr" | "ptrtoaddr" => CastOp::PtrInt, "bitcast" | "addrspacecast" => CastOp::Bitcast,
                    "uitofp" => CastOp::FpOp(0), "sitofp" => CastOp::FpOp(1), "fptoui" => CastOp::FpOp(2), "fptosi" => CastOp::FpOp(3), "fptrunc" => CastOp::FpOp(4), _ => CastOp::FpOp(5) };
                I::Cast(k, dst, t, t2, a)
            }
            "getelementptr" => {
                skip_attrs(l);
                let t = self.m.ty(l); l.exp(b',');
                let (bt, base) = self.tval(l);
                if matches!(bt, Ty::Vec(..)) { I::Unsupported("vector gep".into()) } else {
                let mut off = 0i64; let mut cur = t; let mut first = true; let mut idx = vec![];
                while l.p(b',') {
                    if l.peek() == T::Meta { break; }
                    skip_attrs(l);
                    let (it, v) = self.tval(l);
                    let scale;
                    if first { scale = cur.size() as i64; first = false; }
                    else {
                        match (&cur, &v) {
                            (Ty::Struct(..), Opd::K(V::C(k))) => { let (o, t) = cur.field(*k); off += o as i64; cur = t; continue; }
                            (Ty::Arr(_, t), _) | (Ty::Vec(_, t), _) => { scale = t.size() as i64; let t2 = (**t).clone(); cur = t2; }
                            _ => panic!("gep"),
                        }
                    }
                    match v { Opd::K(V::C(k)) => off += sext(k as u128, it.bits()) as i64 * scale, Opd::R(_) => idx.push((v, it.bits(), scale)), _ => panic!("gep idx") }
                }
                I::Gep(dst, base, off, idx) }
            }
            "load" => { skip_attrs(l); let t = self.m.ty(l); l.exp(b','); let (_, p) = self.tval(l); let a = self.align(l); I::Load(dst, t, p, a) }
            "store" => { skip_attrs(l); let (t, v) = self.tval(l); l.exp(b','); let (_, p) = self.tval(l); let a = self.align(l); I::Store(t, v, p, a) }
            "alloca" => {
                skip_attrs(l);
                let t = self.m.ty(l);
                let mut n = Opd::K(V::C(1)); let mut al = 0;
                while l.p(b',') { if l.word("align") { al = num(l) as u32; } else if l.peek() == T::Meta { break; } else { n = self.tval(l).1; } }
                I::Alloca(dst, t.size(), al.max(t.align() as u32), n)
            }
            "select" => { skip_attrs(l); let (ct, c) = self.tval(l); l.exp(b','); let (t, a) = self.tval(l); l.exp(b','); let (_, b) = self.tval(l); I::Select(dst, t, c, a, b, matches!(ct, Ty::Vec(..))) }
            "phi" => {
                skip_attrs(l);
                let t = self.m.ty(l);
                let mut inc = vec![];
                loop {
                    l.exp(b'['); let v = self.val(l, &t); l.exp(b','); let b = match l.next() { T::Local(n) => self.block(n), t => panic!("phi {:?}", t) }; l.exp(b']');
                    inc.push((b, v));
                    if l.peek() == T::P(b',') && l.peek2() == T::P(b'[') { l.next(); } else { break; }
                }
                blk.phis.push(Phi { dst, inc });
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" { l.word("call"); }
                skip_attrs(l);
                let ret = self.m.ty(l);
                // optional function type
                if l.peek() == T::P(b'(') { l.skip_parens(); }
                skip_attrs(l);
                let callee = match l.next() {
                    T::Global(n) => match self.m.fn_by_name.get(n) { Some(&f) => Callee::Fn(f), None => Callee::Ind(Opd::K(V::C(self.m.gaddr(n)))) },
                    T::Local(n) => Callee::Ind(Opd::R(self.reg(n))),
                    T::Word("asm") => {
                        let mut cpuid = false;
                        while !l.at_line() { if let T::Str(s) = l.peek() { cpuid |= s.contains("cpuid"); } l.next(); }
                        // cpuid reports no optional features: libraries that select at run time use their baseline path
                        blk.ins.push(if cpuid { let z = Opd::K(Module::zero(&ret)); I::Insert(dst, z, Opd::K(V::C(0)), vec![0]) } else { I::Unsupported("asm".into()) });
                        return;
                    }
                    t => panic!("callee {:?} near {:?}", t, &l.toks[l.i.saturating_sub(8)..(l.i + 4).min(l.toks.len())]),
                };
                l.exp(b'(');
                let (mut args, mut tys) = (vec![], vec![]);
                if !l.p(b')') {
                    loop {
                        let t = self.m.ty(l);
                        if t == Ty::Meta { let mut d = 0; loop { match l.peek() { T::P(b'(') => d += 1, T::P(b')') if d == 0 => break, T::P(b')') => d -= 1, T::P(b',') if d == 0 => break, _ => {} } l.next(); } args.push(Opd::K(V::C(0))); tys.push(t); }
                        else { skip_attrs(l); let v = self.val(l, &t); args.push(v); tys.push(t); }
                        if l.p(b')') { break; }
                        l.exp(b',');
                    }
                }
                let mut normal = u32::MAX;
                if w == "invoke" {
                    while l.peek() != T::Word("to") { if l.peek() == T::P(b'[') { while !l.p(b']') { l.next(); } } else { l.next(); } }
                    l.word("to"); normal = self.label(l); l.word("unwind"); self.label(l);
                }
                I::Call(Box::new(CallI { dst, callee, args, argtys: tys, ret, normal }))
            }
            "extractvalue" => { let (_, a) = self.tval(l); let mut ix = vec![]; while l.p(b',') { if l.peek() == T::Meta { break; } ix.push(num(l) as u32); } I::Extract(dst, a, ix) }
            "insertvalue" => { let (_, a) = self.tval(l); l.exp(b','); let (_, b) = self.tval(l); let mut ix = vec![]; while l.p(b',') { if l.peek() == T::Meta { break; } ix.push(num(l) as u32); } I::Insert(dst, a, b, ix) }
            "extractelement" => { let (_, a) = self.tval(l); l.exp(b','); let (_, b) = self.tval(l); I::ExtElt(dst, a, b) }
            "insertelement" => { let (_, a) = self.tval(l); l.exp(b','); let (_, v) = self.tval(l); l.exp(b','); let (_, i) = self.tval(l); I::InsElt(dst, a, v, i) }
            "shufflevector" => {
                let (_, a) = self.tval(l); l.exp(b','); let (_, b) = self.tval(l); l.exp(b',');
                let mt = self.m.ty(l);
                let Ty::Vec(n, _) = &mt else { panic!() };
                let V::A(mk) = self.m.konst(l, &mt) else { panic!() };
                let mask: Vec<i32> = mk.iter().take(*n as usize).map(|v| if let V::C(c) = v { *c as i32 } else { 0 }).collect();
                I::Shuffle(dst, a, b, mask)
            }
            "freeze" => { let (t, a) = self.tval(l); I::Freeze(dst, t, a) }
            "atomicrmw" => { skip_attrs(l); let op = match l.next() { T::Word(o) => o.to_string(), _ => panic!() }; let (_, p) = self.tval(l); l.exp(b','); let (t, v) = self.tval(l); I::Rmw(dst, op, t, p, v) }
            "cmpxchg" => { l.word("weak"); skip_attrs(l); let (_, p) = self.tval(l); l.exp(b','); let (t, a) = self.tval(l); l.exp(b','); let (_, b) = self.tval(l); I::CmpXchg(dst, t, p, a, b) }
            "fence" => I::Nop,
            "br" => {
                if l.peek() == T::Word("label") { I::Br(self.label(l)) }
                else { let (_, c) = self.tval(l); l.exp(b','); let a = self.label(l); l.exp(b','); let b = self.label(l); I::CondBr(c, a, b) }
            }
            "switch" => {
                let (t, v) = self.tval(l); l.exp(b','); let d = self.label(l); l.exp(b'[');
                let mut cases = vec![];
                while !l.p(b']') {
                    let (_, k) = self.tval(l); l.exp(b','); let b = self.label(l);
                    let kv = match k { Opd::K(V::C(c)) => c as u128, Opd::K(V::W(c)) => *c, _ => panic!() };
                    cases.push((kv, b));
                }
                I::Switch(t, v, d, cases)
            }
            "ret" => { if l.word("void") { I::Ret(Ty::Void, None) } else { let (t, v) = self.tval(l); I::Ret(t, Some(v)) } }
            "unreachable" => I::Unreachable,
            "landingpad" | "resume" => {
                l.line_end();
                while matches!(l.peek(), T::Word("cleanup") | T::Word("catch") | T::Word("filter")) { l.next(); l.line_end(); }
                I::Unsupported(w.to_string())
            }
            _ => { let s = w.to_string(); l.line_end(); I::Unsupported(s) }
        };
        blk.ins.push(ins);
    }
}
