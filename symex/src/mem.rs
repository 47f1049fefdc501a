//! Byte-addressed memory with bounds, liveness and initialisation tracking.
//! Addresses are never reused, objects are separated by guard gaps.
use crate::ir::Module;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Heap, Stack, Global, Misc }
#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub kind: Kind, pub writable: bool, pub data: Vec<u8>, pub sh: Option<Vec<u32>> }
#[derive(Clone)]
pub struct Slot { pub base: u64, pub size: u64, pub live: bool, pub obj: Rc<Obj> }
#[derive(Clone)]
pub struct Mem { pub slots: Vec<Slot>, pub next: u64, pub dead: usize, pub glob: HashMap<u32, Rc<Obj>>, pub hint: usize, pub live_heap: i64 }

/// shadow markers
pub const CONC: u32 = 0;
pub const UNINIT: u32 = 1;

pub struct Globals { pub starts: Vec<(u64, u64, u32)>, pub objs: Vec<Rc<Obj>> }
impl Globals {
    pub fn new(m: &Module) -> Globals {
        let mut starts = vec![]; let mut objs = vec![];
        for (i, g) in m.globals.iter().enumerate() {
            starts.push((g.addr, g.size, i as u32));
            objs.push(Rc::new(Obj { base: g.addr, size: g.size, kind: Kind::Global, writable: !g.konst, data: g.init.clone(), sh: None }));
        }
        starts.sort();
        Globals { starts, objs }
    }
    pub fn find(&self, a: u64) -> Option<u32> {
        let i = self.starts.partition_point(|s| s.0 <= a);
        if i == 0 { return None; }
        let s = self.starts[i - 1];
        if a <= s.0 + s.1 { Some(s.2) } else { None }
    }
}

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind, init: bool) -> Obj {
        Obj { base, size, kind, writable: true, data: vec![0; size as usize], sh: if init { None } else { Some(vec![UNINIT; size as usize]) } }
    }
    pub fn set(&mut self, off: usize, byte: u8, sh: u32) {
        self.data[off] = byte;
        match &mut self.sh { Some(s) => s[off] = sh, None => if sh != CONC { let mut s = vec![CONC; self.size as usize]; s[off] = sh; self.sh = Some(s); } }
    }
    pub fn get(&self, off: usize) -> (u8, u32) { (self.data[off], match &self.sh { Some(s) => s[off], None => CONC }) }
    pub fn all_conc(&self, off: usize, n: usize) -> bool { match &self.sh { None => true, Some(s) => s[off..off + n].iter().all(|&x| x == CONC) } }
}

pub enum Loc { G(u32), H(usize) }

impl Mem {
    pub fn new() -> Mem { Mem { slots: vec![], next: 0x20_0000_0000, dead: 0, glob: HashMap::new(), hint: 0, live_heap: 0 } }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, init: bool) -> u64 {
        let al = align.max(16);
        let base = (self.next + al - 1) / al * al;
        self.next = base + size + 48;
        if kind == Kind::Heap { self.live_heap += 1; }
        self.slots.push(Slot { base, size, live: true, obj: Rc::new(Obj::new(base, size, kind, init)) });
        base
    }
    fn idx(&mut self, a: u64) -> Option<usize> {
        let h = self.hint;
        if h < self.slots.len() { let s = &self.slots[h]; if a >= s.base && a < s.base + s.size { return Some(h); } }
        let i = self.slots.partition_point(|s| s.base <= a);
        if i == 0 { return None; }
        self.hint = i - 1;
        Some(i - 1)
    }
    /// locate an access of n bytes; Err describes the memory error
    pub fn locate(&mut self, g: &Globals, a: u64, n: u64, write: bool) -> Result<(Loc, usize), String> {
        if a >= 0x20_0000_0000 {
            let Some(i) = self.idx(a) else { return Err(format!("wild pointer {:#x}", a)) };
            let s = &self.slots[i];
            if a > s.base + s.size + 64 { return Err(format!("pointer {:#x} outside any object ({} bytes past the nearest one, {} bytes)", a, a - s.base, s.size)); }
            if !s.live { return Err(format!("use after free/return at offset {} of a {:?} object of {} bytes", a - s.base, s.obj.kind, s.size)); }
            if a - s.base + n > s.size { return Err(format!("out of bounds {}: offset {} length {} of a {:?} object of {} bytes", if write { "write" } else { "read" }, a - s.base, n, s.obj.kind, s.size)); }
            return Ok((Loc::H(i), (a - s.base) as usize));
        }
        match g.find(a) {
            Some(i) => {
                let o = &g.objs[i as usize];
                if a - o.base + n > o.size { return Err(format!("out of bounds {}: offset {} length {} of a global of {} bytes", if write { "write" } else { "read" }, a - o.base, n, o.size)); }
                if write && !o.writable { return Err("write to constant".into()); }
                Ok((Loc::G(i), (a - o.base) as usize))
            }
            None => Err(format!("{} through invalid pointer {:#x}", if write { "write" } else { "read" }, a)),
        }
    }
    pub fn obj<'a>(&'a self, g: &'a Globals, l: &Loc) -> &'a Obj {
        match l { Loc::H(i) => &self.slots[*i].obj, Loc::G(i) => self.glob.get(i).unwrap_or(&g.objs[*i as usize]) }
    }
    pub fn obj_mut<'a>(&'a mut self, g: &Globals, l: &Loc) -> &'a mut Obj {
        match l { Loc::H(i) => Rc::make_mut(&mut self.slots[*i].obj), Loc::G(i) => Rc::make_mut(self.glob.entry(*i).or_insert_with(|| g.objs[*i as usize].clone())) }
    }
    pub fn kill(&mut self, i: usize) {
        thread_local! { static EMPTY: Rc<Obj> = Rc::new(Obj { base: 0, size: 0, kind: Kind::Misc, writable: false, data: vec![], sh: None }); }
        let s = &mut self.slots[i];
        s.live = false;
        s.obj = EMPTY.with(|e| e.clone());
        self.dead += 1;
        while let Some(s) = self.slots.last() { if !s.live { self.slots.pop(); self.dead -= 1; } else { break; } }
        if self.dead > 256 && self.dead * 2 > self.slots.len() { self.slots.retain(|s| s.live); self.dead = 0; }
    }
    pub fn free(&mut self, a: u64) -> Result<(), String> {
        if a == 0 { return Ok(()); }
        let Some(i) = self.idx(a) else { return Err(format!("free of wild pointer {:#x}", a)) };
        let s = &self.slots[i];
        if s.base != a || !s.live || s.obj.kind != Kind::Heap { return Err(format!("invalid free of {:#x}", a)); }
        self.live_heap -= 1;
        self.kill(i);
        Ok(())
    }
    pub fn pop_stack(&mut self, a: u64) { if let Some(i) = self.slots.binary_search_by(|s| s.base.cmp(&a)).ok() { if self.slots[i].live { self.kill(i); } } }
}
