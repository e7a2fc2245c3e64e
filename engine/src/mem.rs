//! Copy-on-write object memory with a symbolic byte overlay.
use crate::expr::{Arena, E};
use crate::ir::{Module, HEAP_ID0};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// parallel to data when non-empty: (expression, byte index), expression 0 = concrete
    pub sym: Vec<(E, u8)>,
    pub freed: bool,
    pub ro: bool,
}

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: u64,
    gover: HashMap<u32, Rc<Obj>>,
}

const PG: usize = 128;

pub struct Globals {
    pub base: RefCell<HashMap<u32, Rc<Obj>>>,
}

pub enum Loaded {
    C(u128),
    S(E),
}

impl Mem {
    pub fn new() -> Mem {
        Mem { pages: vec![], next: 0, gover: HashMap::new() }
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let id = self.next;
        self.next += 1;
        let o = Obj { data: vec![0; size as usize], sym: vec![], freed: false, ro: false };
        let pg = id as usize / PG;
        if pg >= self.pages.len() {
            self.pages.push(Rc::new(Vec::with_capacity(PG)));
        }
        Rc::make_mut(&mut self.pages[pg]).push(Some(Rc::new(o)));
        (HEAP_ID0 + id) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let id = addr >> 32;
        if id < HEAP_ID0 || addr & 0xffff_ffff != 0 {
            return Err(format!("free of {addr:#x}"));
        }
        let i = (id - HEAP_ID0) as usize;
        let pg = self.pages.get_mut(i / PG).ok_or("free: bad page")?;
        let s = &mut Rc::make_mut(pg)[i % PG];
        if s.is_none() {
            return Err(format!("double free of {addr:#x}"));
        }
        *s = None;
        Ok(())
    }
    pub fn obj<'a>(&'a self, g: &'a Globals, m: &Module, id: u64) -> Result<Rc<Obj>, String> {
        if id >= HEAP_ID0 {
            let i = (id - HEAP_ID0) as usize;
            match self.pages.get(i / PG).and_then(|p| p.get(i % PG)) {
                Some(Some(o)) => Ok(o.clone()),
                Some(None) => Err(format!("use after free of object {id:#x}")),
                None => Err(format!("bad object {id:#x}")),
            }
        } else {
            let gi = id as u32;
            if gi == 0 || gi as usize > m.globals.len() {
                return Err(format!("bad pointer (object {id:#x})"));
            }
            if let Some(o) = self.gover.get(&gi) {
                return Ok(o.clone());
            }
            Ok(g.get(m, gi))
        }
    }
    fn obj_ref<'a>(&'a self, id: u64) -> Option<&'a Obj> {
        if id >= HEAP_ID0 {
            let i = (id - HEAP_ID0) as usize;
            match self.pages.get(i / PG).and_then(|p| p.get(i % PG)) {
                Some(Some(o)) => Some(o),
                _ => None,
            }
        } else {
            self.gover.get(&(id as u32)).map(|o| &**o)
        }
    }
    pub fn obj_mut(&mut self, g: &Globals, m: &Module, id: u64) -> Result<&mut Obj, String> {
        if id >= HEAP_ID0 {
            let i = (id - HEAP_ID0) as usize;
            let pg = self.pages.get_mut(i / PG).ok_or_else(|| format!("bad object {id:#x}"))?;
            let s = Rc::make_mut(pg);
            match s.get_mut(i % PG) {
                Some(Some(o)) => Ok(Rc::make_mut(o)),
                _ => Err(format!("write to freed/bad object {id:#x}")),
            }
        } else {
            let gi = id as u32;
            if gi == 0 || gi as usize > m.globals.len() {
                return Err(format!("bad pointer (object {id:#x})"));
            }
            if !self.gover.contains_key(&gi) {
                let o = g.get(m, gi);
                if o.ro {
                    return Err("write to a constant".into());
                }
                self.gover.insert(gi, o);
            }
            Ok(Rc::make_mut(self.gover.get_mut(&gi).unwrap()))
        }
    }
    #[inline]
    pub fn load_fast(&self, g: &Globals, m: &Module, addr: u64, n: usize) -> Option<u64> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let go;
        let o: &Obj = match self.obj_ref(id) {
            Some(o) => o,
            None => {
                if id >= HEAP_ID0 || id == 0 || id as usize > m.globals.len() {
                    return None;
                }
                go = g.get(m, id as u32);
                &go
            }
        };
        if !o.sym.is_empty() || off + n > o.data.len() || n > 8 {
            return None;
        }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        Some(u64::from_le_bytes(b))
    }
    pub fn load(&self, a: &mut Arena, g: &Globals, m: &Module, addr: u64, n: usize) -> Result<Loaded, String> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj(g, m, id)?;
        if off + n > o.data.len() {
            return Err(format!("out-of-bounds read {addr:#x}+{n} (object size {})", o.data.len()));
        }
        load_obj(&o, a, off, n)
    }
    pub fn store_c(&mut self, g: &Globals, m: &Module, addr: u64, v: u128, n: usize) -> Result<(), String> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj_mut(g, m, addr >> 32)?;
        if off + n > o.data.len() {
            return Err(format!("out-of-bounds write {addr:#x}+{n} (object size {})", o.data.len()));
        }
        o.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if !o.sym.is_empty() {
            for s in &mut o.sym[off..off + n] {
                *s = (0, 0);
            }
        }
        Ok(())
    }
    pub fn store_s(&mut self, g: &Globals, m: &Module, addr: u64, e: E, n: usize) -> Result<(), String> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj_mut(g, m, addr >> 32)?;
        if off + n > o.data.len() {
            return Err(format!("out-of-bounds write {addr:#x}+{n} (object size {})", o.data.len()));
        }
        if o.sym.is_empty() {
            o.sym = vec![(0, 0); o.data.len()];
        }
        for i in 0..n {
            o.sym[off + i] = (e, i as u8);
        }
        Ok(())
    }
    pub fn copy(&mut self, g: &Globals, m: &Module, dst: u64, src: u64, n: usize) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj(g, m, src >> 32)?;
        let soff = (src & 0xffff_ffff) as usize;
        if soff + n > so.data.len() {
            return Err(format!("out-of-bounds copy from {src:#x}+{n} (size {})", so.data.len()));
        }
        let bytes: Vec<u8> = so.data[soff..soff + n].to_vec();
        let sym: Vec<(E, u8)> = if so.sym.is_empty() { vec![] } else { so.sym[soff..soff + n].to_vec() };
        drop(so);
        let doff = (dst & 0xffff_ffff) as usize;
        let o = self.obj_mut(g, m, dst >> 32)?;
        if doff + n > o.data.len() {
            return Err(format!("out-of-bounds copy to {dst:#x}+{n} (size {})", o.data.len()));
        }
        o.data[doff..doff + n].copy_from_slice(&bytes);
        if sym.iter().any(|s| s.0 != 0) {
            if o.sym.is_empty() {
                o.sym = vec![(0, 0); o.data.len()];
            }
            o.sym[doff..doff + n].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            for s in &mut o.sym[doff..doff + n] {
                *s = (0, 0);
            }
        }
        Ok(())
    }
}

pub fn load_obj(o: &Obj, a: &mut Arena, off: usize, n: usize) -> Result<Loaded, String> {
    if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| s.0 == 0) {
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        return Ok(Loaded::C(u128::from_le_bytes(b)));
    }
    let s0 = o.sym[off];
    if s0.0 != 0 && s0.1 == 0 && a.w(s0.0) as usize == 8 * n {
        if (0..n).all(|i| o.sym[off + i] == (s0.0, i as u8)) {
            return Ok(Loaded::S(s0.0));
        }
    }
    let mut acc: Option<E> = None;
    for i in 0..n {
        let (e, k) = o.sym[off + i];
        let b = if e == 0 {
            a.konst(o.data[off + i] as u128, 8)
        } else {
            if a.is_real(e) {
                return Err("byte access to a real-valued cell".into());
            }
            a.extract(e, k as u32 * 8, 8)
        };
        acc = Some(match acc {
            None => b,
            Some(lo) => a.concat(b, lo),
        });
    }
    let e = acc.unwrap();
    Ok(match a.cval(e) {
        Some(c) => Loaded::C(c),
        None => Loaded::S(e),
    })
}

impl Globals {
    pub fn get(&self, m: &Module, gi: u32) -> Rc<Obj> {
        if let Some(o) = self.base.borrow().get(&gi) {
            return o.clone();
        }
        let (_, bytes) = m.global_init(gi - 1);
        let o = Rc::new(Obj {
            data: (*bytes).clone(),
            sym: vec![],
            freed: false,
            ro: m.globals[gi as usize - 1].constant,
        });
        self.base.borrow_mut().insert(gi, o.clone());
        o
    }
}
