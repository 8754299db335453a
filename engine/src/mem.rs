//! Copy-on-write byte memory with a symbolic shadow.
use crate::expr::E;
use std::rc::Rc;

pub const NOE: E = u32::MAX;
const PB: usize = 256;
const CH: usize = 64;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PB],
    pub s: Option<Box<[(E, u8); PB]>>,
}
impl Page {
    fn zero() -> Page {
        Page { b: [0; PB], s: None }
    }
}
#[derive(Clone)]
struct Chunk {
    p: [Option<Rc<Page>>; CH],
}
impl Chunk {
    fn new() -> Self {
        Chunk { p: std::array::from_fn(|_| None) }
    }
}

#[derive(Clone)]
pub struct Mem {
    base: u64,
    ro_base: u64,
    ro: &'static [u8],
    chunks: Vec<Option<Rc<Chunk>>>,
    pub brk: u64,
    pub limit: u64,
}

#[derive(Debug)]
pub struct MemErr(pub u64);

impl Mem {
    pub fn new(base: u64, ro_base: u64, ro: &'static [u8]) -> Mem {
        Mem { base, ro_base, ro, chunks: vec![], brk: base, limit: base + (1 << 30) }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let p = (self.brk + a - 1) / a * a;
        self.brk = p + size.max(1);
        p
    }
    fn page(&self, addr: u64) -> Option<&Page> {
        let o = (addr - self.base) as usize;
        let c = o / (PB * CH);
        match self.chunks.get(c) {
            Some(Some(ch)) => ch.p[o / PB % CH].as_deref(),
            _ => None,
        }
    }
    fn page_mut(&mut self, addr: u64) -> &mut Page {
        let o = (addr - self.base) as usize;
        let c = o / (PB * CH);
        if c >= self.chunks.len() {
            self.chunks.resize(c + 1, None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk::new()));
        let ch = Rc::make_mut(ch);
        let p = ch.p[o / PB % CH].get_or_insert_with(|| Rc::new(Page::zero()));
        Rc::make_mut(p)
    }
    fn chk(&self, addr: u64, n: u64) -> Result<bool, MemErr> {
        // true: writable region
        if addr >= self.base && addr + n <= self.brk {
            Ok(true)
        } else if addr >= self.ro_base && addr + n <= self.ro_base + self.ro.len() as u64 {
            Ok(false)
        } else {
            Err(MemErr(addr))
        }
    }
    /// read up to 8 concrete bytes; None if any is symbolic
    pub fn read_c(&self, addr: u64, n: u64) -> Result<Option<u64>, MemErr> {
        let mut out = [0u8; 8];
        if !self.chk(addr, n)? {
            let o = (addr - self.ro_base) as usize;
            out[..n as usize].copy_from_slice(&self.ro[o..o + n as usize]);
            return Ok(Some(u64::from_le_bytes(out)));
        }
        let off = (addr - self.base) as usize % PB;
        if off + n as usize <= PB {
            if let Some(p) = self.page(addr) {
                if let Some(s) = &p.s {
                    for k in off..off + n as usize {
                        if s[k].0 != NOE {
                            return Ok(None);
                        }
                    }
                }
                out[..n as usize].copy_from_slice(&p.b[off..off + n as usize]);
            }
            return Ok(Some(u64::from_le_bytes(out)));
        }
        for k in 0..n {
            match self.byte(addr + k) {
                (b, (e, _)) => {
                    if e != NOE {
                        return Ok(None);
                    }
                    out[k as usize] = b;
                }
            }
        }
        Ok(Some(u64::from_le_bytes(out)))
    }
    pub fn byte(&self, addr: u64) -> (u8, (E, u8)) {
        if addr < self.base {
            return (self.ro[(addr - self.ro_base) as usize], (NOE, 0));
        }
        match self.page(addr) {
            None => (0, (NOE, 0)),
            Some(p) => {
                let o = (addr - self.base) as usize % PB;
                (p.b[o], p.s.as_ref().map_or((NOE, 0), |s| s[o]))
            }
        }
    }
    pub fn check_range(&self, addr: u64, n: u64) -> Result<(), MemErr> {
        self.chk(addr, n).map(|_| ())
    }
    pub fn write_c(&mut self, addr: u64, v: &[u8]) -> Result<(), MemErr> {
        let n = v.len();
        if n == 0 {
            return Ok(());
        }
        if !self.chk(addr, n as u64)? {
            return Err(MemErr(addr));
        }
        let mut i = 0;
        while i < n {
            let a = addr + i as u64;
            let off = (a - self.base) as usize % PB;
            let m = (PB - off).min(n - i);
            let p = self.page_mut(a);
            p.b[off..off + m].copy_from_slice(&v[i..i + m]);
            if let Some(s) = &mut p.s {
                for k in off..off + m {
                    s[k].0 = NOE;
                }
            }
            i += m;
        }
        Ok(())
    }
    pub fn write_s(&mut self, addr: u64, e: E, n: u64) -> Result<(), MemErr> {
        if !self.chk(addr, n)? {
            return Err(MemErr(addr));
        }
        for k in 0..n {
            self.set_sym(addr + k, e, k as u8);
        }
        Ok(())
    }
    fn set_sym(&mut self, a: u64, e: E, idx: u8) {
        let off = (a - self.base) as usize % PB;
        let p = self.page_mut(a);
        let s = p.s.get_or_insert_with(|| Box::new([(NOE, 0); PB]));
        s[off] = (e, idx);
    }
    pub fn fill(&mut self, addr: u64, v: u8, n: u64) -> Result<(), MemErr> {
        self.write_c(addr, &vec![v; n as usize])
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        self.chk(s, n)?;
        if !self.chk(d, n)? {
            return Err(MemErr(d));
        }
        let mut buf = Vec::with_capacity(n as usize);
        let mut syms: Vec<(usize, E, u8)> = vec![];
        for k in 0..n {
            let (b, (e, i)) = self.byte(s + k);
            buf.push(b);
            if e != NOE {
                syms.push((k as usize, e, i));
            }
        }
        self.write_c(d, &buf)?;
        for (k, e, i) in syms {
            self.set_sym(d + k as u64, e, i);
        }
        Ok(())
    }
}
