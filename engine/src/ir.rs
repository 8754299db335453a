//! Internal representation of the parsed LLVM IR module.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Other,
}

fn al(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    /// bytes actually written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => self.layout().1,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        al(self.store_size(), self.align())
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => (self.store_size() * 8) as u32,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut v = vec![];
                for f in fs {
                    if !packed {
                        off = al(off, f.align());
                    }
                    v.push(off);
                    off += f.size();
                }
                if !packed {
                    off = al(off, self.align());
                }
                (v, off)
            }
            _ => panic!("layout of non-struct"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum CVal {
    I(u64),
    W(u128),
    Agg(Vec<CVal>),
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
}

#[derive(Clone, Debug)]
pub struct Target {
    pub bb: u32,
    pub copies: Box<[(u32, Op)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, d: u32, a: Op, b: Op },
    Icmp { p: Pred, ty: Ty, d: u32, a: Op, b: Op },
    Fcmp { p: String, ty: Ty, d: u32, a: Op, b: Op },
    FNeg { ty: Ty, d: u32, a: Op },
    Cast { op: CastOp, from: Ty, to: Ty, d: u32, a: Op },
    Load { d: u32, ty: Ty, p: Op, atomic: bool },
    Store { ty: Ty, v: Op, p: Op, atomic: bool },
    Gep { d: u32, base: Op, off: i64, idx: Box<[(Op, i64, u32)]> },
    Select { d: u32, ty: Ty, cty: Ty, c: Op, a: Op, b: Op },
    Call { d: u32, rty: Ty, callee: Callee, args: Box<[Op]>, argtys: Box<[Ty]>, normal: Option<Box<Target>> },
    Br(Box<Target>),
    CondBr { c: Op, t: Box<Target>, f: Box<Target> },
    Switch { w: u32, v: Op, def: Box<Target>, cases: Box<[(u64, Target)]> },
    Ret { v: Option<Op> },
    Unreachable,
    Alloca { d: u32, size: u64, align: u64 },
    ExtractValue { d: u32, a: Op, path: Box<[u32]> },
    InsertValue { d: u32, ty: Ty, a: Op, v: Op, path: Box<[u32]> },
    ExtractElement { d: u32, a: Op, i: Op },
    InsertElement { d: u32, n: u32, a: Op, v: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, mask: Box<[i32]> },
    Rmw { d: u32, op: String, ty: Ty, p: Op, v: Op },
    Cmpxchg { d: u32, ty: Ty, p: Op, cmp: Op, new: Op },
    Copy { d: u32, a: Op },
    Nop,
    Unsupported(String),
}

pub const NOREG: u32 = u32::MAX;

pub struct Func {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub blocks: Vec<u32>, // start offset of block in code
    pub consts: Vec<CVal>,
}

pub struct FuncDecl {
    pub name: String,
    pub addr: u64,
    pub body: Option<(usize, usize, usize)>, // header start, body start, end (byte offsets)
    pub parsed: OnceLock<Func>,
    pub rty: Ty,
    pub is_panic: bool,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub addr: u64,
    pub tls_off: Option<u64>,
    pub constant: bool,
    pub init: Option<(usize, usize)>,
    pub is_extern: bool,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub sym: HashMap<String, u64>,
    pub ro: Vec<u8>,       // read-only image at RO_BASE
    pub rw: Vec<u8>,       // initial writable image at RW_BASE
    pub tls: Vec<u8>,      // tls template
    pub tls_align: u64,
    pub md: HashMap<u32, (usize, usize)>, // metadata id -> text range
}

pub const FN_BASE: u64 = 0x10_0000;
pub const RO_BASE: u64 = 0x1000_0000;
pub const RW_BASE: u64 = 0x4000_0000; // start of the paged writable memory
pub const TLS_MARK: u64 = 0x7f00_0000_0000; // address of TLS globals before threadlocal.address
