//! Parser for textual LLVM IR as emitted by rustc (opaque pointers).
use crate::ir::*;
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct P<'a> {
    s: &'a [u8],
    pub i: usize,
    m: Option<&'a Module>,
    types: &'a HashMap<String, Ty>,
    // function state
    regs: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<CVal>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    pub fn new(text: &'a str, i: usize, m: Option<&'a Module>, types: &'a HashMap<String, Ty>) -> Self {
        P { s: text.as_bytes(), i, m, types, regs: HashMap::new(), nregs: 0, consts: vec![] }
    }
    fn err(&self, msg: &str) -> ! {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 160).min(self.s.len());
        panic!("IR parse error: {} near `{}` <<<HERE>>> `{}`", msg, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => self.eol(),
                _ => break,
            }
        }
    }
    fn sp(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn at(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn eat(&mut self, t: &str) -> bool {
        let save = self.i;
        self.ws();
        if self.at(t) {
            // word boundary
            let lastid = is_id(*t.as_bytes().last().unwrap());
            if lastid && self.i + t.len() < self.s.len() && is_id(self.s[self.i + t.len()]) {
                self.i = save;
                return false;
            }
            self.i += t.len();
            true
        } else {
            self.i = save;
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.err(&format!("expected `{}`", t));
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        self.ws();
        let a = self.i;
        let w = self.word();
        self.i = a;
        w
    }
    fn name(&mut self) -> String {
        // after sigil
        if self.peek() == b'"' {
            self.i += 1;
            let a = self.i;
            while self.peek() != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let a = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let a = self.i;
        if self.at("u0x") || self.at("s0x") {
            self.i += 3;
            let b = self.i;
            while self.peek().is_ascii_hexdigit() {
                self.i += 1;
            }
            return u128::from_str_radix(std::str::from_utf8(&self.s[b..self.i]).unwrap(), 16).unwrap() as i128;
        }
        if self.peek() == b'-' {
            self.i += 1;
        }
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[a..self.i]).unwrap();
        match t.parse::<i128>() {
            Ok(v) => v,
            Err(_) => match t.parse::<u128>() {
                Ok(v) => v as i128,
                Err(_) => self.err("int"),
            },
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' {
                        self.i += 1;
                    }
                }
                0 => self.err("balanced"),
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'[' | b'<' | b'{' | b'%' => return true,
            _ => {}
        }
        let w = self.peek_word();
        matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128")
            || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    /// skip attribute words until a type starts
    fn skip_attrs_to_type(&mut self) {
        while !self.at_type() {
            self.attr();
        }
    }
    fn attr(&mut self) {
        self.ws();
        if self.peek() == b'#' {
            self.i += 1;
            self.word();
            return;
        }
        if self.peek() == b'"' {
            self.i += 1;
            self.name_tail();
            if self.peek() == b'=' {
                self.i += 2;
                self.name_tail();
            }
            return;
        }
        let w = self.word();
        if w.is_empty() {
            self.err("attribute");
        }
        if self.peek() == b'(' {
            self.balanced();
        } else if w == "align" {
            self.int();
        }
    }
    fn name_tail(&mut self) {
        while self.peek() != b'"' {
            self.i += 1;
        }
        self.i += 1;
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat("}") {
                    loop {
                        v.push(self.ty());
                        if self.eat(",") {
                            continue;
                        }
                        self.expect("}");
                        break;
                    }
                }
                Ty::Struct(v, false)
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(">");
                    match t {
                        Ty::Struct(v, _) => Ty::Struct(v, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.int() as u32;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.types.get(&n) {
                    Some(t) => t.clone(),
                    None => Ty::Other,
                }
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.ws();
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.err("int type"))),
                    _ => self.err(&format!("type `{}`", w)),
                }
            }
        };
        t
    }

    // ---- constants -----------------------------------------------------
    fn zero(t: &Ty) -> CVal {
        match t {
            Ty::Int(w) if *w > 64 => CVal::W(0),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::Void | Ty::Other => CVal::I(0),
            Ty::Arr(n, t) => CVal::Agg((0..*n).map(|_| Self::zero(t)).collect()),
            Ty::Vec(n, t) => CVal::Agg((0..*n).map(|_| Self::zero(t)).collect()),
            Ty::Struct(fs, _) => CVal::Agg(fs.iter().map(Self::zero).collect()),
        }
    }
    fn typed_const(&mut self) -> (Ty, CVal) {
        let t = self.ty();
        // attributes allowed? (not in constants)
        let c = self.cval(&t);
        (t, c)
    }
    fn gsym(&mut self) -> u64 {
        self.i += 1;
        let n = self.name();
        match self.m.and_then(|m| m.sym.get(&n)) {
            Some(a) => *a,
            None => self.err(&format!("unknown symbol {}", n)),
        }
    }
    fn c64(&self, c: &CVal) -> u64 {
        match c {
            CVal::I(v) => *v,
            CVal::W(v) => *v as u64,
            _ => self.err("scalar const expected"),
        }
    }
    pub fn cval(&mut self, t: &Ty) -> CVal {
        self.ws();
        let c = self.peek();
        match c {
            b'@' => CVal::I(self.gsym()),
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.peek() != b'"' {
                    if self.peek() == b'\\' {
                        if self.s[self.i + 1] == b'\\' {
                            v.push(CVal::I(b'\\' as u64));
                            self.i += 2;
                        } else {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(CVal::I(u64::from_str_radix(h, 16).unwrap()));
                            self.i += 3;
                        }
                    } else {
                        v.push(CVal::I(self.peek() as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                CVal::Agg(v)
            }
            b'[' | b'{' | b'<' => {
                // aggregate
                let packed = c == b'<' && self.s[self.i + 1] == b'{';
                self.i += 1;
                let close = match c {
                    b'[' => "]",
                    b'{' => "}",
                    _ => {
                        if packed {
                            self.i += 1;
                            "}"
                        } else {
                            ">"
                        }
                    }
                };
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        v.push(self.typed_const().1);
                        if self.eat(",") {
                            continue;
                        }
                        self.expect(close);
                        break;
                    }
                }
                if packed {
                    self.expect(">");
                }
                CVal::Agg(v)
            }
            b'+' | b'-' if self.s[self.i + 1].is_ascii_alphabetic() => {
                let neg = c == b'-';
                self.i += 1;
                let w = self.word();
                let f64_ = *t == Ty::F64;
                let v: u64 = match (w.as_str(), f64_) {
                    ("inf", true) => 0x7ff0 << 48,
                    ("inf", false) => 0x7f80 << 16,
                    ("qnan", true) => 0x7ff8 << 48,
                    ("qnan", false) => 0x7fc0 << 16,
                    _ => self.err(&format!("float `{}`", w)),
                };
                CVal::I(v | (neg as u64) << if f64_ { 63 } else { 31 })
            }
            b'-' | b'0'..=b'9' | b'u' | b's' | b'f' if c != b'u' && c != b's' && c != b'f' || self.at("u0x") || self.at("s0x") || self.at("f0x") => self.num(t),
            _ => {
                let w = self.word();
                match w.as_str() {
                    "true" => CVal::I(1),
                    "false" | "null" => CVal::I(0),
                    "none" => CVal::I(0),
                    "zeroinitializer" | "undef" | "poison" => Self::zero(t),
                    "splat" => {
                        self.expect("(");
                        let (_, c) = self.typed_const();
                        self.expect(")");
                        match t {
                            Ty::Vec(n, _) => CVal::Agg((0..*n).map(|_| c.clone()).collect()),
                            _ => self.err("splat"),
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        self.expect("(");
                        let (_, c) = self.typed_const();
                        self.expect("to");
                        let tt = self.ty();
                        self.expect(")");
                        let v = self.c64(&c);
                        let b = tt.bits();
                        CVal::I(if b < 64 { v & ((1u64 << b) - 1) } else { v })
                    }
                    "add" | "sub" | "mul" | "xor" => {
                        while !self.eat("(") {
                            self.word();
                        }
                        let (t1, a) = self.typed_const();
                        self.expect(",");
                        let (_, b) = self.typed_const();
                        self.expect(")");
                        let (a, b) = (self.c64(&a), self.c64(&b));
                        let v = match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        let bw = t1.bits();
                        CVal::I(if bw < 64 { v & ((1u64 << bw) - 1) } else { v })
                    }
                    "getelementptr" => {
                        while !self.eat("(") {
                            let w = self.word();
                            if w.is_empty() {
                                self.err("gep const");
                            }
                            if w == "inrange" {
                                self.ws();
                                self.balanced();
                            }
                        }
                        let et = self.ty();
                        self.expect(",");
                        let (_, base) = self.typed_const();
                        let mut addr = self.c64(&base);
                        let mut idx = vec![];
                        while self.eat(",") {
                            let (it, c) = self.typed_const();
                            let v = self.c64(&c);
                            let w = it.bits();
                            idx.push(if w < 64 { ((v << (64 - w)) as i64) >> (64 - w) } else { v as i64 });
                        }
                        self.expect(")");
                        let mut cur = et.clone();
                        for (k, ix) in idx.iter().enumerate() {
                            if k == 0 {
                                addr = addr.wrapping_add((*ix as u64).wrapping_mul(cur.size()));
                            } else {
                                let (off, nt) = step(&cur, *ix);
                                addr = addr.wrapping_add(off as u64);
                                cur = nt;
                            }
                        }
                        CVal::I(addr)
                    }
                    "dso_local_equivalent" | "no_cfi" => {
                        self.ws();
                        CVal::I(self.gsym())
                    }
                    _ => {
                        self.err(&format!("constant `{}`", w))
                    }
                }
            }
        }
    }
    fn num(&mut self, t: &Ty) -> CVal {
        self.ws();
        match t {
            Ty::F32 | Ty::F64 => {
                let a = self.i;
                let bits64 = if self.at("0x") || self.at("f0x") {
                    self.i += if self.at("0x") { 2 } else { 3 };
                    let b = self.i;
                    while self.peek().is_ascii_hexdigit() {
                        self.i += 1;
                    }
                    let hex = std::str::from_utf8(&self.s[b..self.i]).unwrap();
                    let v = u64::from_str_radix(hex, 16).unwrap();
                    if self.s[a] == b'f' {
                        return CVal::I(v); // exact bits of the type
                    }
                    v
                } else {
                    while matches!(self.peek(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                        self.i += 1;
                    }
                    let v: f64 = std::str::from_utf8(&self.s[a..self.i]).unwrap().parse().unwrap_or_else(|_| self.err("float"));
                    v.to_bits()
                };
                if *t == Ty::F32 {
                    CVal::I((f64::from_bits(bits64) as f32).to_bits() as u64)
                } else {
                    CVal::I(bits64)
                }
            }
            _ => {
                let v = self.int();
                let w = t.bits();
                if w > 64 {
                    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    CVal::W(v as u128 & m)
                } else if w == 64 {
                    CVal::I(v as u64)
                } else {
                    CVal::I(v as u64 & ((1u64 << w) - 1))
                }
            }
        }
    }

    // ---- functions -----------------------------------------------------
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn lreg(&mut self) -> u32 {
        // at '%'
        self.ws();
        if self.peek() != b'%' {
            self.err("local expected");
        }
        self.i += 1;
        let n = self.name();
        self.reg(&n)
    }
    fn label(&mut self) -> String {
        self.expect("label");
        self.ws();
        self.i += 1;
        self.name()
    }
    fn op(&mut self, t: &Ty) -> Op {
        self.ws();
        if self.peek() == b'%' {
            return Op::R(self.lreg());
        }
        if self.at("asm ") {
            self.err("inline asm");
        }
        let c = self.cval(t);
        match c {
            CVal::I(v) => Op::C(v),
            c => {
                self.consts.push(c);
                Op::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn typed_op(&mut self) -> (Ty, Op) {
        let t = self.ty();
        let o = self.op(&t);
        (t, o)
    }
    fn skip_words(&mut self, ws: &[&str]) {
        loop {
            let mut any = false;
            for w in ws {
                if self.eat(w) {
                    any = true;
                }
            }
            if !any {
                break;
            }
        }
    }

    pub fn func(&mut self, hdr: usize, body: usize, end: usize) -> Func {
        // params
        self.i = hdr;
        let mut params = vec![];
        // find '@name('
        while self.peek() != b'@' {
            self.i += 1;
        }
        self.i += 1;
        self.name();
        self.expect("(");
        loop {
            self.ws();
            if self.eat(")") {
                break;
            }
            if self.eat("...") {
                continue;
            }
            if self.eat(",") {
                continue;
            }
            self.skip_attrs_to_type();
            let _t = self.ty();
            loop {
                self.ws();
                if self.peek() == b'%' {
                    params.push(self.lreg());
                    break;
                }
                if self.peek() == b',' || self.peek() == b')' {
                    let r = self.nregs;
                    self.nregs += 1;
                    params.push(r);
                    break;
                }
                self.attr();
            }
        }
        self.i = body;
        // raw blocks
        struct Raw {
            #[allow(dead_code)]
            name: String,
            phis: Vec<(u32, Vec<(String, Op)>)>,
            code: Vec<(Inst, u32)>,
            succ_fix: Vec<()>,
        }
        let mut blocks: Vec<Raw> = vec![];
        let mut names: HashMap<String, u32> = HashMap::new();
        // terminators with label names are kept in a side table
        enum T {
            Br(String),
            Cond(Op, String, String),
            Sw(u32, Op, String, Vec<(u64, String)>),
            Inv(String),
            None,
        }
        let mut terms: Vec<T> = vec![];
        let mut lineno = 0;
        let first_label_default = params.len().to_string();
        let _ = first_label_default;
        loop {
            self.ws();
            if self.i >= end || self.peek() == b'}' {
                break;
            }
            lineno += 1;
            // label?
            let save = self.i;
            if self.peek() != b'%' {
                let n = self.name();
                if self.peek() == b':' {
                    self.i += 1;
                    names.insert(n.clone(), blocks.len() as u32);
                    blocks.push(Raw { name: n, phis: vec![], code: vec![], succ_fix: vec![] });
                    terms.push(T::None);
                    continue;
                }
                self.i = save;
            }
            if blocks.is_empty() {
                blocks.push(Raw { name: "<entry>".into(), phis: vec![], code: vec![], succ_fix: vec![] });
                terms.push(T::None);
                let _ = lineno;
            }
            let bi = blocks.len() - 1;
            // result
            let mut d = NOREG;
            if self.peek() == b'%' {
                d = self.lreg();
                self.expect("=");
            }
            self.skip_words(&["tail", "musttail", "notail"]);
            let opw = self.word();
            let inst: Inst = match opw.as_str() {
                "phi" => {
                    self.skip_fmf();
                    let t = self.ty();
                    let mut v = vec![];
                    loop {
                        self.expect("[");
                        let o = self.op(&t);
                        self.expect(",");
                        self.ws();
                        self.i += 1;
                        let l = self.name();
                        self.expect("]");
                        v.push((l, o));
                        self.sp();
                        // another incoming?
                        let s = self.i;
                        if self.peek() == b',' {
                            self.i += 1;
                            self.sp();
                            if self.peek() == b'[' {
                                continue;
                            }
                            self.i = s;
                        }
                        break;
                    }
                    blocks[bi].phis.push((d, v));
                    self.eol();
                    continue;
                }
                "br" => {
                    self.ws();
                    if self.at("label") {
                        let l = self.label();
                        terms[bi] = T::Br(l);
                    } else {
                        let (_, c) = self.typed_op();
                        self.expect(",");
                        let a = self.label();
                        self.expect(",");
                        let b = self.label();
                        terms[bi] = T::Cond(c, a, b);
                    }
                    Inst::Nop
                }
                "switch" => {
                    let (t, v) = self.typed_op();
                    self.expect(",");
                    let def = self.label();
                    self.expect("[");
                    let mut cs = vec![];
                    while !self.eat("]") {
                        let (_, c) = self.typed_const();
                        self.expect(",");
                        let l = self.label();
                        cs.push((self.c64(&c), l));
                    }
                    terms[bi] = T::Sw(t.bits(), v, def, cs);
                    Inst::Nop
                }
                "ret" => {
                    if self.eat("void") {
                        Inst::Ret { v: None }
                    } else {
                        let (_, v) = self.typed_op();
                        Inst::Ret { v: Some(v) }
                    }
                }
                "unreachable" => Inst::Unreachable,
                "resume" => Inst::Unsupported("resume".into()),
                "landingpad" => {
                    self.eol();
                    // continuation lines
                    loop {
                        let s = self.i;
                        self.ws();
                        if self.at("cleanup") || self.at("catch ") || self.at("filter ") {
                            self.eol();
                            continue;
                        }
                        self.i = s;
                        break;
                    }
                    blocks[bi].code.push((Inst::Unsupported("landingpad".into()), 0));
                    continue;
                }
                "call" | "invoke" => self.call(d, opw == "invoke"),
                "alloca" => {
                    self.eat("inalloca");
                    let t = self.ty();
                    let mut n = 1u64;
                    let mut align = t.align().max(8);
                    while self.eat(",") {
                        if self.eat("align") {
                            align = align.max(self.int() as u64);
                        } else if self.at_type() {
                            let (_, c) = self.typed_const();
                            n = self.c64(&c);
                        } else {
                            break;
                        }
                    }
                    Inst::Alloca { d, size: t.size() * n, align }
                }
                "load" => {
                    let atomic = self.eat("atomic");
                    self.eat("volatile");
                    let ty = self.ty();
                    self.expect(",");
                    let (_, p) = self.typed_op();
                    Inst::Load { d, ty, p, atomic }
                }
                "store" => {
                    let atomic = self.eat("atomic");
                    self.eat("volatile");
                    let (ty, v) = self.typed_op();
                    self.expect(",");
                    let (_, p) = self.typed_op();
                    Inst::Store { ty, v, p, atomic }
                }
                "getelementptr" => {
                    loop {
                        self.skip_words(&["inbounds", "nuw", "nusw"]);
                        if self.at("inrange") {
                            self.word();
                            self.ws();
                            self.balanced();
                            continue;
                        }
                        break;
                    }
                    let et = self.ty();
                    self.expect(",");
                    let (_, base) = self.typed_op();
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = et;
                    let mut k = 0;
                    loop {
                        self.sp();
                        if self.peek() != b',' {
                            break;
                        }
                        let s = self.i;
                        self.i += 1;
                        self.sp();
                        if self.peek() == b'!' {
                            self.i = s;
                            break;
                        }
                        let (it, o) = self.typed_op();
                        let w = it.bits();
                        let cst = match o {
                            Op::C(v) => Some(if w < 64 { ((v << (64 - w)) as i64) >> (64 - w) } else { v as i64 }),
                            _ => None,
                        };
                        if k == 0 {
                            match cst {
                                Some(c) => off = off.wrapping_add(c.wrapping_mul(cur.size() as i64)),
                                None => idx.push((o, cur.size() as i64, w)),
                            }
                        } else {
                            match cst {
                                Some(c) => {
                                    let (o2, nt) = step(&cur, c);
                                    off = off.wrapping_add(o2);
                                    cur = nt;
                                }
                                None => {
                                    let nt = match &cur {
                                        Ty::Arr(_, t) => (**t).clone(),
                                        Ty::Vec(_, t) => (**t).clone(),
                                        _ => self.err("gep into struct with variable"),
                                    };
                                    idx.push((o, nt.size() as i64, w));
                                    cur = nt;
                                }
                            }
                        }
                        k += 1;
                    }
                    Inst::Gep { d, base, off, idx: idx.into() }
                }
                "icmp" => {
                    self.eat("samesign");
                    let p = match self.word().as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => self.err("icmp pred"),
                    };
                    let (ty, a) = self.typed_op();
                    self.expect(",");
                    let b = self.op(&ty);
                    Inst::Icmp { p, ty, d, a, b }
                }
                "fcmp" => {
                    self.skip_fmf();
                    let p = self.word();
                    let (ty, a) = self.typed_op();
                    self.expect(",");
                    let b = self.op(&ty);
                    Inst::Fcmp { p, ty, d, a, b }
                }
                "fneg" => {
                    self.skip_fmf();
                    let (ty, a) = self.typed_op();
                    Inst::FNeg { ty, d, a }
                }
                "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    let op = match opw.as_str() {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "udiv" => BinOp::UDiv,
                        "urem" => BinOp::URem,
                        "sdiv" => BinOp::SDiv,
                        "srem" => BinOp::SRem,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        "xor" => BinOp::Xor,
                        "shl" => BinOp::Shl,
                        "lshr" => BinOp::LShr,
                        "ashr" => BinOp::AShr,
                        "fadd" => BinOp::FAdd,
                        "fsub" => BinOp::FSub,
                        "fmul" => BinOp::FMul,
                        "fdiv" => BinOp::FDiv,
                        _ => BinOp::FRem,
                    };
                    self.skip_words(&["nuw", "nsw", "exact", "disjoint"]);
                    self.skip_fmf();
                    let (ty, a) = self.typed_op();
                    self.expect(",");
                    let b = self.op(&ty);
                    Inst::Bin { op, ty, d, a, b }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoaddr" => {
                    let op = match opw.as_str() {
                        "trunc" => CastOp::Trunc,
                        "zext" => CastOp::ZExt,
                        "sext" => CastOp::SExt,
                        "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                        "inttoptr" => CastOp::IntToPtr,
                        "bitcast" => CastOp::BitCast,
                        "fptrunc" => CastOp::FPTrunc,
                        "fpext" => CastOp::FPExt,
                        "fptoui" => CastOp::FPToUI,
                        "fptosi" => CastOp::FPToSI,
                        "uitofp" => CastOp::UIToFP,
                        _ => CastOp::SIToFP,
                    };
                    self.skip_words(&["nuw", "nsw", "nneg"]);
                    self.skip_fmf();
                    let (from, a) = self.typed_op();
                    self.expect("to");
                    let to = self.ty();
                    Inst::Cast { op, from, to, d, a }
                }
                "select" => {
                    self.skip_fmf();
                    let (cty, c) = self.typed_op();
                    self.expect(",");
                    let (ty, a) = self.typed_op();
                    self.expect(",");
                    let (_, b) = self.typed_op();
                    Inst::Select { d, ty, cty, c, a, b }
                }
                "extractvalue" => {
                    let (_, a) = self.typed_op();
                    let path = self.path();
                    Inst::ExtractValue { d, a, path }
                }
                "insertvalue" => {
                    let (ty, a) = self.typed_op();
                    self.expect(",");
                    let (_, v) = self.typed_op();
                    let path = self.path();
                    Inst::InsertValue { d, ty, a, v, path }
                }
                "extractelement" => {
                    let (_, a) = self.typed_op();
                    self.expect(",");
                    let (_, i) = self.typed_op();
                    Inst::ExtractElement { d, a, i }
                }
                "insertelement" => {
                    let (t, a) = self.typed_op();
                    self.expect(",");
                    let (_, v) = self.typed_op();
                    self.expect(",");
                    let (_, i) = self.typed_op();
                    let n = match t {
                        Ty::Vec(n, _) => n,
                        _ => self.err("insertelement"),
                    };
                    Inst::InsertElement { d, n, a, v, i }
                }
                "shufflevector" => {
                    let (_, a) = self.typed_op();
                    self.expect(",");
                    let (_, b) = self.typed_op();
                    self.expect(",");
                    let (t, m) = self.typed_const();
                    let mask = match (m, t) {
                        (CVal::Agg(v), _) => v.iter().map(|c| if let CVal::I(x) = c { *x as u32 as i32 } else { 0 }).collect(),
                        _ => self.err("shuffle mask"),
                    };
                    Inst::Shuffle { d, a, b, mask }
                }
                "atomicrmw" => {
                    self.eat("volatile");
                    let op = self.word();
                    let (_, p) = self.typed_op();
                    self.expect(",");
                    let (ty, v) = self.typed_op();
                    Inst::Rmw { d, op, ty, p, v }
                }
                "cmpxchg" => {
                    self.skip_words(&["weak", "volatile"]);
                    let (_, p) = self.typed_op();
                    self.expect(",");
                    let (ty, cmp) = self.typed_op();
                    self.expect(",");
                    let (_, new) = self.typed_op();
                    Inst::Cmpxchg { d, ty, p, cmp, new }
                }
                "fence" => Inst::Nop,
                "freeze" => {
                    let (_, a) = self.typed_op();
                    Inst::Copy { d, a }
                }
                _ => self.err(&format!("instruction `{}`", opw)),
            };
            // dbg
            let st = self.i;
            self.eol();
            let line = &self.s[st..self.i];
            let mut dbg = 0;
            if let Some(p) = find(line, b"!dbg !") {
                let mut q = p + 6;
                while q < line.len() && line[q].is_ascii_digit() {
                    dbg = dbg * 10 + (line[q] - b'0') as u32;
                    q += 1;
                }
            }
            if let Inst::Call { .. } = inst {
                if opw == "invoke" {
                    // "to label %x unwind label %y" may be on the following line
                    let text = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                    let l = if let Some(p) = text.find("to label %") {
                        let save = self.i;
                        self.i = st + p + 10;
                        let l = self.name();
                        self.i = save;
                        l
                    } else {
                        self.expect("to");
                        let l = self.label();
                        let st2 = self.i;
                        self.eol();
                        let line = &self.s[st2..self.i];
                        if let Some(p) = find(line, b"!dbg !") {
                            let mut q = p + 6;
                            dbg = 0;
                            while q < line.len() && line[q].is_ascii_digit() {
                                dbg = dbg * 10 + (line[q] - b'0') as u32;
                                q += 1;
                            }
                        }
                        l
                    };
                    terms[bi] = T::Inv(l);
                }
            }
            blocks[bi].code.push((inst, dbg));
        }
        // entry block may be unnamed: its label in phi operands is a number = count of unnamed params; find by exclusion
        let entry_alias: Option<String> = if blocks[0].name == "<entry>" { Some("<entry>".into()) } else { None };
        let mkt = |from: u32, to: &str| -> Target {
            let bb = match names.get(to) {
                Some(b) => *b,
                None => panic!("unknown label {}", to),
            };
            let fname = &blocks[from as usize].name;
            let mut copies = vec![];
            for (d, inc) in &blocks[bb as usize].phis {
                let mut f = None;
                for (l, o) in inc {
                    if l == fname || (entry_alias.is_some() && from == 0 && !names.contains_key(l)) {
                        f = Some(*o);
                        break;
                    }
                }
                match f {
                    Some(o) => copies.push((*d, o)),
                    None => panic!("phi without incoming for {} from {}", to, fname),
                }
            }
            Target { bb, copies: copies.into() }
        };
        let mut code = vec![];
        let mut dbg = vec![];
        let mut starts = vec![];
        let nb = blocks.len();
        let mut new_code: Vec<Vec<(Inst, u32)>> = vec![];
        for bi in 0..nb {
            let mut v = blocks[bi].code.clone();
            match &terms[bi] {
                T::None => {}
                T::Br(l) => {
                    let t = mkt(bi as u32, l);
                    v.last_mut().unwrap().0 = Inst::Br(Box::new(t));
                }
                T::Cond(c, a, b) => {
                    let t = mkt(bi as u32, a);
                    let f = mkt(bi as u32, b);
                    v.last_mut().unwrap().0 = Inst::CondBr { c: *c, t: Box::new(t), f: Box::new(f) };
                }
                T::Sw(w, o, def, cs) => {
                    let d = mkt(bi as u32, def);
                    let cases: Vec<(u64, Target)> = cs.iter().map(|(k, l)| (*k, mkt(bi as u32, l))).collect();
                    v.last_mut().unwrap().0 = Inst::Switch { w: *w, v: *o, def: Box::new(d), cases: cases.into() };
                }
                T::Inv(l) => {
                    let t = mkt(bi as u32, l);
                    if let Inst::Call { normal, .. } = &mut v.last_mut().unwrap().0 {
                        *normal = Some(Box::new(t));
                    }
                }
            }
            new_code.push(v);
        }
        for v in new_code {
            starts.push(code.len() as u32);
            for (i, g) in v {
                if matches!(i, Inst::Nop) {
                    continue;
                }
                code.push(i);
                dbg.push(g);
            }
        }
        Func { nregs: self.nregs, params, code, dbg, blocks: starts, consts: std::mem::take(&mut self.consts) }
    }
    fn skip_fmf(&mut self) {
        self.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
    }
    fn path(&mut self) -> Box<[u32]> {
        let mut v = vec![];
        loop {
            self.sp();
            if self.peek() != b',' {
                break;
            }
            let s = self.i;
            self.i += 1;
            self.sp();
            if !self.peek().is_ascii_digit() {
                self.i = s;
                break;
            }
            v.push(self.int() as u32);
        }
        v.into()
    }
    fn call(&mut self, d: u32, _inv: bool) -> Inst {
        self.skip_fmf();
        self.skip_attrs_to_type();
        let rty = self.ty();
        self.ws();
        if self.peek() == b'(' {
            // function type of a varargs callee
            self.balanced();
        }
        self.ws();
        let callee;
        if self.peek() == b'%' {
            callee = Callee::Indirect(Op::R(self.lreg()));
        } else if self.peek() == b'@' {
            self.i += 1;
            let n = self.name();
            match self.m.unwrap().fidx.get(&n) {
                Some(f) => callee = Callee::Direct(*f),
                None => match self.m.unwrap().sym.get(&n) {
                    Some(a) => callee = Callee::Indirect(Op::C(*a)),
                    None => self.err("unknown callee"),
                },
            }
        } else if self.at("asm") {
            // inline asm: find the argument list; treated as no-op barrier
            let s = self.i;
            self.eol();
            let t = String::from_utf8_lossy(&self.s[s..self.i]).into_owned();
            if rty == Ty::Void {
                self.i = s;
                self.eol();
                return Inst::Copy { d: NOREG, a: Op::C(0) };
            }
            return Inst::Unsupported(t);
        } else {
            let c = self.cval(&Ty::Ptr);
            callee = Callee::Indirect(Op::C(self.c64(&c)));
        }
        self.expect("(");
        let mut args = vec![];
        let mut argtys = vec![];
        loop {
            self.ws();
            if self.eat(")") {
                break;
            }
            if self.eat(",") {
                continue;
            }
            if self.at("metadata") {
                // metadata argument: skip to , or ) at depth 0
                let mut depth = 0;
                loop {
                    match self.peek() {
                        b'(' => depth += 1,
                        b')' if depth == 0 => break,
                        b')' => depth -= 1,
                        b',' if depth == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                continue;
            }
            let t = self.ty();
            // attributes then value
            let o = loop {
                self.ws();
                let c = self.peek();
                if c == b'%' || c == b'@' || c == b'-' || c.is_ascii_digit() || c == b'<' || c == b'[' || c == b'{' {
                    break self.op(&t);
                }
                if c == b'c' && self.s[self.i + 1] == b'"' {
                    break self.op(&t);
                }
                let w = self.peek_word();
                if matches!(
                    w.as_str(),
                    "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "getelementptr" | "bitcast" | "trunc" | "add" | "sub" | "mul" | "xor"
                ) || w.starts_with("u0x") || w.starts_with("s0x") || w.starts_with("f0x")
                {
                    break self.op(&t);
                }
                self.attr();
            };
            args.push(o);
            argtys.push(t);
        }
        Inst::Call { d, rty, callee, args: args.into(), argtys: argtys.into(), normal: None }
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn step(t: &Ty, ix: i64) -> (i64, Ty) {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => (ix * e.size() as i64, (**e).clone()),
        Ty::Struct(fs, _) => (t.layout().0[ix as usize] as i64, fs[ix as usize].clone()),
        _ => panic!("gep step into {:?}", t),
    }
}

pub fn write_const(c: &CVal, t: &Ty, out: &mut [u8]) {
    match (c, t) {
        (CVal::Agg(v), Ty::Struct(fs, _)) => {
            let (offs, _) = t.layout();
            for (k, f) in fs.iter().enumerate() {
                write_const(&v[k], f, &mut out[offs[k] as usize..]);
            }
        }
        (CVal::Agg(v), Ty::Arr(_, e)) | (CVal::Agg(v), Ty::Vec(_, e)) => {
            let sz = e.size() as usize;
            for (k, x) in v.iter().enumerate() {
                write_const(x, e, &mut out[k * sz..]);
            }
        }
        (CVal::I(v), t) => {
            let n = t.store_size() as usize;
            let b = v.to_le_bytes();
            for k in 0..n.min(8) {
                out[k] = b[k];
            }
        }
        (CVal::W(v), t) => {
            let n = t.store_size() as usize;
            let b = v.to_le_bytes();
            for k in 0..n.min(16) {
                out[k] = b[k];
            }
        }
        _ => panic!("write_const {:?} {:?}", c, t),
    }
}

fn al(x: u64, a: u64) -> u64 {
    let a = a.max(1);
    (x + a - 1) / a * a
}

pub fn parse_module(text: String) -> Module {
    let mut types: HashMap<String, Ty> = HashMap::new();
    let b = text.as_bytes();
    let n = b.len();
    // pass 1: split in top-level entities
    let mut type_lines = vec![];
    let mut glob_lines = vec![];
    let mut fn_hdrs: Vec<(usize, usize, Option<(usize, usize)>)> = vec![];
    let mut md = HashMap::new();
    let mut i = 0;
    while i < n {
        let ls = i;
        let mut le = i;
        while le < n && b[le] != b'\n' {
            le += 1;
        }
        i = le + 1;
        if le == ls {
            continue;
        }
        match b[ls] {
            b'%' => type_lines.push((ls, le)),
            b'@' => glob_lines.push((ls, le)),
            b'!' if b[ls + 1].is_ascii_digit() => {
                let mut q = ls + 1;
                let mut id = 0u32;
                while b[q].is_ascii_digit() {
                    id = id * 10 + (b[q] - b'0') as u32;
                    q += 1;
                }
                md.insert(id, (q, le));
            }
            b'd' if text[ls..le].starts_with("define ") => {
                // body until line "}"
                let bs = i;
                let mut j = i;
                loop {
                    let mut e = j;
                    while e < n && b[e] != b'\n' {
                        e += 1;
                    }
                    if &b[j..e] == b"}" {
                        fn_hdrs.push((ls, le, Some((bs, j))));
                        i = e + 1;
                        break;
                    }
                    j = e + 1;
                    if j >= n {
                        panic!("unterminated function");
                    }
                }
            }
            b'd' if text[ls..le].starts_with("declare ") => fn_hdrs.push((ls, le, None)),
            _ => {}
        }
    }
    // types (may be forward referencing: iterate)
    for _ in 0..4 {
        let mut nt = HashMap::new();
        for (s, _e) in &type_lines {
            let mut p = P::new(&text, *s + 1, None, &types);
            let name = p.name();
            p.expect("=");
            p.expect("type");
            if p.eat("opaque") {
                nt.insert(name, Ty::Other);
            } else {
                let t = p.ty();
                nt.insert(name, t);
            }
        }
        types = nt;
        if type_lines.is_empty() {
            break;
        }
    }
    let mut sym = HashMap::new();
    let mut fidx = HashMap::new();
    let mut funcs = vec![];
    for (s, e, body) in &fn_hdrs {
        let mut p = P::new(&text, *s, None, &types);
        p.word();
        p.skip_attrs_to_type();
        let rty = p.ty();
        // name
        let mut q = p.i;
        while b[q] != b'@' {
            q += 1;
        }
        let mut p = P::new(&text, q + 1, None, &types);
        let name = p.name();
        let idx = funcs.len() as u32;
        let addr = FN_BASE + idx as u64 * 16;
        fidx.insert(name.clone(), idx);
        sym.insert(name.clone(), addr);
        let _ = e;
        let is_panic = is_panic_name(&name);
        funcs.push(FuncDecl { name, addr, body: body.map(|(a, z)| (*s, a, z)), parsed: OnceLock::new(), rty, is_panic });
    }
    // globals: types & addresses
    let mut globals: Vec<Global> = vec![];
    let mut aliases = vec![];
    let (mut ro_off, mut rw_off, mut tls_off, mut tls_align) = (64u64, 64u64, 0u64, 16u64);
    for (s, e) in &glob_lines {
        let mut p = P::new(&text, *s + 1, None, &types);
        let name = p.name();
        p.expect("=");
        let mut tls = false;
        let mut ext = false;
        let constant;
        loop {
            let w = p.word();
            match w.as_str() {
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => {
                    constant = false;
                    break;
                }
                "alias" | "ifunc" => {
                    constant = false;
                    break;
                }
                "thread_local" => {
                    tls = true;
                    if p.peek() == b'(' {
                        p.balanced();
                    }
                }
                "external" | "extern_weak" => ext = true,
                "addrspace" => p.balanced(),
                "" => p.err("global"),
                _ => {}
            }
        }
        let is_alias = text[*s..p.i].ends_with("alias");
        let ty = p.ty();
        if is_alias {
            p.expect(",");
            p.ty();
            p.ws();
            aliases.push((name, p.i));
            continue;
        }
        let istart = p.i;
        // alignment: search ", align N" in the line tail
        let line = &text[*s..*e];
        let mut align = ty.align();
        if let Some(k) = line.rfind(", align ") {
            let a: String = line[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(a) = a.parse::<u64>() {
                align = align.max(a);
            }
        }
        let sz = ty.size().max(1);
        let (addr, toff);
        if tls {
            tls_off = al(tls_off, align);
            tls_align = tls_align.max(align);
            toff = Some(tls_off);
            addr = TLS_MARK + tls_off;
            tls_off += sz;
        } else if constant {
            ro_off = al(ro_off, align);
            addr = RO_BASE + ro_off;
            ro_off += sz;
            toff = None;
        } else {
            rw_off = al(rw_off, align);
            addr = RW_BASE + rw_off;
            rw_off += sz;
            toff = None;
        }
        sym.insert(name.clone(), addr);
        globals.push(Global { name, ty, addr, tls_off: toff, constant, init: if ext { None } else { Some((istart, *e)) }, is_extern: ext });
    }
    let mut m = Module {
        text: String::new(),
        types: HashMap::new(),
        funcs,
        fidx,
        globals,
        sym,
        ro: vec![0; ro_off as usize + 64],
        rw: vec![0; rw_off as usize + 64],
        tls: vec![0; tls_off as usize],
        tls_align,
        md,
    };
    for (name, pos) in aliases {
        let mut p = P::new(&text, pos, Some(&m), &types);
        let v = p.cval(&Ty::Ptr);
        if let CVal::I(a) = v {
            if let Some(f) = m.funcs.iter().position(|f| f.addr == a) {
                m.fidx.insert(name.clone(), f as u32);
            }
            m.sym.insert(name, a);
        }
    }
    let mut inits = vec![];
    for (k, g) in m.globals.iter().enumerate() {
        if let Some((s, _)) = g.init {
            let mut p = P::new(&text, s, Some(&m), &types);
            inits.push((k, p.cval(&g.ty)));
        }
    }
    for (k, c) in inits {
        let g = m.globals[k].clone();
        if let Some(o) = g.tls_off {
            write_const(&c, &g.ty, &mut m.tls[o as usize..]);
        } else if g.constant {
            let o = (g.addr - RO_BASE) as usize;
            write_const(&c, &g.ty, &mut m.ro[o..]);
        } else {
            let o = (g.addr - RW_BASE) as usize;
            write_const(&c, &g.ty, &mut m.rw[o..]);
        }
    }
    m.text = text;
    m.types = types;
    m
}

pub fn is_panic_name(n: &str) -> bool {
    let pats = [
        "9panicking", // core::panicking / std::panicking
        "13unwrap_failed",
        "13expect_failed",
        "slice_index_fail",
        "slice_start_index",
        "slice_end_index",
        "18handle_alloc_error",
        "handle_error",
        "17capacity_overflow",
        "panic_already",
        "panic_fmt",
        "rust_panic",
        "15rust_begin_unwind",
        "begin_unwind",
        "unwrap_failed",
        "expect_failed",
        "copy_from_slice_impl",
        "len_mismatch_fail",
        "slice_error_fail",
        "panic_bounds",
        "panic_const",
    ];
    // not those of the panic *count* bookkeeping that run normally
    if n.contains("panic_count") || n.contains("10panicking9panicking") || n.contains("panicking11panic_count") || n.contains("is_zero_slow_path") {
        return false;
    }
    pats.iter().any(|p| n.contains(p))
}

impl Module {
    pub fn body(&self, f: u32) -> Option<&Func> {
        let d = &self.funcs[f as usize];
        let (h, s, e) = d.body?;
        Some(d.parsed.get_or_init(|| {
            let mut p = P::new(&self.text, s, Some(self), &self.types);
            p.func(h, s, e)
        }))
    }
    /// inline chain of (function name, file, line) for a debug location id
    pub fn locate(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut cur = dbg;
        let mut guard = 0;
        while cur != 0 && guard < 64 {
            guard += 1;
            let t = match self.md_text(cur) {
                Some(t) => t,
                None => break,
            };
            if !t.contains("DILocation(") {
                break;
            }
            let line = field_num(t, "line: ").unwrap_or(0);
            let scope = field_ref(t, "scope: !").unwrap_or(0);
            let inl = field_ref(t, "inlinedAt: !").unwrap_or(0);
            let (name, file) = self.scope_name(scope);
            out.push((name, file, line));
            cur = inl;
        }
        out
    }
    fn md_text(&self, id: u32) -> Option<&str> {
        self.md.get(&id).map(|(a, b)| &self.text[*a..*b])
    }
    pub fn scope_name(&self, mut id: u32) -> (String, String) {
        let mut guard = 0;
        while guard < 64 {
            guard += 1;
            let t = match self.md_text(id) {
                Some(t) => t,
                None => break,
            };
            if t.contains("DISubprogram(") {
                let name = field_str(t, "name: \"").unwrap_or_default();
                let file = field_ref(t, "file: !").and_then(|f| self.md_text(f).and_then(|t| field_str(t, "filename: \""))).unwrap_or_default();
                return (name, file);
            }
            match field_ref(t, "scope: !") {
                Some(s) => id = s,
                None => break,
            }
        }
        (String::new(), String::new())
    }
}
fn field_num(t: &str, k: &str) -> Option<u32> {
    let p = t.find(k)? + k.len();
    let d: String = t[p..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
fn field_ref(t: &str, k: &str) -> Option<u32> {
    field_num(t, k)
}
fn field_str(t: &str, k: &str) -> Option<String> {
    let p = t.find(k)? + k.len();
    let e = t[p..].find('"')?;
    Some(t[p..p + e].to_string())
}
