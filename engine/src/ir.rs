//! Textual LLVM IR (as printed by rustc's LLVM) -> decoded, slot-allocated functions.
//!
//! The module text is indexed once; functions and global initialisers are decoded on first use.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let mut p = 1;
                while p < b {
                    p *= 2
                }
                p.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => {
                let mut p = 1;
                while p < self.store_size() {
                    p *= 2
                }
                p
            }
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => align_up(self.store_size(), self.align()),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !*packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), t),
            Ty::Vec(_, t) => (i * t.store_size(), t),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar {:?}", self),
        }
    }
    fn nfields(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(ts, _) => ts.len() as u64,
            _ => 0,
        }
    }
    /// (byte offset, bits) of each scalar leaf
    pub fn leaves(&self) -> Vec<(u64, u32)> {
        let mut v = vec![];
        self.leaves_at(0, &mut v);
        v
    }
    fn leaves_at(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => out.push((base, self.bits())),
            _ => {
                for i in 0..self.nfields() {
                    let (o, t) = self.field(i);
                    t.leaves_at(base + o, out);
                }
            }
        }
    }
    pub fn nleaves(&self) -> u32 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as u32 * t.nleaves(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.nleaves()).sum(),
        }
    }
    /// leaf index and type of a nested element
    fn leaf_path(&self, path: &[u64]) -> (u32, Ty) {
        let mut t = self.clone();
        let mut leaf = 0;
        for &p in path {
            let mut k = 0;
            for i in 0..p {
                k += t.field(i).1.nleaves();
            }
            leaf += k;
            t = t.field(p).1.clone();
        }
        (leaf, t)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    UMin,
    UMax,
    SMin,
    SMax,
    USubSat,
    UAddSat,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
}

/// Operand: slot index, or CONST_BIT | index into the constant pool.
pub type Opnd = u32;
pub const CONST_BIT: u32 = 0x8000_0000;

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // block index
    pub pc: u32,
    pub moves: Box<[(u32, Opnd)]>,
}

#[derive(Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Box<[(Opnd, u8)]>, // flattened leaves with widths
    pub dst: u32,
    pub nret: u32,
    pub ret_bits: u32,
    pub line: u32,
    pub normal: Option<u32>, // edge index for invoke
}
#[derive(Debug, Clone)]
pub enum Callee {
    Func(u32),
    Intr(Intr, u32),
    Ind(Opnd),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Fshl,
    Fshr,
    UMulOv,
    SMulOv,
    UAddOv,
    SAddOv,
    USubOv,
    SSubOv,
    Ctpop,
    Cttz,
    Ctlz,
    Trap,
    IsConst,
    Ucmp,
    Scmp,
    Bswap,
    Bitrev,
    LoadRel,
    TlsAddr,
    Abs,
    Fabs,
    Copysign,
    Expect,
    Unsup,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FpOp {
    Neg,
    Add,
    Sub,
    Mul,
    Div,
    FromU,
    FromS,
    ToU,
    ToS,
    Ext,
    Trunc,
    /// bit 0: equal, 1: greater, 2: less, 3: unordered
    Cmp(u8),
}
impl FpOp {
    pub fn code(self) -> u32 {
        match self {
            FpOp::Neg => 0,
            FpOp::Add => 1,
            FpOp::Sub => 2,
            FpOp::Mul => 3,
            FpOp::Div => 4,
            FpOp::FromU => 5,
            FpOp::FromS => 6,
            FpOp::ToU => 7,
            FpOp::ToS => 8,
            FpOp::Ext => 9,
            FpOp::Trunc => 10,
            FpOp::Cmp(p) => 11 | (p as u32) << 8,
        }
    }
    pub fn decode(c: u32) -> FpOp {
        [FpOp::Neg, FpOp::Add, FpOp::Sub, FpOp::Mul, FpOp::Div, FpOp::FromU, FpOp::FromS, FpOp::ToU, FpOp::ToS, FpOp::Ext, FpOp::Trunc, FpOp::Cmp((c >> 8) as u8)][(c & 255) as usize]
    }
}
#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u8, d: u32, a: Opnd, b: Opnd },
    Cmp { p: Pred, w: u8, d: u32, a: Opnd, b: Opnd },
    Sel { n: u32, d: u32, c: Opnd, a: Opnd, b: Opnd, ws: Box<[u8]> },
    Cast { op: CastOp, fw: u8, tw: u8, d: u32, a: Opnd },
    Mov { d: u32, a: Opnd },
    MovN { d: u32, a: Box<[Opnd]> },
    Load { d: u32, a: Opnd, bits: u8 },
    LoadN { d: u32, a: Opnd, leaves: Box<[(u64, u32)]> },
    Store { a: Opnd, v: Opnd, bits: u8 },
    StoreN { a: Opnd, v: Box<[Opnd]>, leaves: Box<[(u64, u32)]> },
    /// floating-point operation on concrete operands of fw bits
    Fp { op: FpOp, fw: u8, tw: u8, d: u32, a: Opnd, b: Opnd },
    GepC { d: u32, a: Opnd, off: u64 },
    Gep { d: u32, a: Opnd, off: u64, idx: Box<[(Opnd, u64, u8)]> },
    Alloca { d: u32, off: u32 },
    Br { e: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { v: Opnd, w: u8, cases: Box<[(u64, u32)]>, def: u32 },
    Ret { v: Box<[Opnd]> },
    Call(Box<Call>),
    /// concatenation of n lanes of w bits (lane 0 least significant)
    VecToInt { d: u32, a: Box<[Opnd]>, w: u8 },
    IntToVec { d: u32, a: Opnd, n: u32, w: u8, fw: u8 },
    Rmw { op: u8, d: u32, a: Opnd, v: Opnd, w: u8 },
    CmpXchg { d: u32, a: Opnd, e: Opnd, n: Opnd, w: u8 },
    Unreachable,
    Nop,
    Unsup(Box<str>),
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nslots: u32,
    pub nparams: u32,
    pub code: Vec<I>,
    /// text line (within function) of every instruction
    pub lines: Vec<u32>,
    pub blocks: Vec<u32>,
    pub block_lines: Vec<u32>,
    pub edges: Vec<Edge>,
    pub frame_size: u32,
}

pub struct FuncDecl {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub lines: u32,
    pub cov_base: u32,
    pub defined: bool,
}
pub struct GlobalDecl {
    pub name: String,
    pub pos: usize,
    pub konst: bool,
    pub external: bool,
}

pub struct Module {
    pub text: &'static [u8],
    pub globals: Vec<GlobalDecl>,
    pub funcs: Vec<FuncDecl>,
    pub sym: HashMap<&'static [u8], u32>,
    pub cov_size: u32,
    pub meta_start: usize,
}

/// Constant values that fit 64 bits are stored directly, wider ones by index into `wide`.
#[derive(Default)]
pub struct ConstPool {
    pub vals: Vec<(u128, u8)>,
    map: HashMap<(u128, u8), u32>,
}
impl ConstPool {
    pub fn get(&mut self, v: u128, w: u8) -> Opnd {
        let v = if w < 128 { v & ((1u128 << w) - 1) } else { v };
        let n = self.vals.len() as u32;
        let k = *self.map.entry((v, w)).or_insert(n);
        if k == n {
            self.vals.push((v, w));
        }
        CONST_BIT | k
    }
}

fn line_end(t: &[u8], mut p: usize) -> usize {
    while p < t.len() && t[p] != b'\n' {
        p += 1
    }
    p
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static [u8] = Box::leak(std::fs::read(path).expect("read IR").into_boxed_slice());
        let mut globals = vec![];
        let mut funcs = vec![];
        let mut sym = HashMap::new();
        let mut p = 0;
        let mut cov = 0u32;
        let mut meta_start = text.len();
        let mut gnames: Vec<&'static [u8]> = vec![];
        let mut fnames: Vec<&'static [u8]> = vec![];
        while p < text.len() {
            let e = line_end(text, p);
            match text[p] {
                b'@' => {
                    let mut l = Lex { t: text, p };
                    let name = l.global_name();
                    l.expect(b'=');
                    let pos = l.p;
                    let ln = &text[pos..e];
                    let head: Vec<&[u8]> = ln.split(|c| *c == b' ').take(12).collect();
                    let kidx = head.iter().position(|w| *w == b"constant" || *w == b"global");
                    if let Some(k) = kidx {
                        let external = head[..k].iter().any(|w| *w == b"external" || *w == b"extern_weak");
                        globals.push(GlobalDecl {
                            name: String::from_utf8_lossy(name).into_owned(),
                            pos,
                            konst: head[k] == b"constant",
                            external,
                        });
                        gnames.push(name);
                    } else {
                        // alias: treated as unsupported global unless referenced
                        globals.push(GlobalDecl { name: String::from_utf8_lossy(name).into_owned(), pos, konst: false, external: true });
                        gnames.push(name);
                    }
                }
                b'd' if text[p..e].starts_with(b"define ") => {
                    // find end
                    let mut q = e + 1;
                    let mut lines = 1;
                    loop {
                        let qe = line_end(text, q);
                        lines += 1;
                        if text[q] == b'}' {
                            q = qe;
                            break;
                        }
                        q = qe + 1;
                    }
                    let mut l = Lex { t: text, p: p + 7 };
                    let _ = l.attrs_then_type();
                    let name = l.global_name();
                    funcs.push(FuncDecl { name: String::from_utf8_lossy(name).into_owned(), start: p, end: q, lines, cov_base: cov, defined: true });
                    fnames.push(name);
                    cov += lines;
                    p = q + 1;
                    continue;
                }
                b'd' if text[p..e].starts_with(b"declare ") => {
                    let mut l = Lex { t: text, p: p + 8 };
                    let _ = l.attrs_then_type();
                    let name = l.global_name();
                    funcs.push(FuncDecl { name: String::from_utf8_lossy(name).into_owned(), start: p, end: e, lines: 0, cov_base: 0, defined: false });
                    fnames.push(name);
                }
                b'!' => {
                    meta_start = p;
                    break;
                }
                _ => {}
            }
            p = e + 1;
        }
        for (i, n) in gnames.iter().enumerate() {
            sym.insert(*n, 1 + i as u32);
        }
        for (i, n) in fnames.iter().enumerate() {
            sym.insert(*n, 1 + gnames.len() as u32 + i as u32);
        }
        Module { text, globals, funcs, sym, cov_size: cov, meta_start }
    }
    pub fn nglobals(&self) -> u32 {
        self.globals.len() as u32
    }
    /// symbol id -> function index
    pub fn func_of_sym(&self, s: u32) -> Option<u32> {
        let g = self.nglobals();
        if s > g && ((s - g - 1) as usize) < self.funcs.len() {
            Some(s - g - 1)
        } else {
            None
        }
    }
    pub fn find_func(&self, name: &str) -> Option<u32> {
        self.sym.get(name.as_bytes()).and_then(|s| self.func_of_sym(*s))
    }
    pub fn dyn_base(&self) -> u32 {
        1 + self.nglobals() + self.funcs.len() as u32
    }

    /// initial bytes of a global
    pub fn global_init(&self, gi: u32) -> Result<Vec<u8>, String> {
        let g = &self.globals[gi as usize];
        if g.external {
            return Err(format!("external global {}", g.name));
        }
        let mut l = Lex { t: self.text, p: g.pos };
        loop {
            let w = l.word();
            if w == b"constant" || w == b"global" {
                break;
            }
            if w.is_empty() {
                // e.g. thread_local(localexec) / addrspace(..)
                if l.peek() == b'(' {
                    l.skip_parens();
                } else {
                    return Err(format!("global {} header", g.name));
                }
            }
        }
        let ty = l.ty();
        let mut out = vec![0u8; ty.size() as usize];
        self.init_into(&mut l, &ty, &mut out, 0)?;
        Ok(out)
    }

    fn init_into(&self, l: &mut Lex, ty: &Ty, out: &mut [u8], off: usize) -> Result<(), String> {
        l.ws();
        match ty {
            Ty::Arr(n, t) if l.peek() == b'c' && l.peek2() == b'"' => {
                let s = l.cstr();
                assert!(t.bits() == 8 && s.len() as u64 == *n);
                out[off..off + s.len()].copy_from_slice(&s);
                Ok(())
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let c = l.peek();
                if c == b'z' || c == b'u' || c == b'p' {
                    l.word();
                    return Ok(()); // zeroinitializer / undef / poison
                }
                let packed = c == b'<' && l.peek2() == b'{';
                if packed {
                    l.p += 1;
                }
                l.p += 1; // [ { <
                let n = ty.nfields();
                for i in 0..n {
                    let (o, _) = ty.field(i);
                    if i > 0 {
                        l.expect(b',');
                    }
                    let t = l.ty();
                    self.init_into(l, &t, out, off + o as usize)?;
                }
                l.ws();
                l.p += 1;
                if packed {
                    l.p += 1;
                }
                Ok(())
            }
            _ => {
                let v = self.constant(l, ty)?;
                let sz = ty.store_size() as usize;
                out[off..off + sz].copy_from_slice(&v.to_le_bytes()[..sz]);
                Ok(())
            }
        }
    }

    pub fn sym_addr(&self, name: &[u8]) -> Result<u64, String> {
        self.sym.get(name).map(|s| (*s as u64) << 32).ok_or_else(|| format!("unknown symbol {}", String::from_utf8_lossy(name)))
    }

    /// scalar constant (the type has been consumed)
    fn constant(&self, l: &mut Lex, ty: &Ty) -> Result<u128, String> {
        l.ws();
        let c = l.peek();
        let w = ty.bits();
        let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        if c == b'@' {
            let n = l.global_name();
            return Ok(self.sym_addr(n)? as u128);
        }
        let fp = matches!(ty, Ty::F32 | Ty::F64);
        if c == b'-' || c.is_ascii_digit() || (c == b'+' && fp) {
            if fp {
                let s = l.num_token();
                let s = std::str::from_utf8(s).unwrap();
                let special = match s.trim_start_matches(['+', '-']) {
                    "qnan" => Some(f64::NAN),
                    "inf" => Some(f64::INFINITY),
                    _ => None,
                };
                if let Some(v) = special {
                    let v = if s.starts_with('-') { v.copysign(-1.0) } else { v.copysign(1.0) };
                    return Ok(if *ty == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 });
                }
                if let Some(h) = s.strip_prefix("0x") {
                    let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    return Ok(if *ty == Ty::F32 { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 });
                }
                let v: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                return Ok(if *ty == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 });
            }
            let s = l.num_token();
            let s = std::str::from_utf8(s).unwrap();
            let v: u128 = if let Some(n) = s.strip_prefix('-') { n.parse::<u128>().map_err(|e| e.to_string())?.wrapping_neg() } else { s.parse::<u128>().map_err(|e| format!("{} {}", e, s))? };
            return Ok(v & mask);
        }
        let word = l.word();
        match word {
            b"true" => Ok(1),
            b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" => Ok(0),
            b"getelementptr" => {
                l.skip_flags();
                l.expect(b'(');
                let t = l.ty();
                l.expect(b',');
                let pt = l.ty();
                let base = self.constant(l, &pt)?;
                let mut cur = t;
                let mut off = 0i128;
                let mut first = true;
                loop {
                    l.ws();
                    if l.peek() == b')' {
                        l.p += 1;
                        break;
                    }
                    l.expect(b',');
                    l.skip_flags(); // inrange etc
                    let it = l.ty();
                    let v = self.constant(l, &it)?;
                    let iw = it.bits();
                    let sv = if iw < 128 { ((v << (128 - iw)) as i128) >> (128 - iw) } else { v as i128 };
                    if first {
                        off += sv * cur.size() as i128;
                        first = false;
                    } else {
                        let (o, ft) = cur.field(sv as u64);
                        let ft = ft.clone();
                        off += o as i128;
                        cur = ft;
                    }
                }
                Ok((base as i128 + off) as u128 & mask)
            }
            b"ptrtoint" | b"inttoptr" | b"trunc" | b"zext" | b"bitcast" => {
                l.skip_flags();
                l.expect(b'(');
                let t = l.ty();
                let v = self.constant(l, &t)?;
                l.ws();
                assert_eq!(l.word(), b"to");
                let to = l.ty();
                l.expect(b')');
                // an entry of a relative lookup table: the distance between two objects, which
                // load.relative adds back (see Intr::LoadRel)
                if word == b"trunc" && to.bits() == 32 && t.bits() == 64 && v >> 32 != 0 {
                    if v & 0xffff_ffff != 0 {
                        return Err("relative address inside an object".into());
                    }
                    return Ok((v >> 32) & 0xffff_ffff);
                }
                Ok(v & mask)
            }
            b"sub" | b"add" | b"xor" | b"and" | b"or" => {
                l.skip_flags();
                l.expect(b'(');
                let t = l.ty();
                let a = self.constant(l, &t)?;
                l.expect(b',');
                let t2 = l.ty();
                let b = self.constant(l, &t2)?;
                l.expect(b')');
                let r = match word {
                    b"sub" => a.wrapping_sub(b),
                    b"add" => a.wrapping_add(b),
                    b"xor" => a ^ b,
                    b"and" => a & b,
                    _ => a | b,
                };
                Ok(r & mask)
            }
            _ => Err(format!("constant '{}' near {}", String::from_utf8_lossy(word), l.context())),
        }
    }

    /// flattened constant of any type (the type has been consumed)
    fn const_leaves(&self, l: &mut Lex, ty: &Ty, pool: &mut ConstPool, out: &mut Vec<Opnd>) -> Result<(), String> {
        l.ws();
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let c = l.peek();
                if c == b'z' || c == b'u' || c == b'p' {
                    l.word();
                    for (_, b) in ty.leaves() {
                        out.push(pool.get(0, b as u8));
                    }
                    return Ok(());
                }
                if c == b's' {
                    l.word(); // splat
                    l.expect(b'(');
                    let t = l.ty();
                    let v = self.constant(l, &t)?;
                    l.expect(b')');
                    for _ in 0..ty.nfields() {
                        out.push(pool.get(v, t.bits() as u8));
                    }
                    return Ok(());
                }
                if c == b'c' {
                    for b in l.cstr() {
                        out.push(pool.get(b as u128, 8));
                    }
                    return Ok(());
                }
                let packed = c == b'<' && l.peek2() == b'{';
                if packed {
                    l.p += 1;
                }
                l.p += 1;
                for i in 0..ty.nfields() {
                    if i > 0 {
                        l.expect(b',');
                    }
                    let t = l.ty();
                    self.const_leaves(l, &t, pool, out)?;
                }
                l.ws();
                l.p += 1;
                if packed {
                    l.p += 1;
                }
                Ok(())
            }
            Ty::Void | Ty::Meta => Ok(()),
            _ => {
                let v = self.constant(l, ty)?;
                out.push(pool.get(v, ty.bits() as u8));
                Ok(())
            }
        }
    }

    pub fn decode(&self, fi: u32, pool: &mut ConstPool) -> Result<Func, String> {
        FnDec::decode(self, fi, pool)
    }
}

pub struct Lex {
    t: &'static [u8],
    pub p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.'
}

impl Lex {
    pub fn at(t: &'static [u8], p: usize) -> Lex {
        Lex { t, p }
    }
    fn ws(&mut self) {
        while self.p < self.t.len() && (self.t[self.p] == b' ' || self.t[self.p] == b'\t') {
            self.p += 1
        }
    }
    /// also skips newlines (for multi-line instructions)
    fn ws_nl(&mut self) {
        while self.p < self.t.len() && (self.t[self.p] as char).is_ascii_whitespace() {
            self.p += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.t.get(self.p).unwrap_or(&0)
    }
    fn peek2(&self) -> u8 {
        *self.t.get(self.p + 1).unwrap_or(&0)
    }
    fn context(&self) -> String {
        let a = self.p.saturating_sub(60);
        let e = line_end(self.t, self.p).min(self.p + 80);
        String::from_utf8_lossy(&self.t[a..e]).into_owned()
    }
    fn expect(&mut self, c: u8) {
        self.ws();
        if self.peek() != c {
            panic!("expected '{}' near: {}", c as char, self.context());
        }
        self.p += 1;
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> &'static [u8] {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && is_word(self.t[self.p]) {
            self.p += 1
        }
        &self.t[s..self.p]
    }
    fn peek_word(&self) -> &'static [u8] {
        let mut l = Lex { t: self.t, p: self.p };
        l.word()
    }
    fn num_token(&mut self) -> &'static [u8] {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && (is_word(self.t[self.p]) || self.t[self.p] == b'-' || self.t[self.p] == b'+') {
            self.p += 1
        }
        &self.t[s..self.p]
    }
    fn name_after_sigil(&mut self) -> &'static [u8] {
        if self.peek() == b'"' {
            let s = self.p + 1;
            let mut q = s;
            while self.t[q] != b'"' {
                q += 1
            }
            self.p = q + 1;
            return &self.t[s..q];
        }
        let s = self.p;
        while self.p < self.t.len() && (is_word(self.t[self.p]) || self.t[self.p] == b'$' || self.t[self.p] == b'-') {
            self.p += 1
        }
        &self.t[s..self.p]
    }
    fn global_name(&mut self) -> &'static [u8] {
        self.expect(b'@');
        self.name_after_sigil()
    }
    fn local_name(&mut self) -> &'static [u8] {
        self.expect(b'%');
        self.name_after_sigil()
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.ws();
        if self.peek() == b'c' {
            self.p += 1;
        }
        self.p += 1;
        let mut v = vec![];
        loop {
            let c = self.t[self.p];
            if c == b'"' {
                self.p += 1;
                return v;
            }
            if c == b'\\' {
                if self.t[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.t[self.p + 1..self.p + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else {
                v.push(c);
                self.p += 1;
            }
        }
    }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.peek() != b'"' {
                        self.p += 1
                    }
                }
                0 => panic!("parens"),
                _ => {}
            }
            self.p += 1;
        }
    }
    /// skips instruction flags such as nuw/nsw/inbounds/exact/disjoint/samesign/fast-math
    fn skip_flags(&mut self) {
        loop {
            let w = self.peek_word();
            match w {
                b"nuw" | b"nsw" | b"inbounds" | b"exact" | b"disjoint" | b"samesign" | b"nusw" | b"nneg" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"volatile" | b"atomic" | b"weak" => {
                    self.word();
                }
                b"inrange" => {
                    self.word();
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn is_type_start(&self) -> bool {
        let mut l = Lex { t: self.t, p: self.p };
        l.ws();
        match l.peek() {
            b'{' | b'[' | b'<' => return true,
            _ => {}
        }
        let w = l.word();
        match w {
            b"ptr" | b"void" | b"float" | b"double" | b"metadata" => true,
            _ => w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()),
        }
    }
    /// skip words/attributes until a type begins, then parse it
    fn attrs_then_type(&mut self) -> Ty {
        loop {
            if self.is_type_start() {
                return self.ty();
            }
            self.skip_one_attr();
        }
    }
    fn skip_one_attr(&mut self) {
        self.ws();
        if self.peek() == b'"' {
            self.p += 1;
            while self.peek() != b'"' {
                self.p += 1
            }
            self.p += 1;
            if self.peek() == b'=' {
                self.p += 1;
                self.skip_one_attr();
            }
            return;
        }
        if self.peek() == b'#' {
            self.p += 1;
            self.word();
            return;
        }
        let w = self.word();
        if w.is_empty() {
            panic!("attr near: {}", self.context());
        }
        if w == b"align" || w == b"cc" || w == b"addrspace" {
            self.ws();
            if self.peek().is_ascii_digit() {
                self.word();
                return;
            }
        }
        if self.peek() == b'(' {
            self.skip_parens();
        }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'{' => {
                self.p += 1;
                let ts = self.ty_list(b'}');
                Ty::Struct(ts, false)
            }
            b'<' => {
                self.p += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.p += 1;
                    let ts = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(ts, true)
                } else {
                    let n = self.int();
                    assert_eq!(self.word(), b"x");
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                self.p += 1;
                let n = self.int();
                assert_eq!(self.word(), b"x");
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    b"ptr" => {
                        if self.peek_word() == b"addrspace" {
                            self.word();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    b"void" => Ty::Void,
                    b"float" => Ty::F32,
                    b"double" => Ty::F64,
                    b"metadata" => Ty::Meta,
                    _ => {
                        if w.len() > 1 && w[0] == b'i' {
                            Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().expect("int type"))
                        } else {
                            panic!("type '{}' near: {}", String::from_utf8_lossy(w), self.context())
                        }
                    }
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        self.ws();
        if self.peek() == end {
            self.p += 1;
            return v;
        }
        loop {
            v.push(self.ty());
            self.ws();
            if self.peek() == end {
                self.p += 1;
                return v;
            }
            self.expect(b',');
        }
    }
    fn int(&mut self) -> u64 {
        self.ws();
        std::str::from_utf8(self.word()).unwrap().parse().expect("int")
    }
}

struct FnDec<'m> {
    m: &'m Module,
    l: Lex,
    slots: HashMap<&'static [u8], (u32, Ty)>,
    nslots: u32,
    code: Vec<I>,
    lines: Vec<u32>,
}

enum Term {
    None,
}

struct PhiRec {
    block: u32,
    d: u32,
    n: u32,
    inc: Vec<(usize, Ty, &'static [u8])>, // (value text pos, type, pred label)
}

impl<'m> FnDec<'m> {
    fn slot(&mut self, name: &'static [u8], ty: &Ty) -> u32 {
        let n = ty.nleaves();
        let s = self.nslots;
        self.nslots += n;
        let old = self.slots.insert(name, (s, ty.clone()));
        debug_assert!(old.is_none());
        s
    }
    /// operand leaves of given type at lexer position
    fn val(&mut self, ty: &Ty, pool: &mut ConstPool) -> Result<Vec<Opnd>, String> {
        self.l.ws();
        if self.l.peek() == b'%' {
            let n = self.l.local_name();
            let (s, t) = self.slots.get(n).ok_or_else(|| format!("unknown local %{}", String::from_utf8_lossy(n)))?;
            let k = t.nleaves();
            return Ok((*s..*s + k).collect());
        }
        let mut out = vec![];
        self.m.const_leaves(&mut self.l, ty, pool, &mut out)?;
        Ok(out)
    }
    fn val1(&mut self, ty: &Ty, pool: &mut ConstPool) -> Result<Opnd, String> {
        let v = self.val(ty, pool)?;
        if v.len() != 1 {
            return Err(format!("scalar expected near {}", self.l.context()));
        }
        Ok(v[0])
    }

    fn decode(m: &'m Module, fi: u32, pool: &mut ConstPool) -> Result<Func, String> {
        let fd = &m.funcs[fi as usize];
        let text = m.text;
        let mut d = FnDec { m, l: Lex { t: text, p: fd.start + 7 }, slots: HashMap::new(), nslots: 0, code: vec![], lines: vec![] };
        let _ret = d.l.attrs_then_type();
        d.l.global_name();
        d.l.expect(b'(');
        let mut auto = 0u32;
        loop {
            d.l.ws();
            if d.l.peek() == b')' {
                d.l.p += 1;
                break;
            }
            if d.l.peek() == b',' {
                d.l.p += 1;
                continue;
            }
            if d.l.peek() == b'.' {
                d.l.p += 3;
                continue;
            }
            let ty = d.l.ty();
            loop {
                d.l.ws();
                let c = d.l.peek();
                if c == b'%' {
                    let n = d.l.local_name();
                    d.slot(n, &ty);
                    if n.iter().all(|c| c.is_ascii_digit()) {
                        auto += 1;
                    }
                    break;
                }
                if c == b',' || c == b')' {
                    let s: &'static [u8] = Box::leak(auto.to_string().into_bytes().into_boxed_slice());
                    d.slot(s, &ty);
                    auto += 1;
                    break;
                }
                d.l.skip_one_attr();
            }
        }
        let nparams = d.nslots;
        // first pass: lines -> result slots & types are discovered in textual order; but uses may
        // precede definitions (phis), so allocate slots by pre-scanning result types lazily:
        // we do a full pre-scan computing the type of every instruction.
        let body_start = line_end(text, fd.start) + 1;
        let mut p = body_start;
        let mut line_no = 1u32;
        let mut labels: HashMap<&'static [u8], u32> = HashMap::new();
        let mut nblocks = 0u32;
        let mut stmts: Vec<(usize, u32, u32)> = vec![]; // (pos, line, block)
        let mut block_lines = vec![];
        let mut started = false;
        let mut in_switch = false;
        while p < fd.end {
            let e = line_end(text, p);
            let ln = &text[p..e];
            if ln.is_empty() || ln[0] == b';' || ln[0] == b'}' {
            } else if ln[0] != b' ' {
                // label
                let mut l = Lex { t: text, p };
                let name = l.name_after_sigil();
                labels.insert(name, nblocks);
                nblocks += 1;
                block_lines.push(line_no);
                started = true;
            } else {
                if !started {
                    // implicit entry block
                    let s: &'static [u8] = Box::leak(auto.to_string().into_bytes().into_boxed_slice());
                    labels.insert(s, nblocks);
                    nblocks += 1;
                    block_lines.push(line_no);
                    started = true;
                }
                if in_switch {
                    if ln.starts_with(b"  ]") {
                        in_switch = false;
                    }
                } else {
                    let t = &ln[2..];
                    if t.starts_with(b" ") {
                        // continuation (invoke "to label", landingpad clauses)
                    } else {
                        stmts.push((p + 2, line_no, nblocks - 1));
                        if t.starts_with(b"switch ") && !ln.ends_with(b"]") && !find(t, b" ]") {
                            in_switch = true;
                        }
                    }
                }
            }
            p = e + 1;
            line_no += 1;
        }
        // result types
        for &(pos, _, _) in &stmts {
            if text[pos] == b'%' {
                d.l.p = pos;
                let name = d.l.local_name();
                d.l.expect(b'=');
                let ty = d.result_type()?;
                d.slot(name, &ty);
            }
        }
        // second pass
        let mut blocks = vec![u32::MAX; nblocks as usize];
        let mut phis: Vec<PhiRec> = vec![];
        let mut edges: Vec<(u32, &'static [u8])> = vec![]; // (from block, label)
        let mut frame = 0u64;
        for &(pos, line, b) in &stmts {
            if blocks[b as usize] == u32::MAX {
                blocks[b as usize] = d.code.len() as u32;
            }
            d.l.p = pos;
            let n0 = d.code.len();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.stmt(b, line, pool, &mut phis, &mut edges, &mut frame)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    d.code.truncate(n0);
                    let e = format!("{}: {}", e, String::from_utf8_lossy(&text[pos..line_end(text, pos).min(pos + 160)]));
                    d.code.push(I::Unsup(e.into_boxed_str()));
                }
                Err(_) => return Err(format!("decoder panic at {}", String::from_utf8_lossy(&text[pos..line_end(text, pos)]))),
            }
            while d.lines.len() < d.code.len() {
                d.lines.push(line);
            }
        }
        // edges
        let labels_rev: HashMap<u32, &'static [u8]> = labels.iter().map(|(k, v)| (*v, *k)).collect();
        let mut phis_by_block: HashMap<u32, Vec<usize>> = HashMap::new();
        for (i, ph) in phis.iter().enumerate() {
            phis_by_block.entry(ph.block).or_default().push(i);
        }
        let mut es = vec![];
        for (from, lab) in edges {
            let t = *labels.get(lab).ok_or("label")?;
            let mut moves = vec![];
            if let Some(ps) = phis_by_block.get(&t) {
                let fl = labels_rev[&from];
                for &pi in ps {
                    let ph = &phis[pi];
                    let (vp, ty, _) = ph.inc.iter().find(|x| x.2 == fl).ok_or_else(|| format!("phi without incoming {}", String::from_utf8_lossy(fl)))?;
                    d.l.p = *vp;
                    let v = d.val(ty, pool)?;
                    for k in 0..ph.n {
                        if v[k as usize] != ph.d + k {
                            moves.push((ph.d + k, v[k as usize]));
                        }
                    }
                }
            }
            es.push(Edge { target: t, pc: blocks[t as usize], moves: moves.into_boxed_slice() });
        }
        Ok(Func { id: fi, name: fd.name.clone(), nslots: d.nslots, nparams, code: d.code, lines: d.lines, blocks, block_lines, edges: es, frame_size: frame as u32 })
    }

    /// type of the instruction after "%x = "
    fn result_type(&mut self) -> Result<Ty, String> {
        let w = self.l.word();
        self.l.skip_flags();
        Ok(match w {
            b"icmp" => {
                self.l.skip_flags();
                self.l.word();
                match self.l.ty() {
                    Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            b"fcmp" => {
                self.l.skip_flags();
                self.l.word();
                match self.l.ty() {
                    Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            b"alloca" | b"getelementptr" => {
                // vector geps are not produced
                Ty::Ptr
            }
            b"load" => self.l.ty(),
            b"phi" => self.l.ty(),
            b"freeze" => self.l.ty(),
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"fpext" | b"fptrunc" | b"ptrtoaddr" => {
                let t = self.l.ty();
                self.skip_value(&t);
                self.l.ws();
                if self.l.word() != b"to" {
                    return Err(format!("cast near {}", self.l.context()));
                }
                self.l.ty()
            }
            b"select" => {
                self.l.skip_flags();
                let t = self.l.ty();
                self.skip_value(&t);
                self.l.expect(b',');
                self.l.ty()
            }
            b"tail" | b"musttail" | b"notail" => {
                self.l.word();
                self.l.skip_flags();
                self.l.attrs_then_type()
            }
            b"call" | b"invoke" => self.l.attrs_then_type(),
            b"extractvalue" => {
                let t = self.l.ty();
                self.skip_value(&t);
                let path = self.path();
                t.leaf_path(&path).1
            }
            b"insertvalue" => self.l.ty(),
            b"landingpad" => self.l.ty(),
            b"extractelement" => match self.l.ty() {
                Ty::Vec(_, t) => *t,
                _ => return Err("extractelement".into()),
            },
            b"insertelement" => self.l.ty(),
            b"shufflevector" => {
                let t = self.l.ty();
                self.skip_value(&t);
                self.l.expect(b',');
                let t2 = self.l.ty();
                self.skip_value(&t2);
                self.l.expect(b',');
                let mt = self.l.ty();
                match (t, mt) {
                    (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(n, e),
                    _ => return Err("shufflevector".into()),
                }
            }
            b"atomicrmw" => {
                self.l.skip_flags();
                self.l.word();
                let t = self.l.ty();
                self.skip_value(&t);
                self.l.expect(b',');
                self.l.ty()
            }
            b"cmpxchg" => {
                self.l.skip_flags();
                let t = self.l.ty();
                self.skip_value(&t);
                self.l.expect(b',');
                let t = self.l.ty();
                Ty::Struct(vec![t, Ty::Int(1)], false)
            }
            _ => {
                // binary operators and fneg etc.: TYPE a, b
                self.l.skip_flags();
                self.l.ty()
            }
        })
    }
    fn path(&mut self) -> Vec<u64> {
        let mut v = vec![];
        while self.l.eat(b',') {
            self.l.ws();
            if !self.l.peek().is_ascii_digit() {
                break;
            }
            v.push(self.l.int());
        }
        v
    }
    fn skip_value(&mut self, ty: &Ty) {
        self.l.ws();
        if self.l.peek() == b'%' {
            self.l.local_name();
            return;
        }
        let mut pool = ConstPool::default();
        let mut out = vec![];
        let _ = self.m.const_leaves(&mut self.l, ty, &mut pool, &mut out);
    }

    fn stmt(&mut self, b: u32, line: u32, pool: &mut ConstPool, phis: &mut Vec<PhiRec>, edges: &mut Vec<(u32, &'static [u8])>, frame: &mut u64) -> Result<(), String> {
        let _ = Term::None;
        let mut d = u32::MAX;
        let mut dty = Ty::Void;
        self.l.ws();
        if self.l.peek() == b'%' {
            let n = self.l.local_name();
            self.l.expect(b'=');
            let (s, t) = &self.slots[n];
            d = *s;
            dty = t.clone();
        }
        let op = self.l.word();
        match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"urem" | b"sdiv" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                self.l.expect(b',');
                let bb = self.val(&t, pool)?;
                let o = match op {
                    b"add" => BinOp::Add,
                    b"sub" => BinOp::Sub,
                    b"mul" => BinOp::Mul,
                    b"udiv" => BinOp::UDiv,
                    b"urem" => BinOp::URem,
                    b"sdiv" => BinOp::SDiv,
                    b"srem" => BinOp::SRem,
                    b"and" => BinOp::And,
                    b"or" => BinOp::Or,
                    b"xor" => BinOp::Xor,
                    b"shl" => BinOp::Shl,
                    b"lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                let lv = t.leaves();
                for i in 0..a.len() {
                    if lv[i].1 > 128 {
                        return Err("wide int".into());
                    }
                    self.code.push(I::Bin { op: o, w: lv[i].1 as u8, d: d + i as u32, a: a[i], b: bb[i] });
                }
            }
            b"icmp" => {
                self.l.skip_flags();
                let p = match self.l.word() {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    _ => return Err("pred".into()),
                };
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                self.l.expect(b',');
                let bb = self.val(&t, pool)?;
                let lv = t.leaves();
                for i in 0..a.len() {
                    if lv[i].1 > 128 {
                        return Err("wide int".into());
                    }
                    self.code.push(I::Cmp { p, w: lv[i].1 as u8, d: d + i as u32, a: a[i], b: bb[i] });
                }
            }
            b"select" => {
                self.l.skip_flags();
                let ct = self.l.ty();
                let c = self.val(&ct, pool)?;
                self.l.expect(b',');
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                self.l.expect(b',');
                let t2 = self.l.ty();
                let bb = self.val(&t2, pool)?;
                let ws: Vec<u8> = t.leaves().iter().map(|x| x.1 as u8).collect();
                for i in 0..a.len() {
                    let cc = if c.len() == 1 { c[0] } else { c[i] };
                    self.code.push(I::Sel { n: 1, d: d + i as u32, c: cc, a: a[i], b: bb[i], ws: vec![ws[i]].into_boxed_slice() });
                }
            }
            b"fneg" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let a = self.val1(&t, pool)?;
                let o = match op {
                    b"fneg" => FpOp::Neg,
                    b"fadd" => FpOp::Add,
                    b"fsub" => FpOp::Sub,
                    b"fmul" => FpOp::Mul,
                    _ => FpOp::Div,
                };
                let mut bb = a;
                if o != FpOp::Neg {
                    self.l.expect(b',');
                    bb = self.val1(&t, pool)?;
                }
                let w = t.bits() as u8;
                self.code.push(I::Fp { op: o, fw: w, tw: w, d, a, b: bb });
            }
            b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"fpext" | b"fptrunc" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let a = self.val1(&t, pool)?;
                self.l.word();
                let tt = self.l.ty();
                let o = match op {
                    b"uitofp" => FpOp::FromU,
                    b"sitofp" => FpOp::FromS,
                    b"fptoui" => FpOp::ToU,
                    b"fptosi" => FpOp::ToS,
                    b"fpext" => FpOp::Ext,
                    _ => FpOp::Trunc,
                };
                if t.bits() > 64 || tt.bits() > 64 {
                    return Err("wide floating-point conversion".into());
                }
                self.code.push(I::Fp { op: o, fw: t.bits() as u8, tw: tt.bits() as u8, d, a, b: a });
            }
            b"fcmp" => {
                self.l.skip_flags();
                let p = match self.l.word() {
                    b"false" => 0,
                    b"oeq" => 1,
                    b"ogt" => 2,
                    b"oge" => 3,
                    b"olt" => 4,
                    b"ole" => 5,
                    b"one" => 6,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 9,
                    b"ugt" => 10,
                    b"uge" => 11,
                    b"ult" => 12,
                    b"ule" => 13,
                    b"une" => 14,
                    b"true" => 15,
                    _ => return Err("fcmp".into()),
                };
                let t = self.l.ty();
                let a = self.val1(&t, pool)?;
                self.l.expect(b',');
                let bb = self.val1(&t, pool)?;
                self.code.push(I::Fp { op: FpOp::Cmp(p), fw: t.bits() as u8, tw: 1, d, a, b: bb });
            }
            b"trunc" | b"zext" | b"sext" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                self.l.word();
                let tt = self.l.ty();
                let o = match op {
                    b"trunc" => CastOp::Trunc,
                    b"zext" => CastOp::ZExt,
                    _ => CastOp::SExt,
                };
                let fl = t.leaves();
                let tl = tt.leaves();
                for i in 0..a.len() {
                    if fl[i].1 > 128 || tl[i].1 > 128 {
                        return Err("wide int".into());
                    }
                    self.code.push(I::Cast { op: o, fw: fl[i].1 as u8, tw: tl[i].1 as u8, d: d + i as u32, a: a[i] });
                }
            }
            b"ptrtoint" | b"inttoptr" | b"freeze" | b"ptrtoaddr" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                let fb = t.leaves();
                let tb = dty.leaves();
                for i in 0..a.len() {
                    if fb[i].1 == tb[i].1 {
                        self.code.push(I::Mov { d: d + i as u32, a: a[i] });
                    } else if fb[i].1 > tb[i].1 {
                        self.code.push(I::Cast { op: CastOp::Trunc, fw: fb[i].1 as u8, tw: tb[i].1 as u8, d: d + i as u32, a: a[i] });
                    } else {
                        self.code.push(I::Cast { op: CastOp::ZExt, fw: fb[i].1 as u8, tw: tb[i].1 as u8, d: d + i as u32, a: a[i] });
                    }
                }
            }
            b"bitcast" => {
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                match (&t, &dty) {
                    (Ty::Vec(_, e), Ty::Int(_)) => {
                        self.code.push(I::VecToInt { d, a: a.into_boxed_slice(), w: e.bits() as u8 });
                    }
                    (Ty::Int(w), Ty::Vec(n, e)) => {
                        self.code.push(I::IntToVec { d, a: a[0], n: *n as u32, w: e.bits() as u8, fw: *w as u8 });
                    }
                    (Ty::Vec(n1, e1), Ty::Vec(n2, e2)) => {
                        if n1 == n2 {
                            self.code.push(I::MovN { d, a: a.into_boxed_slice() });
                        } else {
                            let tot = n1 * e1.bits() as u64;
                            if tot > 128 {
                                return Err("vector bitcast".into());
                            }
                            let tmp = self.nslots;
                            self.nslots += 1;
                            self.code.push(I::VecToInt { d: tmp, a: a.into_boxed_slice(), w: e1.bits() as u8 });
                            self.code.push(I::IntToVec { d, a: tmp, n: *n2 as u32, w: e2.bits() as u8, fw: tot as u8 });
                        }
                    }
                    _ => self.code.push(I::MovN { d, a: a.into_boxed_slice() }),
                }
            }
            b"load" => {
                self.l.skip_flags();
                let t = self.l.ty();
                self.l.expect(b',');
                let pt = self.l.ty();
                let a = self.val1(&pt, pool)?;
                let lv = t.leaves();
                if lv.iter().any(|x| x.1 > 128) {
                    return Err("wide load".into());
                }
                if let Ty::Vec(_, e) = &t {
                    if e.bits() % 8 != 0 {
                        return Err("vector load".into());
                    }
                }
                if lv.len() == 1 && lv[0].0 == 0 {
                    self.code.push(I::Load { d, a, bits: lv[0].1 as u8 });
                } else {
                    self.code.push(I::LoadN { d, a, leaves: lv.into_boxed_slice() });
                }
            }
            b"store" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let v = self.val(&t, pool)?;
                self.l.expect(b',');
                let pt = self.l.ty();
                let a = self.val1(&pt, pool)?;
                let lv = t.leaves();
                if lv.iter().any(|x| x.1 > 128) {
                    return Err("wide store".into());
                }
                if lv.len() == 1 && lv[0].0 == 0 {
                    self.code.push(I::Store { a, v: v[0], bits: lv[0].1 as u8 });
                } else {
                    self.code.push(I::StoreN { a, v: v.into_boxed_slice(), leaves: lv.into_boxed_slice() });
                }
            }
            b"getelementptr" => {
                self.l.skip_flags();
                let t = self.l.ty();
                self.l.expect(b',');
                let pt = self.l.ty();
                let a = self.val1(&pt, pool)?;
                let mut cur = t;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut first = true;
                while self.l.eat(b',') {
                    self.l.ws();
                    if self.l.peek() == b'!' {
                        break;
                    }
                    let it = self.l.ty();
                    let v = self.val1(&it, pool)?;
                    let iw = it.bits();
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        if let Ty::Struct(..) = cur {
                            let k = pool.vals[(v & !CONST_BIT) as usize].0 as u64;
                            let (o, ft) = cur.field(k);
                            let ft = ft.clone();
                            off = off.wrapping_add(o);
                            cur = ft;
                            continue;
                        }
                        let ft = cur.field(0).1.clone();
                        scale = ft.size();
                        cur = ft;
                    }
                    if v & CONST_BIT != 0 {
                        let c = pool.vals[(v & !CONST_BIT) as usize].0;
                        let sc = ((c << (128 - iw)) as i128) >> (128 - iw);
                        off = off.wrapping_add((sc as i64 as u64).wrapping_mul(scale));
                    } else {
                        idx.push((v, scale, iw as u8));
                    }
                }
                if idx.is_empty() {
                    self.code.push(I::GepC { d, a, off });
                } else {
                    self.code.push(I::Gep { d, a, off, idx: idx.into_boxed_slice() });
                }
            }
            b"alloca" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let mut al = t.align();
                let mut cnt = 1;
                if self.l.eat(b',') {
                    if self.l.peek_word() == b"align" || { self.l.ws(); self.l.peek_word() == b"align" } {
                        self.l.word();
                        al = self.l.int();
                    } else {
                        let it = self.l.ty();
                        let v = self.val1(&it, pool)?;
                        if v & CONST_BIT == 0 {
                            return Err("dynamic alloca".into());
                        }
                        cnt = pool.vals[(v & !CONST_BIT) as usize].0 as u64;
                    }
                }
                *frame = align_up(*frame, al.max(1));
                self.code.push(I::Alloca { d, off: *frame as u32 });
                // one guard byte between variables, so that adjacent ones are distinguishable
                *frame += t.size() * cnt + 1;
            }
            b"br" => {
                self.l.ws();
                if self.l.peek_word() == b"label" {
                    self.l.word();
                    let lab = self.l.local_name();
                    edges.push((b, lab));
                    self.code.push(I::Br { e: edges.len() as u32 - 1 });
                } else {
                    let t = self.l.ty();
                    let c = self.val1(&t, pool)?;
                    self.l.expect(b',');
                    self.l.word();
                    let l1 = self.l.local_name();
                    self.l.expect(b',');
                    self.l.word();
                    let l2 = self.l.local_name();
                    edges.push((b, l1));
                    edges.push((b, l2));
                    let n = edges.len() as u32;
                    self.code.push(I::CondBr { c, t: n - 2, f: n - 1 });
                }
            }
            b"switch" => {
                let t = self.l.ty();
                let v = self.val1(&t, pool)?;
                self.l.expect(b',');
                self.l.word();
                let dl = self.l.local_name();
                edges.push((b, dl));
                let def = edges.len() as u32 - 1;
                self.l.expect(b'[');
                let mut cases = vec![];
                if t.bits() > 64 {
                    return Err("wide switch".into());
                }
                loop {
                    self.l.ws_nl();
                    if self.l.peek() == b']' {
                        break;
                    }
                    let ct = self.l.ty();
                    let c = self.m.constant(&mut self.l, &ct)?;
                    self.l.expect(b',');
                    self.l.word();
                    let lab = self.l.local_name();
                    edges.push((b, lab));
                    cases.push((c as u64, edges.len() as u32 - 1));
                }
                self.code.push(I::Switch { v, w: t.bits() as u8, cases: cases.into_boxed_slice(), def });
            }
            b"ret" => {
                let t = self.l.ty();
                let v = if t == Ty::Void { vec![] } else { self.val(&t, pool)? };
                self.code.push(I::Ret { v: v.into_boxed_slice() });
            }
            b"unreachable" => self.code.push(I::Unreachable),
            b"resume" => self.code.push(I::Unreachable),
            b"landingpad" => self.code.push(I::Unsup("landingpad".into())),
            b"fence" => self.code.push(I::Nop),
            b"phi" => {
                self.l.skip_flags();
                let t = self.l.ty();
                let mut inc = vec![];
                loop {
                    self.l.expect(b'[');
                    self.l.ws();
                    let vp = self.l.p;
                    self.skip_value(&t);
                    self.l.expect(b',');
                    let lab = self.l.local_name();
                    self.l.expect(b']');
                    inc.push((vp, t.clone(), lab));
                    if !self.l.eat(b',') {
                        break;
                    }
                    self.l.ws();
                    if self.l.peek() != b'[' {
                        break;
                    }
                }
                phis.push(PhiRec { block: b, d, n: t.nleaves(), inc });
            }
            b"extractvalue" => {
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                let path = self.path();
                let (k, et) = t.leaf_path(&path);
                let n = et.nleaves();
                self.code.push(I::MovN { d, a: a[k as usize..(k + n) as usize].to_vec().into_boxed_slice() });
            }
            b"insertvalue" => {
                let t = self.l.ty();
                let mut a = self.val(&t, pool)?;
                self.l.expect(b',');
                let et = self.l.ty();
                let v = self.val(&et, pool)?;
                let path = self.path();
                let (k, _) = t.leaf_path(&path);
                for (i, x) in v.iter().enumerate() {
                    a[k as usize + i] = *x;
                }
                self.code.push(I::MovN { d, a: a.into_boxed_slice() });
            }
            b"extractelement" => {
                let t = self.l.ty();
                let a = self.val(&t, pool)?;
                self.l.expect(b',');
                let it = self.l.ty();
                let k = self.m.constant(&mut self.l, &it)? as usize;
                self.code.push(I::Mov { d, a: a[k] });
            }
            b"insertelement" => {
                let t = self.l.ty();
                let mut a = self.val(&t, pool)?;
                self.l.expect(b',');
                let et = self.l.ty();
                let v = self.val1(&et, pool)?;
                self.l.expect(b',');
                let it = self.l.ty();
                let k = self.m.constant(&mut self.l, &it)? as usize;
                a[k] = v;
                self.code.push(I::MovN { d, a: a.into_boxed_slice() });
            }
            b"shufflevector" => {
                let t = self.l.ty();
                let mut a = self.val(&t, pool)?;
                self.l.expect(b',');
                let t2 = self.l.ty();
                let bb = self.val(&t2, pool)?;
                a.extend(bb);
                self.l.expect(b',');
                let mt = self.l.ty();
                let mut mask = vec![];
                self.m.const_leaves(&mut self.l, &mt, pool, &mut mask)?;
                let r: Vec<Opnd> = mask.iter().map(|m| a[pool.vals[(*m & !CONST_BIT) as usize].0 as usize]).collect();
                self.code.push(I::MovN { d, a: r.into_boxed_slice() });
            }
            b"atomicrmw" => {
                self.l.skip_flags();
                let o = self.l.word();
                let pt = self.l.ty();
                let a = self.val1(&pt, pool)?;
                self.l.expect(b',');
                let t = self.l.ty();
                let v = self.val1(&t, pool)?;
                let op = match o {
                    b"xchg" => 0,
                    b"add" => 1,
                    b"sub" => 2,
                    b"and" => 3,
                    b"or" => 4,
                    b"xor" => 5,
                    _ => return Err("atomicrmw".into()),
                };
                self.code.push(I::Rmw { op, d, a, v, w: t.bits() as u8 });
            }
            b"cmpxchg" => {
                self.l.skip_flags();
                let pt = self.l.ty();
                let a = self.val1(&pt, pool)?;
                self.l.expect(b',');
                let t = self.l.ty();
                let e = self.val1(&t, pool)?;
                self.l.expect(b',');
                let t2 = self.l.ty();
                let n = self.val1(&t2, pool)?;
                self.code.push(I::CmpXchg { d, a, e, n, w: t.bits() as u8 });
            }
            b"tail" | b"musttail" | b"notail" => {
                self.l.word();
                self.call(b, d, &dty, line, false, pool, edges)?;
            }
            b"call" => self.call(b, d, &dty, line, false, pool, edges)?,
            b"invoke" => self.call(b, d, &dty, line, true, pool, edges)?,
            _ => return Err(format!("opcode {}", String::from_utf8_lossy(op))),
        }
        Ok(())
    }

    fn call(&mut self, b: u32, d: u32, dty: &Ty, line: u32, invoke: bool, pool: &mut ConstPool, edges: &mut Vec<(u32, &'static [u8])>) -> Result<(), String> {
        self.l.skip_flags();
        let rt = self.l.attrs_then_type();
        self.l.ws();
        if self.l.peek() == b'(' {
            self.l.skip_parens(); // function type
            self.l.ws();
        }
        let mut name: &'static [u8] = b"";
        let callee = match self.l.peek() {
            b'@' => {
                name = self.l.global_name();
                let s = *self.m.sym.get(name).ok_or("callee symbol")?;
                match self.m.func_of_sym(s) {
                    Some(f) => Callee::Func(f),
                    None => return Err("callee is a global".into()),
                }
            }
            b'%' => Callee::Ind(self.val1(&Ty::Ptr, pool)?),
            _ => {
                let w = self.l.peek_word();
                if w == b"asm" {
                    // inline asm: only used as an optimisation barrier (no-op)
                    return Err("inline asm".into());
                }
                let v = self.m.constant(&mut self.l, &Ty::Ptr)?;
                Callee::Ind(pool.get(v, 64))
            }
        };
        self.l.expect(b'(');
        let mut args = vec![];
        loop {
            self.l.ws();
            if self.l.peek() == b')' {
                self.l.p += 1;
                break;
            }
            if self.l.peek() == b',' {
                self.l.p += 1;
                continue;
            }
            let t = self.l.ty();
            if t == Ty::Meta {
                // skip to , or )
                while self.l.peek() != b',' && self.l.peek() != b')' {
                    if self.l.peek() == b'(' {
                        self.l.skip_parens()
                    } else {
                        self.l.p += 1
                    }
                }
                continue;
            }
            // attributes
            loop {
                self.l.ws();
                let c = self.l.peek();
                if c == b'%' || c == b'@' || c == b'-' || c.is_ascii_digit() || c == b'{' || c == b'[' || c == b'<' {
                    break;
                }
                if c == b'c' && self.l.peek2() == b'"' {
                    break;
                }
                let w = self.l.peek_word();
                if matches!(w, b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"trunc" | b"zext" | b"sub" | b"add" | b"xor" | b"splat" | b"bitcast") {
                    break;
                }
                self.l.skip_one_attr();
            }
            let v = self.val(&t, pool)?;
            for (i, (_, bits)) in t.leaves().iter().enumerate() {
                if *bits > 128 {
                    return Err("wide arg".into());
                }
                args.push((v[i], *bits as u8));
            }
        }
        let mut normal = None;
        if invoke {
            // ... to label %x unwind label %y   (next line)
            loop {
                self.l.ws_nl();
                if self.l.peek() == b'[' {
                    while self.l.peek() != b']' {
                        self.l.p += 1
                    }
                    self.l.p += 1;
                    continue;
                }
                if self.l.peek_word() == b"to" {
                    self.l.word();
                    break;
                }
                self.l.skip_one_attr();
            }
            self.l.word(); // label
            let lab = self.l.local_name();
            edges.push((b, lab));
            normal = Some(edges.len() as u32 - 1);
        }
        let callee = if name.starts_with(b"llvm.") { intrinsic(name, dty) } else { callee };
        if let Callee::Intr(Intr::Nop, _) = callee {
            return Ok(());
        }
        if let Callee::Intr(Intr::Unsup, _) = callee {
            return Err(format!("intrinsic {}", String::from_utf8_lossy(name)));
        }
        // min/max family -> binary operators, lane-wise
        if let Callee::Intr(Intr::Expect, k) = callee {
            let op = [BinOp::UMin, BinOp::UMax, BinOp::SMin, BinOp::SMax, BinOp::USubSat, BinOp::UAddSat][k as usize];
            let lv = dty.leaves();
            let n = lv.len();
            for i in 0..n {
                self.code.push(I::Bin { op, w: lv[i].1 as u8, d: d + i as u32, a: args[i].0, b: args[n + i].0 });
            }
            return Ok(());
        }
        self.code.push(I::Call(Box::new(Call { callee, args: args.into_boxed_slice(), dst: d, nret: rt.nleaves(), ret_bits: dty.leaves().first().map(|x| x.1).unwrap_or(0), line, normal })));
        Ok(())
    }
}

fn find(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

fn intrinsic(name: &[u8], dty: &Ty) -> Callee {
    let n = &name[5..];
    let st = |p: &str| n.starts_with(p.as_bytes());
    let vec = matches!(dty, Ty::Vec(..));
    let k = |i| Callee::Intr(i, 0);
    if st("umin.") { return Callee::Intr(Intr::Expect, 0); }
    if st("umax.") { return Callee::Intr(Intr::Expect, 1); }
    if st("smin.") { return Callee::Intr(Intr::Expect, 2); }
    if st("smax.") { return Callee::Intr(Intr::Expect, 3); }
    if st("usub.sat.") { return Callee::Intr(Intr::Expect, 4); }
    if st("uadd.sat.") { return Callee::Intr(Intr::Expect, 5); }
    if st("experimental.noalias") || st("lifetime.") || st("assume") || st("x86.sse2.pause") || st("prefetch") || st("donothing") || st("dbg.") || st("invariant.") {
        return k(Intr::Nop);
    }
    if vec { return k(Intr::Unsup); }
    if st("memcpy.") || st("memmove.") { return k(Intr::Memcpy); }
    if st("memset.") { return k(Intr::Memset); }
    if st("fshl.") { return k(Intr::Fshl); }
    if st("fshr.") { return k(Intr::Fshr); }
    if st("umul.with.overflow.") { return k(Intr::UMulOv); }
    if st("smul.with.overflow.") { return k(Intr::SMulOv); }
    if st("uadd.with.overflow.") { return k(Intr::UAddOv); }
    if st("sadd.with.overflow.") { return k(Intr::SAddOv); }
    if st("usub.with.overflow.") { return k(Intr::USubOv); }
    if st("ssub.with.overflow.") { return k(Intr::SSubOv); }
    if st("ctpop.") { return k(Intr::Ctpop); }
    if st("cttz.") { return k(Intr::Cttz); }
    if st("ctlz.") { return k(Intr::Ctlz); }
    if st("trap") || st("ubsantrap") { return k(Intr::Trap); }
    if st("is.constant") { return k(Intr::IsConst); }
    if st("ucmp.") { return k(Intr::Ucmp); }
    if st("scmp.") { return k(Intr::Scmp); }
    if st("bswap.") { return k(Intr::Bswap); }
    if st("bitreverse.") { return k(Intr::Bitrev); }
    if st("load.relative.") { return k(Intr::LoadRel); }
    if st("threadlocal.address") { return k(Intr::TlsAddr); }
    if st("fabs.") { return k(Intr::Fabs); }
    if st("copysign.") { return k(Intr::Copysign); }
    if st("abs.") { return k(Intr::Abs); }
    k(Intr::Unsup)
}
