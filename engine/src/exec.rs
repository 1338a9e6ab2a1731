//! Symbolic executor: path-wise execution of decoded LLVM functions over bit-vector expressions.
use crate::expr::*;
use crate::ir::*;
use crate::solver::Solver;
use std::collections::HashMap;
use std::rc::Rc;

pub const NONE: E = u32::MAX;
pub const FRAME_BASE: u32 = 0x4000_0000;
const CH: usize = 32;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// symbolic bytes: (expression, byte index); NONE = concrete
    pub sym: Option<Box<[(E, u8)]>>,
    pub ro: bool,
}
impl Obj {
    fn new(size: usize) -> Obj {
        Obj { data: vec![0; size], sym: None, ro: false }
    }
}

type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    frames: Vec<Option<Rc<Obj>>>,
    next: u32,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub slots: Vec<V>,
    pub call: Option<&'static Call>, // the call (in the caller) that created this frame
}
pub struct Caller {
    frame: Frame,
    up: Option<Rc<Caller>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    U8,
    Ascii,
    Choose(u8),
}

#[derive(Clone)]
pub struct State {
    pub fr: Frame,
    pub up: Option<Rc<Caller>>,
    pub depth: u32,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: [u8; 128],
    pub ins: Vec<In>,
    pub obs: Vec<V>,
    pub covers: Vec<u16>,
    pub steps: u64,
    pub job: u32,
    pub nfork: u32,
}

#[derive(Clone, Debug)]
pub enum End {
    /// harness returned
    Ok,
    /// assumption false / constraint infeasible
    Infeasible,
    Violation { kind: &'static str, code: u32, msg: String },
    Unknown(String),
}

pub struct Machine {
    pub m: &'static Module,
    pub x: Exprs,
    pub s: Solver,
    pub pool: ConstPool,
    cvals: Vec<V>,
    funcs: Vec<Option<&'static Func>>,
    builtins: Vec<B>,
    redirect: Vec<u32>,
    globals: Vec<Option<Rc<Obj>>>,
    pub cov: *mut u8,
    pub stack: Vec<Box<State>>,
    pub max_steps: u64,
    pub max_depth: u32,
    pub forks: u64,
    pub insts: u64,
    pub concretized: u64,
    pub tables: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    None,
    Extern,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
    Bcmp,
    Memcmp,
    Strlen,
    Abort,
    Panic,
    SxU8,
    SxAscii,
    SxChoose,
    SxAssume,
    SxFail,
    SxCover,
    SxObserve,
    SxForce,
    Nothing,
}

fn classify(name: &str, defined: bool) -> B {
    match name {
        "malloc" => return B::Malloc,
        "calloc" => return B::Calloc,
        "realloc" => return B::Realloc,
        "free" => return B::Free,
        "posix_memalign" => return B::Memalign,
        "bcmp" => return B::Bcmp,
        "memcmp" => return B::Memcmp,
        "strlen" => return B::Strlen,
        "abort" => return B::Abort,
        "sx_u8" => return B::SxU8,
        "sx_ascii" => return B::SxAscii,
        "sx_choose" => return B::SxChoose,
        "sx_assume" => return B::SxAssume,
        "sx_fail" => return B::SxFail,
        "sx_cover" => return B::SxCover,
        "sx_observe" => return B::SxObserve,
        "sx_force" => return B::SxForce,
        "sx_note" | "sx_native" | "sx_job" => return B::Nothing,
        _ => {}
    }
    let has = |s: &str| name.contains(s);
    if has("9panicking9panic_fmt")
        || has("9panicking5panic")
        || has("9panicking18panic_bounds_check")
        || has("9panicking14panic_nounwind")
        || has("9panicking18panic_nounwind_fmt")
        || has("9panicking11panic_const")
        || has("9panicking19assert_failed_inner")
        || has("9panicking11begin_panic")
        || has("rust_begin_unwind")
        || has("18handle_alloc_error")
        || has("17capacity_overflow")
        || has("16slice_error_fail")
    {
        // only the entry points, not Display impls and the like
        if !has("Display3fmt") && !has("12PanicPayload") && !has("8as_str") && !has("4take_box") {
            return B::Panic;
        }
    }
    if has("___rust_alloc_zeroed") || has("__rust_alloc_zeroed") {
        return B::RustAllocZ;
    }
    if has("___rust_dealloc") {
        return B::RustDealloc;
    }
    if has("___rust_realloc") {
        return B::RustRealloc;
    }
    if name.ends_with("___rust_alloc") {
        return B::RustAlloc;
    }
    if has("___rust_no_alloc_shim") {
        return B::Nothing;
    }
    if !defined {
        return B::Extern;
    }
    B::None
}

enum Flow {
    Next,
    Jump, // pc already set
    End(End),
}

#[inline]
fn is_s(v: V) -> bool {
    matches!(v, V::S(_))
}

impl Machine {
    pub fn new(m: &'static Module, cov: *mut u8) -> Machine {
        let n = m.funcs.len();
        let mut builtins = vec![];
        let mut redirect = vec![u32::MAX; n];
        for (i, f) in m.funcs.iter().enumerate() {
            builtins.push(classify(&f.name, f.defined));
            // CPU feature dispatch of the memchr crate: take the SSE2 implementation
            if f.name.ends_with("_raw6detect") {
                let base = &f.name[..f.name.len() - "6detect".len()];
                if let Some(k) = m.funcs.iter().position(|g| g.name.starts_with(base) && g.name.ends_with("9find_sse2")) {
                    redirect[i] = k as u32;
                }
            }
        }
        Machine {
            m,
            x: Exprs::new(),
            s: Solver::new(),
            pool: ConstPool::default(),
            cvals: vec![],
            funcs: vec![None; n],
            builtins,
            redirect,
            globals: vec![None; m.nglobals() as usize + 1],
            cov,
            stack: vec![],
            max_steps: 30_000_000,
            max_depth: 3000,
            forks: 0,
            insts: 0,
            concretized: 0,
            tables: 0,
        }
    }

    pub fn func(&mut self, fi: u32) -> Result<&'static Func, String> {
        if let Some(f) = self.funcs[fi as usize] {
            return Ok(f);
        }
        let f = self.m.decode(fi, &mut self.pool)?;
        let f: &'static Func = Box::leak(Box::new(f));
        while self.cvals.len() < self.pool.vals.len() {
            let (v, w) = self.pool.vals[self.cvals.len()];
            let cv = self.x.cv(v, w);
            self.cvals.push(cv);
        }
        self.funcs[fi as usize] = Some(f);
        Ok(f)
    }

    pub fn initial(&mut self, entry: &str, params: &[u32], job: u32) -> Result<Box<State>, String> {
        let fi = self.m.find_func(entry).ok_or_else(|| format!("no entry point {}", entry))?;
        let f = self.func(fi)?;
        let mut slots = vec![V::C(0); f.nslots as usize];
        for (i, p) in params.iter().enumerate() {
            if i < f.nparams as usize {
                slots[i] = V::C(*p as u64);
            }
        }
        let mut st = Box::new(State {
            fr: Frame { f, pc: f.edges.first().map(|_| 0).unwrap_or(0), slots, call: None },
            up: None,
            depth: 0,
            mem: Mem { chunks: vec![], frames: vec![], next: self.m.dyn_base() },
            pc: vec![],
            model: [b'a'; 128],
            ins: vec![],
            obs: vec![],
            covers: vec![],
            steps: 0,
            job,
            nfork: 0,
        });
        st.mem.frames.push(Some(Rc::new(Obj::new(f.frame_size as usize))));
        self.mark(f, 0);
        Ok(st)
    }

    #[inline]
    fn mark(&self, f: &Func, block: u32) {
        unsafe { *self.cov.add((self.m.funcs[f.id as usize].cov_base + f.block_lines[block as usize]) as usize) = 1 }
    }

    // ---- memory -------------------------------------------------------------------------
    fn global(&mut self, id: u32) -> Result<Rc<Obj>, String> {
        if let Some(o) = &self.globals[id as usize] {
            return Ok(o.clone());
        }
        let data = self.m.global_init(id - 1)?;
        let o = Rc::new(Obj { data, sym: None, ro: self.m.globals[id as usize - 1].konst });
        self.globals[id as usize] = Some(o.clone());
        Ok(o)
    }
    fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> Option<&'a Obj> {
        if id >= FRAME_BASE {
            return st.mem.frames.get((id - FRAME_BASE) as usize).and_then(|o| o.as_deref());
        }
        let c = id as usize / CH;
        if let Some(Some(ch)) = st.mem.chunks.get(c) {
            if let Some(o) = &ch[id as usize % CH] {
                return Some(o);
            }
        }
        if id >= 1 && id <= self.m.nglobals() {
            if self.globals[id as usize].is_none() {
                if self.global(id).is_err() {
                    return None;
                }
            }
            return self.globals[id as usize].as_deref();
        }
        None
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= FRAME_BASE {
            return match st.mem.frames.get_mut((id - FRAME_BASE) as usize) {
                Some(Some(o)) => Some(Rc::make_mut(o)),
                _ => None,
            };
        }
        let c = id as usize / CH;
        let k = id as usize % CH;
        if id >= 1 && id <= self.m.nglobals() {
            let present = matches!(st.mem.chunks.get(c), Some(Some(ch)) if ch[k].is_some());
            if !present {
                let o = self.global(id).ok()?;
                self.put(st, id, Some(o));
            }
        }
        match st.mem.chunks.get_mut(c) {
            Some(Some(ch)) => {
                let ch = Rc::make_mut(ch);
                ch[k].as_mut().map(Rc::make_mut)
            }
            _ => None,
        }
    }
    fn put(&mut self, st: &mut State, id: u32, o: Option<Rc<Obj>>) {
        let c = id as usize / CH;
        if st.mem.chunks.len() <= c {
            st.mem.chunks.resize(c + 1, None);
        }
        if st.mem.chunks[c].is_none() {
            st.mem.chunks[c] = Some(Rc::new(std::array::from_fn(|_| None)));
        }
        let ch = Rc::make_mut(st.mem.chunks[c].as_mut().unwrap());
        ch[id as usize % CH] = o;
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> Option<u64> {
        if size > 1 << 24 {
            return None;
        }
        let id = st.mem.next;
        st.mem.next += 1;
        self.put(st, id, Some(Rc::new(Obj::new(size as usize))));
        Some((id as u64) << 32)
    }
    fn bad(&self, what: &str, addr: u64, n: u64) -> End {
        End::Violation { kind: "memory", code: 0, msg: format!("{} of {} bytes at object {} offset {}", what, n, addr >> 32, addr & 0xffff_ffff) }
    }

    pub fn load(&mut self, st: &State, addr: u64, bits: u32) -> Result<V, End> {
        let n = ((bits + 7) / 8) as usize;
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = match self.obj(st, id) {
            Some(o) if off + n <= o.data.len() => o,
            _ => return Err(self.bad("invalid read", addr, n as u64)),
        };
        let sym = match &o.sym {
            None => None,
            Some(s) => {
                let s = &s[off..off + n];
                if s.iter().all(|b| b.0 == NONE) {
                    None
                } else {
                    Some(s.to_vec())
                }
            }
        };
        let mut buf = [0u8; 16];
        buf[..n].copy_from_slice(&o.data[off..off + n]);
        let v = u128::from_le_bytes(buf);
        match sym {
            None => {
                if bits <= 64 {
                    Ok(V::C(v as u64 & mask64(bits as u8)))
                } else {
                    Ok(self.x.cv(v, bits as u8))
                }
            }
            Some(s) => {
                // whole value?
                let e0 = s[0].0;
                let full = e0 != NONE && s.iter().enumerate().all(|(i, b)| b.0 == e0 && b.1 as usize == i);
                let e = if full && self.x.w(e0) as usize == n * 8 {
                    e0
                } else {
                    let mut acc: Option<E> = None;
                    let mut i = 0;
                    while i < n {
                        // maximal run of the same expression / concrete bytes
                        let (e, k) = s[i];
                        let mut j = i + 1;
                        let part = if e == NONE {
                            while j < n && s[j].0 == NONE {
                                j += 1
                            }
                            let mut v = 0u128;
                            for q in (i..j).rev() {
                                v = v << 8 | buf[q] as u128;
                            }
                            self.x.konst(v, ((j - i) * 8) as u8)
                        } else {
                            while j < n && s[j].0 == e && s[j].1 as usize == k as usize + (j - i) {
                                j += 1
                            }
                            self.x.extract(e, k * 8, ((j - i) * 8) as u8)
                        };
                        acc = Some(match acc {
                            None => part,
                            Some(a) => self.x.concat(part, a),
                        });
                        i = j;
                    }
                    acc.unwrap()
                };
                let e = if bits as usize != n * 8 { self.x.extract(e, 0, bits as u8) } else { e };
                Ok(self.x.val(e))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, v: V, bits: u32) -> Result<(), End> {
        let n = ((bits + 7) / 8) as usize;
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        // wide constants
        let (conc, e) = match v {
            V::C(c) => (Some(c as u128), NONE),
            V::S(e) => match self.x.cval(e) {
                Some(c) => (Some(c), NONE),
                None => (None, if bits as usize != n * 8 { self.x.zext(e, (n * 8) as u8) } else { e }),
            },
        };
        let bad = self.bad("invalid write", addr, n as u64);
        let o = match self.obj_mut(st, id) {
            Some(o) if off + n <= o.data.len() && !o.ro => o,
            _ => return Err(bad),
        };
        match conc {
            Some(c) => {
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for b in &mut s[off..off + n] {
                        b.0 = NONE;
                    }
                }
            }
            None => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(NONE, 0u8); len].into_boxed_slice());
                for i in 0..n {
                    s[off + i] = (e, i as u8);
                }
            }
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), End> {
        if n == 0 {
            return Ok(());
        }
        let so = (s & 0xffff_ffff) as usize;
        let nn = n as usize;
        let bad = self.bad("invalid copy source", s, n);
        let (data, sym) = match self.obj(st, (s >> 32) as u32) {
            Some(o) if n < 1 << 32 && so + nn <= o.data.len() => {
                (o.data[so..so + nn].to_vec(), o.sym.as_ref().map(|y| &y[so..so + nn]).filter(|y| y.iter().any(|b| b.0 != NONE)).map(|y| y.to_vec()))
            }
            _ => return Err(bad),
        };
        let doff = (d & 0xffff_ffff) as usize;
        let bad = self.bad("invalid copy destination", d, n);
        let o = match self.obj_mut(st, (d >> 32) as u32) {
            Some(o) if doff + nn <= o.data.len() && !o.ro => o,
            _ => return Err(bad),
        };
        o.data[doff..doff + nn].copy_from_slice(&data);
        match sym {
            Some(y) => {
                let len = o.data.len();
                let z = o.sym.get_or_insert_with(|| vec![(NONE, 0u8); len].into_boxed_slice());
                z[doff..doff + nn].copy_from_slice(&y);
            }
            None => {
                if let Some(z) = &mut o.sym {
                    for b in &mut z[doff..doff + nn] {
                        b.0 = NONE;
                    }
                }
            }
        }
        Ok(())
    }

    // ---- branching ----------------------------------------------------------------------
    /// Decide a one-bit expression: Some(b) if only one side is feasible (constraint added if
    /// informative), None if both are.
    fn feasible(&mut self, st: &State, e: E) -> Result<(bool, Option<[u8; 128]>), End> {
        // which side does the model take?
        let b = self.x.eval(e, &st.model) != 0;
        let other = if b { self.x.not(e) } else { e };
        // syntactic check
        let this = if b { e } else { self.x.not(e) };
        if st.pc.contains(&this) {
            return Ok((b, None));
        }
        match self.s.check(&mut self.x, &st.pc, other, &st.model) {
            Ok(m) => Ok((b, m)),
            Err(()) => Err(End::Unknown("solver returned unknown".into())),
        }
    }
    fn push_pc(&mut self, st: &mut State, e: E) {
        if self.x.cval(e).is_some() {
            return;
        }
        // split conjunctions
        let n = self.x.nodes[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let k = self.x.nodes[n.a as usize];
            if k.op == Op::Or && k.w == 1 {
                let a = self.x.not(k.a);
                let b = self.x.not(k.b);
                self.push_pc(st, a);
                self.push_pc(st, b);
                return;
            }
        }
        if !st.pc.contains(&e) {
            // drop the bounds on the same term that this one implies
            if let Some((up, t, k)) = self.bound(e) {
                st.pc.retain(|&o| !matches!(self.bound(o), Some((u, s, j)) if u == up && s == t && if up { j >= k } else { j <= k }));
            }
            st.pc.push(e);
        }
    }
    /// `t < k` (true, t, k) or `t >= k` (false, t, k)
    fn bound(&self, e: E) -> Option<(bool, E, u128)> {
        let n = self.x.nodes[e as usize];
        match n.op {
            Op::Ult => Some((true, n.a, self.x.cval(n.b)?)),
            Op::Not => {
                let n = self.x.nodes[n.a as usize];
                if n.op == Op::Ult { Some((false, n.a, self.x.cval(n.b)?)) } else { None }
            }
            _ => None,
        }
    }
    /// Fork on a condition; the current state follows the model's side (returned), the sibling is
    /// handed to `sib` for adjustment and pushed.
    fn fork_on(&mut self, st: &mut State, e: E, sib: impl FnOnce(&mut Machine, &mut State, bool)) -> Result<bool, End> {
        let (b, m) = self.feasible(st, e)?;
        if let Some(model) = m {
            let ne = self.x.not(e);
            let mut o = Box::new(st.clone());
            o.model = model;
            o.nfork += 1;
            let (mine, theirs) = if b { (e, ne) } else { (ne, e) };
            self.push_pc(&mut o, theirs);
            sib(self, &mut o, !b);
            self.stack.push(o);
            self.forks += 1;
            st.nfork += 1;
            self.push_pc(st, mine);
        }
        Ok(b)
    }
    #[inline]
    fn opnd(&self, st: &State, o: Opnd) -> V {
        if o & CONST_BIT != 0 {
            self.cvals[(o & !CONST_BIT) as usize]
        } else {
            st.fr.slots[o as usize]
        }
    }
    /// Concrete value of an operand; forks over all feasible values (the sibling re-executes the
    /// current instruction).
    fn conc(&mut self, st: &mut State, o: Opnd, w: u8) -> Result<u64, End> {
        match self.opnd(st, o) {
            V::C(c) => Ok(c),
            V::S(e) => {
                let k = self.conc_e(st, e, w)?;
                if o & CONST_BIT == 0 {
                    for s in st.fr.slots.iter_mut() {
                        if *s == V::S(e) {
                            *s = V::C(k);
                        }
                    }
                }
                Ok(k)
            }
        }
    }
    fn conc_e(&mut self, st: &mut State, e: E, w: u8) -> Result<u64, End> {
        if let Some(c) = self.x.cval(e) {
            return Ok(c as u64);
        }
        self.concretized += 1;
        let k = self.x.eval(e, &st.model);
        let ke = self.x.konst(k, w);
        let eq = self.x.eq(e, ke);
        self.fork_on(st, eq, |_, _, _| {})?;
        Ok(k as u64)
    }

    fn goto(&mut self, st: &mut State, f: &'static Func, e: u32) {
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, s) = ed.moves[0];
                st.fr.slots[d as usize] = self.opnd(st, s);
            }
            _ => {
                let vals: Vec<V> = ed.moves.iter().map(|(_, s)| self.opnd(st, *s)).collect();
                for (i, (d, _)) in ed.moves.iter().enumerate() {
                    st.fr.slots[*d as usize] = vals[i];
                }
            }
        }
        st.fr.pc = ed.pc;
        self.mark(f, ed.target);
    }

    // ---- main loop ----------------------------------------------------------------------
    pub fn run(&mut self, st: &mut State) -> End {
        self.x.new_epoch();
        let mut n = 0u64;
        let r = loop {
            if n & 0xfff == 0xfff && st.steps + n > self.max_steps {
                break End::Violation { kind: "hang", code: 0, msg: format!("more than {} instructions on one path", self.max_steps) };
            }
            n += 1;
            let f = st.fr.f;
            let i = &f.code[st.fr.pc as usize];
            match self.step(st, f, i) {
                Flow::Next => st.fr.pc += 1,
                Flow::Jump => {}
                Flow::End(e) => break e,
            }
        };
        st.steps += n;
        self.insts += n;
        r
    }

    #[inline(always)]
    fn step(&mut self, st: &mut State, f: &'static Func, i: &'static I) -> Flow {
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return Flow::End(e),
                }
            };
        }
        match i {
            I::Bin { op, w, d, a, b } => {
                let (x, y) = (self.opnd(st, *a), self.opnd(st, *b));
                let r = match (x, y) {
                    (V::C(x), V::C(y)) if *w <= 64 => {
                        let w = *w;
                        let m = mask64(w);
                        V::C(match op {
                            BinOp::Add => x.wrapping_add(y) & m,
                            BinOp::Sub => x.wrapping_sub(y) & m,
                            BinOp::And => x & y,
                            BinOp::Or => x | y,
                            BinOp::Xor => x ^ y,
                            BinOp::Mul => x.wrapping_mul(y) & m,
                            BinOp::Shl if y < w as u64 => x << y & m,
                            BinOp::LShr if y < w as u64 => x >> y,
                            BinOp::UMin => x.min(y),
                            BinOp::UMax => x.max(y),
                            _ => {
                                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && y == 0 {
                                    return Flow::End(End::Violation { kind: "memory", code: 0, msg: "division by zero".into() });
                                }
                                bin_const(*op, w, x as u128, y as u128) as u64
                            }
                        })
                    }
                    _ => {
                        let (ex, ey) = (self.x.ex(x, *w), self.x.ex(y, *w));
                        let e = self.x.bin(*op, *w, ex, ey);
                        self.x.val(e)
                    }
                };
                st.fr.slots[*d as usize] = r;
                Flow::Next
            }
            I::Cmp { p, w, d, a, b } => {
                let (x, y) = (self.opnd(st, *a), self.opnd(st, *b));
                let r = match (x, y) {
                    (V::C(x), V::C(y)) => {
                        let s = |v: u64| ((v << (64 - *w as u32)) as i64) >> (64 - *w as u32);
                        V::C(match p {
                            Pred::Eq => x == y,
                            Pred::Ne => x != y,
                            Pred::Ult => x < y,
                            Pred::Ule => x <= y,
                            Pred::Ugt => x > y,
                            Pred::Uge => x >= y,
                            Pred::Slt => s(x) < s(y),
                            Pred::Sle => s(x) <= s(y),
                            Pred::Sgt => s(x) > s(y),
                            Pred::Sge => s(x) >= s(y),
                        } as u64)
                    }
                    _ => {
                        let (ex, ey) = (self.x.ex(x, *w), self.x.ex(y, *w));
                        let x = &mut self.x;
                        let e = match p {
                            Pred::Eq => x.eq(ex, ey),
                            Pred::Ne => { let t = x.eq(ex, ey); x.not(t) }
                            Pred::Ult => x.ult(ex, ey),
                            Pred::Ule => { let t = x.ult(ey, ex); x.not(t) }
                            Pred::Ugt => x.ult(ey, ex),
                            Pred::Uge => { let t = x.ult(ex, ey); x.not(t) }
                            Pred::Slt => x.slt(ex, ey),
                            Pred::Sle => { let t = x.slt(ey, ex); x.not(t) }
                            Pred::Sgt => x.slt(ey, ex),
                            Pred::Sge => { let t = x.slt(ex, ey); x.not(t) }
                        };
                        x.val(e)
                    }
                };
                st.fr.slots[*d as usize] = r;
                Flow::Next
            }
            I::Load { d, a, bits } => {
                let va = self.opnd(st, *a);
                if let V::S(e) = va {
                    if let Some(v) = tri!(self.table_load(st, e, *bits as u32)) {
                        st.fr.slots[*d as usize] = v;
                        return Flow::Next;
                    }
                }
                let addr = tri!(self.conc(st, *a, 64));
                let v = tri!(self.load(st, addr, *bits as u32));
                st.fr.slots[*d as usize] = v;
                Flow::Next
            }
            I::Store { a, v, bits } => {
                let addr = tri!(self.conc(st, *a, 64));
                let v = self.opnd(st, *v);
                tri!(self.store(st, addr, v, *bits as u32));
                Flow::Next
            }
            I::GepC { d, a, off } => {
                let r = match self.opnd(st, *a) {
                    V::C(x) => V::C(x.wrapping_add(*off)),
                    V::S(e) => {
                        let k = self.x.konst(*off as u128, 64);
                        let e = self.x.bin(BinOp::Add, 64, e, k);
                        self.x.val(e)
                    }
                };
                st.fr.slots[*d as usize] = r;
                Flow::Next
            }
            I::Gep { d, a, off, idx } => {
                let mut acc = self.opnd(st, *a);
                if let V::C(c) = acc {
                    acc = V::C(c.wrapping_add(*off));
                } else if let V::S(e) = acc {
                    let k = self.x.konst(*off as u128, 64);
                    let e = self.x.bin(BinOp::Add, 64, e, k);
                    acc = self.x.val(e);
                }
                for (o, scale, w) in idx.iter() {
                    let v = self.opnd(st, *o);
                    acc = match (acc, v) {
                        (V::C(x), V::C(y)) => {
                            let sh = 64 - *w as u32;
                            let y = (((y << sh) as i64) >> sh) as u64;
                            V::C(x.wrapping_add(y.wrapping_mul(*scale)))
                        }
                        (x, y) => {
                            let ey = self.x.ex(y, *w);
                            let ey = if *w < 64 { self.x.sext(ey, 64) } else { ey };
                            let k = self.x.konst(*scale as u128, 64);
                            let t = self.x.bin(BinOp::Mul, 64, ey, k);
                            let ex = self.x.ex(x, 64);
                            let e = self.x.bin(BinOp::Add, 64, ex, t);
                            self.x.val(e)
                        }
                    };
                }
                st.fr.slots[*d as usize] = acc;
                Flow::Next
            }
            I::Mov { d, a } => {
                st.fr.slots[*d as usize] = self.opnd(st, *a);
                Flow::Next
            }
            I::MovN { d, a } => {
                for (k, o) in a.iter().enumerate() {
                    st.fr.slots[*d as usize + k] = self.opnd(st, *o);
                }
                Flow::Next
            }
            I::Cast { op, fw, tw, d, a } => {
                let r = match self.opnd(st, *a) {
                    V::C(x) if *tw <= 64 => V::C(match op {
                        CastOp::Trunc => x & mask64(*tw),
                        CastOp::ZExt => x,
                        CastOp::SExt => {
                            let sh = 64 - *fw as u32;
                            (((x << sh) as i64) >> sh) as u64 & mask64(*tw)
                        }
                    }),
                    v => {
                        let e = self.x.ex(v, *fw);
                        let e = match op {
                            CastOp::Trunc => self.x.extract(e, 0, *tw),
                            CastOp::ZExt => self.x.zext(e, *tw),
                            CastOp::SExt => self.x.sext(e, *tw),
                        };
                        self.x.val(e)
                    }
                };
                st.fr.slots[*d as usize] = r;
                Flow::Next
            }
            I::Fp { op, fw, tw, d, a, b } => {
                let (va, vb) = (self.opnd(st, *a), self.opnd(st, *b));
                let plain = *tw <= 64 && *fw <= 64 && !matches!(op, FpOp::ToU | FpOp::ToS);
                if plain && (is_s(va) || is_s(vb)) {
                    let (ea, eb) = (self.x.ex(va, *fw), self.x.ex(vb, *fw));
                    let r = self.x.fp_op(*op, *fw, *tw, ea, eb);
                    st.fr.slots[*d as usize] = self.x.val(r);
                    return Flow::Next;
                }
                let x = tri!(self.conc(st, *a, *fw));
                let y = tri!(self.conc(st, *b, *fw));
                match fp(*op, *fw, *tw, x, y) {
                    Some(v) => st.fr.slots[*d as usize] = V::C(v),
                    None => return Flow::End(End::Unknown("floating-point operation".into())),
                }
                Flow::Next
            }
            I::Sel { d, c, a, b, ws, .. } => {
                let r = match self.opnd(st, *c) {
                    V::C(k) => self.opnd(st, if k != 0 { *a } else { *b }),
                    V::S(e) => {
                        let (x, y) = (self.opnd(st, *a), self.opnd(st, *b));
                        if x == y {
                            x
                        } else if ws[0] == 64 {
                            let dd = *d as usize;
                            let t = tri!(self.fork_on(st, e, |_, o, side| {
                                o.fr.slots[dd] = if side { x } else { y };
                                o.fr.pc += 1;
                            }));
                            if t { x } else { y }
                        } else {
                            let w = ws[0];
                            let (ex, ey) = (self.x.ex(x, w), self.x.ex(y, w));
                            let e = self.x.ite(e, ex, ey);
                            self.x.val(e)
                        }
                    }
                };
                st.fr.slots[*d as usize] = r;
                Flow::Next
            }
            I::Br { e } => {
                self.goto(st, f, *e);
                Flow::Jump
            }
            I::CondBr { c, t, f: fe } => {
                let side = match self.opnd(st, *c) {
                    V::C(k) => k != 0,
                    V::S(e) => {
                        let (te, fe) = (*t, *fe);
                        tri!(self.fork_on(st, e, |m, o, side| m.goto(o, f, if side { te } else { fe })))
                    }
                };
                self.goto(st, f, if side { *t } else { *fe });
                Flow::Jump
            }
            I::Switch { v, w, cases, def } => {
                match self.opnd(st, *v) {
                    V::C(k) => {
                        let e = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, f, e);
                    }
                    V::S(ex) => {
                        // group the cases by destination
                        let mut groups: Vec<(u32, E)> = vec![];
                        for (k, e) in cases.iter() {
                            let ke = self.x.konst(*k as u128, *w);
                            let q = self.x.eq(ex, ke);
                            let ed = &f.edges[*e as usize];
                            if let Some(g) = groups.iter_mut().find(|g| {
                                let o = &f.edges[g.0 as usize];
                                o.target == ed.target && o.moves == ed.moves
                            }) {
                                g.1 = self.x.orb(g.1, q);
                            } else {
                                groups.push((*e, q));
                            }
                        }
                        // the model's group first
                        let mut mine = *def;
                        let mut mine_c = NONE;
                        for (e, c) in &groups {
                            if self.x.eval(*c, &st.model) != 0 {
                                mine = *e;
                                mine_c = *c;
                            }
                        }
                        let mut rest: Vec<(u32, E)> = vec![];
                        let mut none = self.x.konst(1, 1);
                        for (e, c) in &groups {
                            let n = self.x.not(*c);
                            none = self.x.andb(none, n);
                            if *e != mine {
                                rest.push((*e, *c));
                            }
                        }
                        if mine != *def || mine_c != NONE {
                            rest.push((*def, none));
                        } else {
                            mine_c = none;
                        }
                        let mut forked = false;
                        for (e, c) in rest {
                            match self.s.check(&mut self.x, &st.pc, c, &st.model) {
                                Err(()) => return Flow::End(End::Unknown("solver returned unknown".into())),
                                Ok(None) => {}
                                Ok(Some(model)) => {
                                    let mut o = Box::new(st.clone());
                                    o.model = model;
                                    o.nfork += 1;
                                    self.push_pc(&mut o, c);
                                    self.goto(&mut o, f, e);
                                    self.stack.push(o);
                                    self.forks += 1;
                                    forked = true;
                                }
                            }
                        }
                        if forked {
                            st.nfork += 1;
                            self.push_pc(st, mine_c);
                        }
                        self.goto(st, f, mine);
                    }
                }
                Flow::Jump
            }
            I::Alloca { d, off } => {
                st.fr.slots[*d as usize] = V::C(((FRAME_BASE + st.depth) as u64) << 32 | *off as u64);
                Flow::Next
            }
            I::Ret { v } => {
                let vals: [V; 1];
                let many: Vec<V>;
                let rv: &[V] = if v.len() == 1 {
                    vals = [self.opnd(st, v[0])];
                    &vals
                } else if v.is_empty() {
                    &[]
                } else {
                    many = v.iter().map(|o| self.opnd(st, *o)).collect();
                    &many
                };
                let up = match st.up.take() {
                    None => return Flow::End(End::Ok),
                    Some(u) => u,
                };
                st.mem.frames.pop();
                st.depth -= 1;
                let (frame, upup) = match Rc::try_unwrap(up) {
                    Ok(c) => (c.frame, c.up),
                    Err(rc) => (rc.frame.clone(), rc.up.clone()),
                };
                let call = st.fr.call;
                st.fr = frame;
                st.up = upup;
                let c = call.unwrap();
                for (k, v) in rv.iter().enumerate() {
                    if c.dst != u32::MAX && (k as u32) < c.nret {
                        st.fr.slots[c.dst as usize + k] = *v;
                    }
                }
                match c.normal {
                    Some(e) => {
                        let ff = st.fr.f;
                        self.goto(st, ff, e);
                        Flow::Jump
                    }
                    None => Flow::Next,
                }
            }
            I::LoadN { d, a, leaves } => {
                let addr = tri!(self.conc(st, *a, 64));
                for (k, (o, b)) in leaves.iter().enumerate() {
                    let v = tri!(self.load(st, addr + o, *b));
                    st.fr.slots[*d as usize + k] = v;
                }
                Flow::Next
            }
            I::StoreN { a, v, leaves } => {
                let addr = tri!(self.conc(st, *a, 64));
                for (k, (o, b)) in leaves.iter().enumerate() {
                    let x = self.opnd(st, v[k]);
                    tri!(self.store(st, addr + o, x, *b));
                }
                Flow::Next
            }
            I::Call(c) => self.call(st, c),
            I::VecToInt { d, a, w } => {
                let mut acc: Option<E> = None;
                for o in a.iter() {
                    let v = self.opnd(st, *o);
                    let e = self.x.ex(v, *w);
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.x.concat(e, l),
                    });
                }
                st.fr.slots[*d as usize] = self.x.val(acc.unwrap());
                Flow::Next
            }
            I::IntToVec { d, a, n, w, fw } => {
                let v = self.opnd(st, *a);
                let e = self.x.ex(v, *fw);
                for k in 0..*n {
                    let p = self.x.extract(e, (k * *w as u32) as u8, *w);
                    st.fr.slots[(*d + k) as usize] = self.x.val(p);
                }
                Flow::Next
            }
            I::Rmw { op, d, a, v, w } => {
                let addr = tri!(self.conc(st, *a, 64));
                let old = tri!(self.load(st, addr, *w as u32));
                let val = self.opnd(st, *v);
                let (eo, ev) = (self.x.ex(old, *w), self.x.ex(val, *w));
                let r = match op {
                    0 => ev,
                    1 => self.x.bin(BinOp::Add, *w, eo, ev),
                    2 => self.x.bin(BinOp::Sub, *w, eo, ev),
                    3 => self.x.bin(BinOp::And, *w, eo, ev),
                    4 => self.x.bin(BinOp::Or, *w, eo, ev),
                    _ => self.x.bin(BinOp::Xor, *w, eo, ev),
                };
                let r = self.x.val(r);
                tri!(self.store(st, addr, r, *w as u32));
                st.fr.slots[*d as usize] = old;
                Flow::Next
            }
            I::CmpXchg { d, a, e, n, w } => {
                let addr = tri!(self.conc(st, *a, 64));
                let old = tri!(self.load(st, addr, *w as u32));
                let exp = self.opnd(st, *e);
                match (old, exp) {
                    (V::C(x), V::C(y)) => {
                        if x == y {
                            let nv = self.opnd(st, *n);
                            tri!(self.store(st, addr, nv, *w as u32));
                        }
                        st.fr.slots[*d as usize] = old;
                        st.fr.slots[*d as usize + 1] = V::C((x == y) as u64);
                        Flow::Next
                    }
                    _ => Flow::End(End::Unknown("symbolic cmpxchg".into())),
                }
            }
            I::Unreachable => Flow::End(End::Violation { kind: "memory", code: 0, msg: format!("unreachable code reached in {}", f.name) }),
            I::Nop => Flow::Next,
            I::Unsup(s) => Flow::End(End::Unknown(format!("unsupported instruction: {} in {}", s, f.name))),
        }
    }

    /// Load from a read-only object at a symbolic address, as an if-then-else over its contents.
    fn table_load(&mut self, st: &mut State, e: E, bits: u32) -> Result<Option<V>, End> {
        if bits > 64 || bits % 8 != 0 {
            return Ok(None);
        }
        let k = self.x.eval(e, &st.model) as u64;
        let id = (k >> 32) as u32;
        let n = (bits / 8) as u64;
        let (size, ro, data) = match self.obj(st, id) {
            Some(o) => (o.data.len() as u64, o.ro, if o.ro && o.data.len() <= 2048 { o.data.clone() } else { vec![] }),
            None => return Ok(None),
        };
        if !ro || data.is_empty() || size < n || id as u32 > self.m.nglobals() {
            return Ok(None);
        }
        let base = (id as u64) << 32;
        let b = self.x.konst(base as u128, 64);
        let off = self.x.bin(BinOp::Sub, 64, e, b);
        let lim = self.x.konst((size - n + 1) as u128, 64);
        let inb = self.x.ult(off, lim);
        let am = self.x.konst((n - 1) as u128, 64);
        let low = self.x.bin(BinOp::And, 64, off, am);
        let z = self.x.konst(0, 64);
        let al = self.x.eq(low, z);
        let ok = self.x.andb(inb, al);
        let nok = self.x.not(ok);
        match self.s.check(&mut self.x, &st.pc, nok, &st.model) {
            Ok(None) => {}
            Ok(Some(_)) => return Ok(None),
            Err(()) => return Err(End::Unknown("solver returned unknown".into())),
        }
        self.tables += 1;
        let at = |i: u64| {
            let mut v = 0u64;
            for q in (0..n).rev() {
                v = v << 8 | data[(i + q) as usize] as u64;
            }
            v
        };
        // only the entries within the bounds of the offset
        let (from, to) = self.s.interval(&self.x, &st.pc, off);
        let size = size.min((to as u64).saturating_add(n));
        let from = from as u64 / n * n;
        if from + n > size {
            return Err(End::Unknown("contradictory bounds".into()));
        }
        // few offsets: fork on them instead
        if (size - from) / n <= 3 && data.len() > 100 || size - from > 64 * n.min(4) && self.x.leaves(off, 8) {
            return Ok(None);
        }
        // runs of equal values
        let mut runs: Vec<(u64, u64)> = vec![]; // (end exclusive, value)
        let mut i = from;
        while i + n <= size {
            let v = at(i);
            match runs.last_mut() {
                Some(r) if r.1 == v => r.0 = i + n,
                _ => runs.push((i + n, v)),
            }
            i += n;
        }
        if runs.len() > 200 {
            return Ok(None);
        }
        let w = bits as u8;
        let mut acc = self.x.konst(runs.last().unwrap().1 as u128, w);
        for r in runs.iter().rev().skip(1) {
            let l = self.x.konst(r.0 as u128, 64);
            let c = self.x.ult(off, l);
            let v = self.x.konst(r.1 as u128, w);
            acc = self.x.ite(c, v, acc);
        }
        Ok(Some(self.x.val(acc)))
    }

    fn call(&mut self, st: &mut State, c: &'static Call) -> Flow {
        let fi = match &c.callee {
            Callee::Func(fi) => *fi,
            Callee::Intr(i, _) => return self.intrinsic(st, c, *i),
            Callee::Ind(o) => {
                let a = match self.conc(st, *o, 64) {
                    Ok(a) => a,
                    Err(e) => return Flow::End(e),
                };
                if a & 0xffff_ffff != 0 {
                    return Flow::End(self.bad("call through invalid pointer", a, 0));
                }
                match self.m.func_of_sym((a >> 32) as u32) {
                    Some(f) => f,
                    None => return Flow::End(self.bad("call through invalid pointer", a, 0)),
                }
            }
        };
        let mut fi = fi;
        if self.redirect[fi as usize] != u32::MAX {
            fi = self.redirect[fi as usize];
        }
        let b = self.builtins[fi as usize];
        if b != B::None {
            return self.builtin(st, c, b, fi);
        }
        let f = match self.func(fi) {
            Ok(f) => f,
            Err(e) => return Flow::End(End::Unknown(format!("cannot decode {}: {}", self.m.funcs[fi as usize].name, e))),
        };
        if st.depth >= self.max_depth {
            return Flow::End(End::Violation { kind: "recursion", code: 0, msg: format!("call depth above {}", self.max_depth) });
        }
        let mut slots = vec![V::C(0); f.nslots as usize];
        if c.args.len() != f.nparams as usize {
            return Flow::End(End::Unknown(format!("argument count mismatch calling {}", f.name)));
        }
        for (k, (o, _)) in c.args.iter().enumerate() {
            slots[k] = self.opnd(st, *o);
        }
        st.mem.frames.push(Some(Rc::new(Obj::new(f.frame_size as usize))));
        st.depth += 1;
        let nf = Frame { f, pc: 0, slots, call: Some(c) };
        let old = std::mem::replace(&mut st.fr, nf);
        let up = st.up.take();
        st.up = Some(Rc::new(Caller { frame: old, up }));
        self.mark(f, 0);
        Flow::Jump
    }

    fn ret(&mut self, st: &mut State, c: &'static Call, v: V) -> Flow {
        if c.dst != u32::MAX {
            st.fr.slots[c.dst as usize] = v;
        }
        match c.normal {
            Some(e) => {
                let f = st.fr.f;
                self.goto(st, f, e);
                Flow::Jump
            }
            None => Flow::Next,
        }
    }

    fn builtin(&mut self, st: &mut State, c: &'static Call, b: B, fi: u32) -> Flow {
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return Flow::End(e),
                }
            };
        }
        macro_rules! arg {
            ($i:expr) => {
                tri!(self.conc(st, c.args[$i].0, c.args[$i].1))
            };
        }
        let oom = || Flow::End(End::Violation { kind: "hang", code: 0, msg: "allocation above 16 MiB".into() });
        match b {
            B::Malloc | B::RustAlloc | B::RustAllocZ => {
                let n = arg!(0);
                match self.alloc(st, n) {
                    Some(a) => self.ret(st, c, V::C(a)),
                    None => oom(),
                }
            }
            B::Calloc => {
                let n = arg!(0).saturating_mul(arg!(1));
                match self.alloc(st, n) {
                    Some(a) => self.ret(st, c, V::C(a)),
                    None => oom(),
                }
            }
            B::Memalign => {
                let p = arg!(0);
                let n = arg!(2);
                match self.alloc(st, n) {
                    Some(a) => {
                        tri!(self.store(st, p, V::C(a), 64));
                        self.ret(st, c, V::C(0))
                    }
                    None => oom(),
                }
            }
            B::Realloc | B::RustRealloc => {
                let p = arg!(0);
                let n = if b == B::Realloc { arg!(1) } else { arg!(3) };
                let a = match self.alloc(st, n) {
                    Some(a) => a,
                    None => return oom(),
                };
                if p != 0 {
                    let old = match self.obj(st, (p >> 32) as u32) {
                        Some(o) if p & 0xffff_ffff == 0 => o.data.len() as u64,
                        _ => return Flow::End(self.bad("invalid realloc", p, n)),
                    };
                    tri!(self.memcpy(st, a, p, old.min(n)));
                    self.put(st, (p >> 32) as u32, None);
                }
                self.ret(st, c, V::C(a))
            }
            B::Free | B::RustDealloc => {
                let p = arg!(0);
                if p != 0 {
                    let id = (p >> 32) as u32;
                    if p & 0xffff_ffff != 0 || id < self.m.dyn_base() || id >= FRAME_BASE || self.obj(st, id).is_none() {
                        return Flow::End(self.bad("invalid free", p, 0));
                    }
                    self.put(st, id, None);
                }
                self.ret(st, c, V::C(0))
            }
            B::Bcmp | B::Memcmp => {
                let (p, q, n) = (arg!(0), arg!(1), arg!(2));
                if n > 4096 {
                    return Flow::End(End::Unknown("large memcmp".into()));
                }
                let mut acc = if b == B::Bcmp { V::C(1) } else { V::C(0) };
                if b == B::Bcmp {
                    let mut eq = self.x.konst(1, 1);
                    for i in 0..n {
                        let (x, y) = (tri!(self.load(st, p + i, 8)), tri!(self.load(st, q + i, 8)));
                        match (x, y) {
                            (V::C(x), V::C(y)) => {
                                if x != y {
                                    eq = self.x.konst(0, 1);
                                    break;
                                }
                            }
                            _ => {
                                let (ex, ey) = (self.x.ex(x, 8), self.x.ex(y, 8));
                                let e = self.x.eq(ex, ey);
                                eq = self.x.andb(eq, e);
                            }
                        }
                    }
                    let ne = self.x.not(eq);
                    let r = self.x.zext(ne, 32);
                    acc = self.x.val(r);
                    let _ = acc;
                } else {
                    for i in (0..n).rev() {
                        let (x, y) = (tri!(self.load(st, p + i, 8)), tri!(self.load(st, q + i, 8)));
                        match (x, y) {
                            (V::C(x), V::C(y)) => {
                                if x != y {
                                    acc = V::C((if x < y { -1i32 } else { 1 }) as u32 as u64);
                                }
                            }
                            _ => {
                                let (ex, ey) = (self.x.ex(x, 8), self.x.ex(y, 8));
                                let (zx, zy) = (self.x.zext(ex, 32), self.x.zext(ey, 32));
                                let d = self.x.bin(BinOp::Sub, 32, zx, zy);
                                let eq = self.x.eq(ex, ey);
                                let ea = self.x.ex(acc, 32);
                                let r = self.x.ite(eq, ea, d);
                                acc = self.x.val(r);
                            }
                        }
                    }
                }
                self.ret(st, c, acc)
            }
            B::Strlen => {
                let p = arg!(0);
                let mut n = 0;
                loop {
                    match tri!(self.load(st, p + n, 8)) {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        _ => return Flow::End(End::Unknown("symbolic strlen".into())),
                    }
                }
                self.ret(st, c, V::C(n))
            }
            B::Abort => Flow::End(End::Violation { kind: "panic", code: 0, msg: "abort".into() }),
            B::Panic => {
                let msg = self.panic_msg(st, c, fi);
                Flow::End(End::Violation { kind: "panic", code: 0, msg })
            }
            B::SxU8 | B::SxAscii => {
                let i = st.ins.len() as u32;
                if i >= 128 {
                    return Flow::End(End::Unknown("too many symbolic inputs".into()));
                }
                let v = self.x.var(i);
                let v = if b == B::SxAscii {
                    st.ins.push(In::Ascii);
                    let t = self.x.extract(v, 0, 7);
                    self.x.zext(t, 8)
                } else {
                    st.ins.push(In::U8);
                    v
                };
                self.ret(st, c, V::S(v))
            }
            B::SxChoose => {
                // one successor per value
                let n = arg!(0);
                let i = st.ins.len() as u32;
                if n == 0 || n > 255 || i >= 128 {
                    return Flow::End(End::Unknown("sx_choose".into()));
                }
                st.ins.push(In::Choose(n as u8));
                let v = self.x.var(i);
                for k in (0..n).rev() {
                    let kk = self.x.konst(k as u128, 8);
                    let q = self.x.eq(v, kk);
                    if k == 0 {
                        st.model[i as usize] = 0;
                        self.x.new_epoch();
                        st.pc.push(q);
                        st.nfork += 1;
                        return self.ret(st, c, V::C(0));
                    }
                    let mut o = Box::new(st.clone());
                    o.model[i as usize] = k as u8;
                    o.pc.push(q);
                    o.nfork += 1;
                    match self.ret(&mut o, c, V::C(k)) {
                        Flow::Next => o.fr.pc += 1,
                        _ => {}
                    }
                    self.forks += 1;
                    self.stack.push(o);
                }
                unreachable!()
            }
            B::SxAssume => {
                match self.opnd(st, c.args[0].0) {
                    V::C(k) => {
                        if k & 1 == 0 {
                            return Flow::End(End::Infeasible);
                        }
                    }
                    V::S(e) => {
                        let e = if self.x.w(e) > 1 { self.x.extract(e, 0, 1) } else { e };
                        if self.x.eval(e, &st.model) == 0 {
                            match self.s.check(&mut self.x, &st.pc, e, &st.model) {
                                Ok(None) => return Flow::End(End::Infeasible),
                                Ok(Some(m)) => {
                                    st.model = m;
                                    self.x.new_epoch();
                                }
                                Err(()) => return Flow::End(End::Unknown("solver returned unknown".into())),
                            }
                        }
                        self.push_pc(st, e);
                    }
                }
                self.ret(st, c, V::C(0))
            }
            B::SxFail => {
                let k = arg!(0);
                Flow::End(End::Violation { kind: "assertion", code: k as u32, msg: format!("check {} failed", k) })
            }
            B::SxCover => {
                let k = arg!(0) as u16;
                if !st.covers.contains(&k) {
                    st.covers.push(k);
                }
                self.ret(st, c, V::C(0))
            }
            B::SxObserve => {
                let v = self.opnd(st, c.args[0].0);
                st.obs.push(v);
                self.ret(st, c, V::C(0))
            }
            B::SxForce => {
                let v = arg!(0);
                self.ret(st, c, V::C(v))
            }
            B::Nothing => self.ret(st, c, V::C(0)),
            B::Extern => Flow::End(End::Unknown(format!("call of external function {}", self.m.funcs[fi as usize].name))),
            B::None => unreachable!(),
        }
    }

    fn read_str(&mut self, st: &State, p: u64, n: u64) -> Option<String> {
        if n > 4096 {
            return None;
        }
        let o = self.obj(st, (p >> 32) as u32)?;
        let off = (p & 0xffff_ffff) as usize;
        let s = o.data.get(off..off + n as usize)?;
        Some(String::from_utf8_lossy(s).into_owned())
    }
    fn panic_msg(&mut self, st: &mut State, c: &Call, fi: u32) -> String {
        let mut msg = self.m.funcs[fi as usize].name.clone();
        if let Some(p) = msg.find("9panicking") {
            msg = msg[p + 10..].to_string();
        }
        // core::panic::Location { file: &str, line: u32, col: u32, .. } is the last pointer argument
        for (o, w) in c.args.iter().rev() {
            if *w != 64 {
                continue;
            }
            if let V::C(p) = self.opnd(st, *o) {
                let id = (p >> 32) as u32;
                if id == 0 || id > self.m.nglobals() {
                    continue;
                }
                if let (Ok(V::C(f)), Ok(V::C(n)), Ok(V::C(l)), Ok(V::C(cc))) =
                    (self.load(st, p, 64), self.load(st, p + 8, 64), self.load(st, p + 16, 32), self.load(st, p + 20, 32))
                {
                    if let Some(s) = self.read_str(st, f, n) {
                        if s.ends_with(".rs") {
                            msg = format!("{} at {}:{}:{}", msg, s, l, cc);
                            break;
                        }
                    }
                }
            }
        }
        msg
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        let mut push = |f: &Frame| v.push(f.f.name.clone());
        push(&st.fr);
        let mut u = &st.up;
        while let Some(c) = u {
            push(&c.frame);
            u = &c.up;
        }
        v.truncate(25);
        v
    }

    fn intrinsic(&mut self, st: &mut State, c: &'static Call, i: Intr) -> Flow {
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return Flow::End(e),
                }
            };
        }
        let w = c.args.first().map(|a| a.1).unwrap_or(0);
        match i {
            Intr::Memcpy => {
                let n = tri!(self.conc(st, c.args[2].0, c.args[2].1));
                if n != 0 {
                    let d = tri!(self.conc(st, c.args[0].0, 64));
                    let s = tri!(self.conc(st, c.args[1].0, 64));
                    tri!(self.memcpy(st, d, s, n));
                }
                self.ret(st, c, V::C(0))
            }
            Intr::Memset => {
                let n = tri!(self.conc(st, c.args[2].0, c.args[2].1));
                if n != 0 {
                    let d = tri!(self.conc(st, c.args[0].0, 64));
                    let v = self.opnd(st, c.args[1].0);
                    if n > 1 << 24 {
                        return Flow::End(self.bad("memset", d, n));
                    }
                    for k in 0..n {
                        tri!(self.store(st, d + k, v, 8));
                    }
                }
                self.ret(st, c, V::C(0))
            }
            Intr::Trap => Flow::End(End::Violation { kind: "panic", code: 0, msg: "trap".into() }),
            Intr::IsConst => self.ret(st, c, V::C(0)),
            Intr::TlsAddr => {
                let v = self.opnd(st, c.args[0].0);
                self.ret(st, c, v)
            }
            Intr::LoadRel => {
                let b = tri!(self.conc(st, c.args[0].0, 64));
                let o = tri!(self.conc(st, c.args[1].0, c.args[1].1));
                match self.load(st, b.wrapping_add(o), 32) {
                    Ok(V::C(k)) => self.ret(st, c, V::C(b.wrapping_add((k as u64) << 32))),
                    Ok(_) => Flow::End(End::Unknown("symbolic load.relative".into())),
                    Err(e) => Flow::End(e),
                }
            }
            _ => {
                let a0 = self.opnd(st, c.args[0].0);
                let a = self.x.ex(a0, w);
                let b = if c.args.len() > 1 {
                    let v = self.opnd(st, c.args[1].0);
                    self.x.ex(v, c.args[1].1)
                } else {
                    a
                };
                let x = &mut self.x;
                let mut r2 = None;
                let r = match i {
                    Intr::UAddOv => {
                        let s = x.bin(BinOp::Add, w, a, b);
                        r2 = Some(x.ult(s, a));
                        s
                    }
                    Intr::USubOv => {
                        let s = x.bin(BinOp::Sub, w, a, b);
                        r2 = Some(x.ult(a, b));
                        s
                    }
                    Intr::UMulOv | Intr::SMulOv | Intr::SAddOv | Intr::SSubOv => {
                        let s = matches!(i, Intr::SMulOv | Intr::SAddOv | Intr::SSubOv);
                        if w <= 64 {
                            let w2 = w * 2;
                            let (xa, xb) = if s { (x.sext(a, w2), x.sext(b, w2)) } else { (x.zext(a, w2), x.zext(b, w2)) };
                            let op = match i {
                                Intr::SAddOv => BinOp::Add,
                                Intr::SSubOv => BinOp::Sub,
                                _ => BinOp::Mul,
                            };
                            let p = x.bin(op, w2, xa, xb);
                            let lo = x.extract(p, 0, w);
                            let back = if s { x.sext(lo, w2) } else { x.zext(lo, w2) };
                            let q = x.eq(back, p);
                            r2 = Some(x.not(q));
                            lo
                        } else if let (Some(p), Some(q)) = (x.cval(a), x.cval(b)) {
                            let (v, o) = match i {
                                Intr::UMulOv => p.overflowing_mul(q),
                                Intr::SMulOv => {
                                    let (v, o) = (p as i128).overflowing_mul(q as i128);
                                    (v as u128, o)
                                }
                                Intr::SAddOv => {
                                    let (v, o) = (p as i128).overflowing_add(q as i128);
                                    (v as u128, o)
                                }
                                _ => {
                                    let (v, o) = (p as i128).overflowing_sub(q as i128);
                                    (v as u128, o)
                                }
                            };
                            r2 = Some(x.konst(o as u128, 1));
                            x.konst(v, w)
                        } else if let (Intr::UMulOv, Some(q)) = (i, x.cval(b)) {
                            let lim = x.konst(if q == 0 { u128::MAX } else { u128::MAX / q }, w);
                            r2 = Some(x.ult(lim, a));
                            x.bin(BinOp::Mul, w, a, b)
                        } else if let Intr::SAddOv | Intr::SSubOv = i {
                            // sign arithmetic
                            let op = if i == Intr::SAddOv { BinOp::Add } else { BinOp::Sub };
                            let s = x.bin(op, w, a, b);
                            let sa = x.extract(a, w - 1, 1);
                            let sb = x.extract(b, w - 1, 1);
                            let ss = x.extract(s, w - 1, 1);
                            let same = x.eq(sa, sb);
                            let cond = if i == Intr::SAddOv { same } else { x.not(same) };
                            let ch = x.eq(ss, sa);
                            let ch = x.not(ch);
                            r2 = Some(x.andb(cond, ch));
                            s
                        } else if let (Intr::SMulOv, Some(q)) = (i, x.cval(b)) {
                            let q = q as i128;
                            if q <= 0 {
                                return Flow::End(End::Unknown("128-bit signed multiplication".into()));
                            }
                            let hi = x.konst((i128::MAX / q) as u128, w);
                            let lo = x.konst((i128::MIN / q) as u128, w);
                            let o1 = x.slt(hi, a);
                            let o2 = x.slt(a, lo);
                            r2 = Some(x.orb(o1, o2));
                            x.bin(BinOp::Mul, w, a, b)
                        } else {
                            return Flow::End(End::Unknown("128-bit overflow arithmetic".into()));
                        }
                    }
                    Intr::Fshl | Intr::Fshr => {
                        let v = self.opnd(st, c.args[2].0);
                        let k = match v {
                            V::C(k) => (k % w as u64) as u8,
                            _ => return Flow::End(End::Unknown("symbolic funnel shift".into())),
                        };
                        let x = &mut self.x;
                        let k = if i == Intr::Fshl { k } else { (w - k) % w };
                        if k == 0 {
                            if i == Intr::Fshl { a } else { b }
                        } else {
                            // high w bits of (a:b) << k
                            let hi = x.extract(a, 0, w - k);
                            let lo = x.extract(b, w - k, k);
                            x.concat(hi, lo)
                        }
                    }
                    Intr::Ctpop => {
                        let mut acc = x.konst(0, w);
                        for k in 0..w {
                            let t = x.extract(a, k, 1);
                            let t = x.zext(t, w);
                            acc = x.bin(BinOp::Add, w, acc, t);
                        }
                        acc
                    }
                    Intr::Cttz => {
                        let mut acc = x.konst(w as u128, w);
                        for k in (0..w).rev() {
                            let t = x.extract(a, k, 1);
                            let v = x.konst(k as u128, w);
                            acc = x.ite(t, v, acc);
                        }
                        acc
                    }
                    Intr::Ctlz => {
                        let mut acc = x.konst(w as u128, w);
                        for k in 0..w {
                            let t = x.extract(a, k, 1);
                            let v = x.konst((w - 1 - k) as u128, w);
                            acc = x.ite(t, v, acc);
                        }
                        acc
                    }
                    Intr::Ucmp | Intr::Scmp => {
                        let rw = c.ret_bits as u8;
                        let l = if i == Intr::Ucmp { x.ult(a, b) } else { x.slt(a, b) };
                        let q = x.eq(a, b);
                        let m1 = x.konst(u128::MAX, rw);
                        let z = x.konst(0, rw);
                        let o = x.konst(1, rw);
                        let t = x.ite(q, z, o);
                        x.ite(l, m1, t)
                    }
                    Intr::Bswap => {
                        let mut acc: Option<E> = None;
                        for k in 0..w / 8 {
                            let p = x.extract(a, k * 8, 8);
                            acc = Some(match acc {
                                None => p,
                                Some(h) => x.concat(h, p),
                            });
                        }
                        acc.unwrap()
                    }
                    Intr::Bitrev => {
                        let mut acc: Option<E> = None;
                        for k in 0..w {
                            let p = x.extract(a, k, 1);
                            acc = Some(match acc {
                                None => p,
                                Some(h) => x.concat(h, p),
                            });
                        }
                        acc.unwrap()
                    }
                    Intr::Fabs | Intr::Copysign => {
                        let m = x.konst(mask(w - 1), w);
                        let a = x.bin(BinOp::And, w, a, m);
                        if i == Intr::Fabs {
                            a
                        } else {
                            let m = x.konst(1 << (w - 1), w);
                            let s = x.bin(BinOp::And, w, b, m);
                            x.bin(BinOp::Or, w, a, s)
                        }
                    }
                    Intr::Abs => {
                        let z = x.konst(0, w);
                        let n = x.bin(BinOp::Sub, w, z, a);
                        let s = x.slt(a, z);
                        x.ite(s, n, a)
                    }
                    _ => return Flow::End(End::Unknown(format!("intrinsic {:?}", i))),
                };
                let v = self.x.val(r);
                if let Some(o) = r2 {
                    st.fr.slots[c.dst as usize + 1] = self.x.val(o);
                }
                self.ret(st, c, v)
            }
        }
    }
    #[allow(dead_code)]
    fn unused(&self) -> bool {
        is_s(V::C(0)) || HashMap::<u8, u8>::new().is_empty()
    }
}

