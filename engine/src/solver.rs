//! z3 (C API) behind independence slicing and a canonical query cache.
use crate::expr::*;
use crate::ir::FpOp;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_gt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: *const c_void);
}

extern "C" fn on_error(_c: P, _e: c_int) {}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    /// values for the canonical variables 0.. of the slice
    Sat(Box<[u8]>),
    Unknown,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct QStats {
    pub queries: u64,
    pub hits: u64,
    pub z3: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub z3_ns: u64,
    pub max_ns: u64,
    pub intervals: u64,
}

pub struct Solver {
    ctx: P,
    slv: P,
    ast: Vec<P>,  // bit-vector term (width-1 terms: null) by expression
    bast: Vec<P>, // boolean term of width-1 expressions
    sorts: HashMap<u8, P>,
    pub cache: FxMap<Box<[E]>, Res>,
    exact: FxMap<Box<[E]>, Res>,
    shift_memo: FxMap<(E, u32), E>,
    pub st: QStats,
    pub dump: Option<std::fs::File>,
    /// decides queries with floating-point operations; there, those are uninterpreted functions at first
    fp_slv: Option<P>,
    /// ... and have their meaning in this one
    exact_fp: Option<Box<Solver>>,
    interpreted: bool,
    /// points of floating-point functions found needed so far
    fp_points: std::collections::HashSet<(u32, u8, u64, u64)>,
}

/// How many points of floating-point functions may be given to a query before their full meaning is.
const FP_POINTS: usize = 3000;

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let ctx = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(ctx, on_error as *const c_void);
            let slv = if std::env::var("SXE_SIMPLE").is_ok() {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, slv);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), 200_000_000);
            Z3_solver_set_params(ctx, slv, p);
            Solver {
                ctx,
                slv,
                ast: vec![],
                bast: vec![],
                sorts: HashMap::new(),
                cache: Default::default(),
                exact: Default::default(),
                shift_memo: Default::default(),
                st: Default::default(),
                dump: None,
                fp_slv: None,
                exact_fp: None,
                interpreted: false,
                fp_points: Default::default(),
            }
        }
    }
    unsafe fn limit(&self, s: P, n: u32) {
        let c = self.ctx;
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let k = CString::new("rlimit").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), n);
        Z3_solver_set_params(c, s, p);
    }
    unsafe fn fp_decl(&mut self, code: u32, w: u8) -> P {
        let c = self.ctx;
        let t = CString::new(format!("fp{}_{}", code, w)).unwrap();
        let d = self.sort((code >> 16) as u8);
        let s = self.sort(w);
        Z3_mk_func_decl(c, Z3_mk_string_symbol(c, t.as_ptr()), 2, [d, d].as_ptr(), s)
    }
    /// Values of the floating-point functions at the points where a model of the formula evaluates them,
    /// as far as they are new.
    unsafe fn fp_values(&mut self, x: &mut Exprs, key: &[E], m: &[u8; 128]) -> Vec<P> {
        let c = self.ctx;
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<E> = key.to_vec();
        let mut out = vec![];
        x.new_epoch();
        while let Some(e) = todo.pop() {
            if !x.fp[e as usize] || !seen.insert(e) {
                continue;
            }
            let n = x.nodes[e as usize];
            todo.extend(n.children());
            if n.op == Op::Fp {
                let (a, b, v) = (x.eval(n.a, m) as u64, x.eval(n.b, m) as u64, x.eval(e, m) as u64);
                if self.fp_points.insert((n.c, n.w, a, b)) {
                    let f = self.fp_decl(n.c, n.w);
                    let (d, s) = (self.sort((n.c >> 16) as u8), self.sort(n.w));
                    let t = Z3_mk_app(c, f, 2, [Z3_mk_unsigned_int64(c, a, d), Z3_mk_unsigned_int64(c, b, d)].as_ptr());
                    out.push(Z3_mk_eq(c, t, Z3_mk_unsigned_int64(c, v, s)));
                }
            }
        }
        x.new_epoch();
        out
    }
    fn sort(&mut self, w: u8) -> P {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as u32) })
    }
    fn bv(&mut self, x: &Exprs, e: E) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(x.len().max(e as usize + 1), std::ptr::null_mut());
        }
        let p = self.ast[e as usize];
        if !p.is_null() {
            return p;
        }
        let n = x.nodes[e as usize];
        let c = self.ctx;
        unsafe {
            let s = self.sort(n.w);
            let r = match n.op {
                Op::Const => {
                    let v = x.consts[n.a as usize];
                    if v <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, v as u64, s)
                    } else {
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let t = CString::new(format!("v{}", n.a)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), s)
                }
                Op::Fp => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    let (op, fw) = (FpOp::decode(n.c), (n.c >> 16) as u8);
                    if self.interpreted {
                        self.fp_term(op, fw, n.w, a, b)
                    } else {
                        let f = self.fp_decl(n.c, n.w);
                        Z3_mk_app(c, f, 2, [a, b].as_ptr())
                    }
                }
                Op::Not | Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.boolean(x, e);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    let zero = Z3_mk_unsigned_int64(c, 0, s);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::And | Op::Or | Op::Ite if n.w == 1 => {
                    let b = self.boolean(x, e);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    let zero = Z3_mk_unsigned_int64(c, 0, s);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let a = self.boolean(x, n.a);
                    let b = self.bv(x, n.b);
                    let d = self.bv(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Extract => {
                    let a = self.bv(x, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::ZExt => {
                    let a = self.bv(x, n.a);
                    Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as u32, a)
                }
                Op::SExt => {
                    let a = self.bv(x, n.a);
                    Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as u32, a)
                }
                _ => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.ast[e as usize] = r;
            r
        }
    }
    unsafe fn fp_term(&mut self, op: FpOp, fw: u8, tw: u8, a: P, b: P) -> P {
        let c = self.ctx;
        let sort = |w: u8| if w == 32 { Z3_mk_fpa_sort(c, 8, 24) } else { Z3_mk_fpa_sort(c, 11, 53) };
        let rm = Z3_mk_fpa_rne(c);
        let r = match op {
            FpOp::FromU => Z3_mk_fpa_to_fp_unsigned(c, rm, a, sort(tw)),
            FpOp::FromS => Z3_mk_fpa_to_fp_signed(c, rm, a, sort(tw)),
            _ => {
                let x = Z3_mk_fpa_to_fp_bv(c, a, sort(fw));
                let y = Z3_mk_fpa_to_fp_bv(c, b, sort(fw));
                match op {
                    FpOp::Add => Z3_mk_fpa_add(c, rm, x, y),
                    FpOp::Sub => Z3_mk_fpa_sub(c, rm, x, y),
                    FpOp::Mul => Z3_mk_fpa_mul(c, rm, x, y),
                    FpOp::Div => Z3_mk_fpa_div(c, rm, x, y),
                    FpOp::Cmp(p) => {
                        let nan = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                        let t = [Z3_mk_fpa_eq(c, x, y), Z3_mk_fpa_gt(c, x, y), Z3_mk_fpa_lt(c, x, y), Z3_mk_or(c, 2, nan.as_ptr())];
                        let t: Vec<P> = (0..4).filter(|i| p >> i & 1 != 0).map(|i| t[i]).collect();
                        let any = if t.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, t.len() as u32, t.as_ptr()) };
                        let s = self.sort(1);
                        return Z3_mk_ite(c, any, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s));
                    }
                    _ => Z3_mk_fpa_to_fp_float(c, rm, x, sort(tw)),
                }
            }
        };
        Z3_mk_fpa_to_ieee_bv(c, r)
    }
    fn boolean(&mut self, x: &Exprs, e: E) -> P {
        if self.bast.len() <= e as usize {
            self.bast.resize(x.len().max(e as usize + 1), std::ptr::null_mut());
        }
        let p = self.bast[e as usize];
        if !p.is_null() {
            return p;
        }
        let n = x.nodes[e as usize];
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if x.consts[n.a as usize] != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.boolean(x, n.a);
                    Z3_mk_not(c, a)
                }
                Op::Eq => {
                    if x.w(n.a) == 1 {
                        let a = self.boolean(x, n.a);
                        let b = self.boolean(x, n.b);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.bv(x, n.a);
                        let b = self.bv(x, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                Op::And => {
                    let a = [self.boolean(x, n.a), self.boolean(x, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.boolean(x, n.a), self.boolean(x, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Ite => {
                    let a = self.boolean(x, n.a);
                    let b = self.boolean(x, n.b);
                    let d = self.boolean(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.bv(x, e);
                    let s = self.sort(1);
                    Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, s))
                }
            };
            self.bast[e as usize] = r;
            r
        }
    }

    /// Bounds of a term under pc.
    pub fn interval(&mut self, x: &Exprs, pc: &[E], e: E) -> (u128, u128) {
        let mut m = x.masks[e as usize];
        let mut used = vec![false; pc.len()];
        let mut slice = vec![];
        loop {
            let n = slice.len();
            for (i, &c) in pc.iter().enumerate() {
                if !used[i] && x.masks[c as usize] & m != 0 {
                    used[i] = true;
                    m |= x.masks[c as usize];
                    slice.push(c);
                }
            }
            if slice.len() == n {
                break;
            }
        }
        crate::bounds::interval(x, &slice, e)
    }

    /// Is pc /\ cond satisfiable?  On Sat, `model` is updated for the variables involved.
    /// `pc` is known satisfiable, and `model` satisfies it.
    pub fn check(&mut self, x: &mut Exprs, pc: &[E], cond: E, model: &[u8; 128]) -> Result<Option<[u8; 128]>, ()> {
        self.st.queries += 1;
        if let Some(k) = x.cval(cond) {
            return Ok(if k != 0 { Some(*model) } else { None });
        }
        // independence slice
        let mut m = x.masks[cond as usize];
        let mut slice: Vec<E> = vec![cond];
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if !used[i] && x.masks[c as usize] & m != 0 {
                    used[i] = true;
                    m |= x.masks[c as usize];
                    slice.push(c);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let sh = m.trailing_zeros();
        slice.sort_unstable();
        slice.dedup();
        let key0: Box<[E]> = slice.clone().into_boxed_slice();
        let res = if let Some(r) = self.exact.get(&key0) {
            self.st.hits += 1;
            r.clone()
        } else {
            let mut memo = std::mem::take(&mut self.shift_memo);
            for e in slice.iter_mut() {
                *e = x.shift(*e, sh, &mut memo);
            }
            self.shift_memo = memo;
            slice.sort_unstable();
            let key: Box<[E]> = slice.into_boxed_slice();
            let r = if let Some(r) = self.cache.get(&key) {
                self.st.hits += 1;
                r.clone()
            } else {
                let r = self.solve(x, &key, m >> sh);
                self.cache.insert(key, r.clone());
                r
            };
            self.exact.insert(key0, r.clone());
            r
        };
        match res {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(()),
            Res::Sat(vals) => {
                let mut nm = *model;
                let mut mm = m >> sh;
                let mut i = 0;
                while mm != 0 {
                    if mm & 1 != 0 {
                        nm[(sh + i) as usize] = vals[i as usize];
                    }
                    mm >>= 1;
                    i += 1;
                }
                Ok(Some(nm))
            }
        }
    }

    fn solve(&mut self, x: &mut Exprs, key: &[E], m: u128) -> Res {
        let t0 = Instant::now();
        if crate::bounds::contradictory(x, key) {
            self.st.intervals += 1;
            return Res::Unsat;
        }
        let c = self.ctx;
        let hi = 128 - m.leading_zeros();
        let floating = key.iter().any(|e| x.fp[*e as usize]);
        let usual = self.slv;
        if floating {
            self.slv = *self.fp_slv.get_or_insert_with(|| unsafe {
                let s = Z3_mk_simple_solver(c);
                Z3_solver_inc_ref(c, s);
                s
            });
            unsafe { self.limit(self.slv, 200_000_000) };
        }
        let satisfies = |x: &mut Exprs, vals: &[u8]| {
            let mut mm = [0u8; 128];
            mm[..vals.len()].copy_from_slice(vals);
            x.new_epoch();
            let ok = key.iter().all(|e| x.eval(*e, &mm) == 1);
            x.new_epoch();
            (ok, mm)
        };
        let mut points = vec![];
        let r = unsafe {
            Z3_solver_push(c, self.slv);
            for &e in key {
                let b = self.boolean(x, e);
                Z3_solver_assert(c, self.slv, b);
            }
            if let Some(f) = &mut self.dump {
                use std::io::Write;
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.slv)).to_bytes();
                let _ = f.write_all(b"(push)\n");
                let _ = f.write_all(s);
            }
            let r = loop {
            let k = Z3_solver_check(c, self.slv);
            let err = Z3_get_error_code(c);
            let r = if err != 0 {
                eprintln!("z3 error {}", err);
                Res::Unknown
            } else if k == 1 {
                let md = Z3_solver_get_model(c, self.slv);
                Z3_model_inc_ref(c, md);
                let mut vals = vec![0u8; hi as usize];
                for i in 0..hi {
                    if m >> i & 1 != 0 {
                        let ve = x.var(i);
                        let va = self.bv(x, ve);
                        let mut out: P = std::ptr::null_mut();
                        let mut v = 0u64;
                        if Z3_model_eval(c, md, va, true, &mut out) && Z3_get_numeral_uint64(c, out, &mut v) {
                            vals[i as usize] = v as u8;
                        }
                    }
                }
                Z3_model_dec_ref(c, md);
                Res::Sat(vals.into_boxed_slice())
            } else if k == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            // a model may rest on values that a floating-point function does not have
            match &r {
                Res::Sat(vals) if floating && !self.interpreted && points.len() < FP_POINTS => {
                    let (ok, mm) = satisfies(x, vals);
                    let new = if ok { vec![] } else { self.fp_values(x, key, &mm) };
                    if new.is_empty() {
                        break r;
                    }
                    for f in new {
                        Z3_solver_assert(c, self.slv, f);
                        points.push(f);
                    }
                }
                _ => break r,
            }
            };
            Z3_solver_pop(c, self.slv, 1);
            for f in points {
                Z3_solver_assert(c, self.slv, f);
            }
            r
        };
        self.slv = usual;
        if let Some(f) = &mut self.dump {
            use std::io::Write;
            let want = match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" };
            let _ = writeln!(f, "(check-sat)\n(pop)\n; expect {}", want);
        }
        // validate models before use
        let r = if let Res::Sat(vals) = &r {
            if satisfies(x, vals).0 {
                r
            } else if floating && !self.interpreted {
                let s = self.exact_fp.get_or_insert_with(|| {
                    let mut s = Solver::new();
                    s.interpreted = true;
                    Box::new(s)
                });
                s.solve(x, key, m)
            } else {
                eprintln!("z3 model does not satisfy the query");
                Res::Unknown
            }
        } else {
            r
        };
        let ns = t0.elapsed().as_nanos() as u64;
        self.st.z3 += 1;
        self.st.z3_ns += ns;
        self.st.max_ns = self.st.max_ns.max(ns);
        match r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        r
    }
}
