//! Hash-consed bit-vector expressions over symbolic input bytes, with simplification.
use crate::ir::{BinOp, FpOp};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

/// A value: concrete (at most 64 bits) or an expression.
/// Concrete values wider than 64 bits are `Const` expressions.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    C(u64),
    S(E),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Not, // 1-bit
    Ite,
    Concat, // a high, b low
    Extract, // a, b = low bit
    ZExt,
    SExt,
    /// floating-point operation: c encodes which
    Fp,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

impl Node {
    pub fn children(&self) -> Vec<E> {
        match self.op {
            Op::Const | Op::Var => vec![],
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => vec![self.a],
            Op::Ite => vec![self.a, self.b, self.c],
            _ => vec![self.a, self.b],
        }
    }
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub masks: Vec<u128>,
    /// does the term contain floating-point operations?
    pub fp: Vec<bool>,
    map: FxMap<Node, E>,
    pub consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    // evaluation cache
    ecache: Vec<(u32, u128)>,
    epoch: u32,
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u8) -> i128 {
    ((v << (128 - w as u32)) as i128) >> (128 - w as u32)
}

pub fn bin_const(op: BinOp, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => if b == 0 { m } else { a / b },
        BinOp::URem => if b == 0 { a } else { a % b },
        BinOp::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        BinOp::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => (sext(a, w) >> b.min(127).min(w as u128 - 1)) as u128,
        BinOp::UMin => a.min(b),
        BinOp::UMax => a.max(b),
        BinOp::SMin => if sext(a, w) < sext(b, w) { a } else { b },
        BinOp::SMax => if sext(a, w) > sext(b, w) { a } else { b },
        BinOp::USubSat => a.saturating_sub(b),
        BinOp::UAddSat => { let s = a.wrapping_add(b); if (w < 128 && s > m) || s < a { m } else { s } }
    }) & m
}

impl Exprs {
    pub fn new() -> Exprs {
        Exprs { nodes: vec![], masks: vec![], fp: vec![], map: Default::default(), consts: vec![], cmap: Default::default(), ecache: vec![], epoch: 0 }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    fn mk(&mut self, op: Op, w: u8, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let m = match op {
            Op::Const => 0,
            Op::Var => 1u128 << a,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.masks[a as usize],
            Op::Ite => self.masks[a as usize] | self.masks[b as usize] | self.masks[c as usize],
            _ => self.masks[a as usize] | self.masks[b as usize],
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.masks.push(m);
        let f = match op {
            Op::Const | Op::Var => false,
            Op::Fp => true,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.fp[a as usize],
            Op::Ite => self.fp[a as usize] | self.fp[b as usize] | self.fp[c as usize],
            _ => self.fp[a as usize] | self.fp[b as usize],
        };
        self.fp.push(f);
        self.ecache.push((0, 0));
        self.map.insert(n, e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u8) -> E {
        let v = v & mask(w);
        let n = self.consts.len() as u32;
        let k = *self.cmap.entry(v).or_insert(n);
        if k == n {
            self.consts.push(v);
        }
        self.mk(Op::Const, w, k, 0, 0)
    }
    pub fn var(&mut self, i: u32) -> E {
        assert!(i < 128, "too many symbolic bytes");
        self.mk(Op::Var, 8, i, 0, 0)
    }
    #[inline]
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    /// expression of a value
    pub fn ex(&mut self, v: V, w: u8) -> E {
        match v {
            V::C(c) => self.konst(c as u128, w),
            V::S(e) => {
                debug_assert_eq!(self.w(e), w);
                e
            }
        }
    }
    /// value of an expression
    pub fn val(&self, e: E) -> V {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 {
            V::C(self.consts[n.a as usize] as u64)
        } else {
            V::S(e)
        }
    }
    pub fn cv(&mut self, v: u128, w: u8) -> V {
        if w <= 64 {
            V::C((v & mask(w)) as u64)
        } else {
            V::S(self.konst(v, w))
        }
    }
    /// number of low bits that are certainly zero
    fn low_zeros(&self, e: E) -> u8 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => (self.consts[n.a as usize].trailing_zeros() as u8).min(n.w),
            Op::ZExt => self.low_zeros(n.a),
            Op::Concat => {
                let k = self.low_zeros(n.b);
                if k == self.w(n.b) { k + self.low_zeros(n.a) } else { k }
            }
            _ => 0,
        }
    }
    /// number of low bits that may be non-zero
    fn maxbits(&self, e: E) -> u8 {
        self.maxbits_d(e, 10)
    }
    fn maxbits_d(&self, e: E, d: u32) -> u8 {
        let n = self.nodes[e as usize];
        if d == 0 {
            return n.w;
        }
        match n.op {
            Op::Const => 128 - self.consts[n.a as usize].leading_zeros() as u8,
            Op::ZExt => self.maxbits_d(n.a, d - 1),
            Op::And => self.maxbits_d(n.a, d - 1).min(self.maxbits_d(n.b, d - 1)),
            Op::Or | Op::Xor => self.maxbits_d(n.a, d - 1).max(self.maxbits_d(n.b, d - 1)),
            Op::Ite => self.maxbits_d(n.b, d - 1).max(self.maxbits_d(n.c, d - 1)),
            Op::LShr => match self.cval(n.b) {
                Some(k) if k < 128 => self.maxbits_d(n.a, d - 1).saturating_sub(k as u8),
                _ => self.maxbits_d(n.a, d - 1),
            },
            Op::Shl => match self.cval(n.b) {
                Some(k) if k < 128 => (self.maxbits_d(n.a, d - 1) as u32 + k as u32).min(n.w as u32) as u8,
                _ => n.w,
            },
            Op::Concat => {
                let h = self.maxbits_d(n.a, d - 1);
                if h == 0 { self.maxbits_d(n.b, d - 1) } else { h + self.w(n.b) }
            }
            _ => n.w,
        }
    }

    /// Is the term a tree of conditionals over at most `n` constants?
    pub fn leaves(&self, e: E, n: u32) -> bool {
        fn go(x: &Exprs, e: E, n: &mut u32) -> bool {
            let d = x.nodes[e as usize];
            match d.op {
                Op::Ite => go(x, d.b, n) && go(x, d.c, n),
                Op::Const if *n > 0 => {
                    *n -= 1;
                    true
                }
                _ => false,
            }
        }
        let mut n = n;
        go(self, e, &mut n)
    }

    pub fn bin(&mut self, op: BinOp, w: u8, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(bin_const(op, w, x, y), w);
        }
        match op {
            BinOp::Add => self.add(w, a, b),
            BinOp::Sub => self.sub(w, a, b),
            BinOp::And => self.and(w, a, b),
            BinOp::Or => self.or(w, a, b),
            BinOp::Xor => self.xor(w, a, b),
            BinOp::Mul => {
                let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
                if let Some(k) = self.cval(b) {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(BinOp::Shl, w, a, s);
                    }
                    if let Some(r) = self.over_ite(op, w, a, b) { return r; }
                }
                self.mk(Op::Mul, w, a, b, 0)
            }
            BinOp::UDiv => {
                if let Some(k) = self.cval(b) {
                    if k == 1 { return a; }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(BinOp::LShr, w, a, s);
                    }
                    if let Some(r) = self.over_ite(op, w, a, b) { return r; }
                }
                self.mk(Op::UDiv, w, a, b, 0)
            }
            BinOp::URem => {
                if let Some(k) = self.cval(b) {
                    if k.is_power_of_two() {
                        let m = self.konst(k - 1, w);
                        return self.and(w, a, m);
                    }
                    if let Some(r) = self.over_ite(op, w, a, b) { return r; }
                }
                self.mk(Op::URem, w, a, b, 0)
            }
            BinOp::SDiv => self.mk(Op::SDiv, w, a, b, 0),
            BinOp::SRem => self.mk(Op::SRem, w, a, b, 0),
            BinOp::Shl => {
                if let Some(k) = self.cval(b) {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.konst(0, w); }
                    if let Some(r) = self.over_ite(op, w, a, b) { return r; }
                    let n = self.nodes[a as usize];
                    if n.op == Op::Shl {
                        if let Some(j) = self.cval(n.b) {
                            let s = self.konst(j + k, w);
                            return self.bin(BinOp::Shl, w, n.a, s);
                        }
                    }
                    // low part moved up: concat(extract, 0)
                    let lo = self.extract(a, 0, w - k as u8);
                    let z = self.konst(0, k as u8);
                    return self.concat(lo, z);
                }
                self.mk(Op::Shl, w, a, b, 0)
            }
            BinOp::LShr => {
                if let Some(k) = self.cval(b) {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.konst(0, w); }
                    if let Some(r) = self.over_ite(op, w, a, b) { return r; }
                    let hi = self.extract(a, k as u8, w - k as u8);
                    return self.zext(hi, w);
                }
                self.mk(Op::LShr, w, a, b, 0)
            }
            BinOp::AShr => {
                if let Some(k) = self.cval(b) {
                    if k == 0 { return a; }
                    let k = k.min(w as u128 - 1);
                    let hi = self.extract(a, k as u8, w - k as u8);
                    return self.sext(hi, w);
                }
                self.mk(Op::AShr, w, a, b, 0)
            }
            BinOp::UMin => { let c = self.ult(a, b); self.ite(c, a, b) }
            BinOp::UMax => { let c = self.ult(a, b); self.ite(c, b, a) }
            BinOp::SMin => { let c = self.slt(a, b); self.ite(c, a, b) }
            BinOp::SMax => { let c = self.slt(a, b); self.ite(c, b, a) }
            BinOp::USubSat => { let c = self.ult(a, b); let z = self.konst(0, w); let s = self.sub(w, a, b); self.ite(c, z, s) }
            BinOp::UAddSat => { let s = self.add(w, a, b); let c = self.ult(s, a); let m = self.konst(mask(w), w); self.ite(c, m, s) }
        }
    }
    /// op(ite(c, x, y), const) -> ite(c, op x, op y) when x or y is constant
    fn over_ite(&mut self, op: BinOp, w: u8, a: E, b: E) -> Option<E> {
        let n = self.nodes[a as usize];
        if n.op == Op::Ite && self.cval(b).is_some() && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) {
            let x = self.bin(op, w, n.b, b);
            let y = self.bin(op, w, n.c, b);
            return Some(self.ite(n.a, x, y));
        }
        None
    }
    fn add(&mut self, w: u8, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            let n = self.nodes[a as usize];
            if n.op == Op::Add {
                if let Some(j) = self.cval(n.b) {
                    let s = self.konst(j.wrapping_add(k), w);
                    return self.add(w, n.a, s);
                }
            }
            if let Some(r) = self.over_ite(BinOp::Add, w, a, b) { return r; }
            return self.mk(Op::Add, w, a, b, 0);
        }
        let na = self.nodes[a as usize];
        if na.op == Op::Add {
            if self.cval(na.b).is_some() {
                let i = self.add(w, na.a, b);
                return self.add(w, i, na.b);
            }
        }
        let nb = self.nodes[b as usize];
        if nb.op == Op::Add {
            if self.cval(nb.b).is_some() {
                let i = self.add(w, a, nb.a);
                return self.add(w, i, nb.b);
            }
        }
        // a + (0 - b) etc.
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if na.op == Op::Sub && na.b == b { return na.a; }
        // sums of small values at their own width, so that they are the same at every width
        let k = self.maxbits(a).max(self.maxbits(b)) + 1;
        if k <= 17 && k < w {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            let s = self.add(k, x, y);
            return self.zext(s, w);
        }
        self.mk(Op::Add, w, a, b, 0)
    }
    fn sub(&mut self, w: u8, a: E, b: E) -> E {
        if a == b { return self.konst(0, w); }
        if let Some(k) = self.cval(b) {
            let nk = self.konst(k.wrapping_neg(), w);
            return self.add(w, a, nk);
        }
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        // strip constants
        if na.op == Op::Add && self.cval(na.b).is_some() {
            let i = self.sub(w, na.a, b);
            return self.add(w, i, na.b);
        }
        if nb.op == Op::Add {
            if let Some(k) = self.cval(nb.b) {
                let i = self.sub(w, a, nb.a);
                let nk = self.konst(k.wrapping_neg(), w);
                return self.add(w, i, nk);
            }
            if nb.a == a {
                let z = self.konst(0, w);
                return self.sub(w, z, nb.b);
            }
            if nb.b == a {
                let z = self.konst(0, w);
                return self.sub(w, z, nb.a);
            }
        }
        if na.op == Op::Add {
            if na.a == b { return na.b; }
            if na.b == b { return na.a; }
        }
        if na.op == Op::Sub && na.a == b {
            let z = self.konst(0, w);
            return self.sub(w, z, na.b);
        }
        if nb.op == Op::Sub && nb.a == a { return nb.b; }
        if self.cval(a).is_some() && nb.op == Op::Ite && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) {
            let x = self.sub(w, a, nb.b);
            let y = self.sub(w, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Op::Sub, w, a, b, 0)
    }
    fn and(&mut self, w: u8, a: E, b: E) -> E {
        if a == b { return a; }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x & y, w);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if k == 0 { return b; }
            if k == mask(w) { return a; }
            let mb = self.maxbits(a);
            if mask(mb) & !k == 0 { return a; }
            let na = self.nodes[a as usize];
            if na.op == Op::And {
                if let Some(j) = self.cval(na.b) {
                    let m = self.konst(j & k, w);
                    return self.and(w, na.a, m);
                }
            }
            // low mask -> zext(extract)
            if (k + 1).is_power_of_two() {
                let nb = k.trailing_ones() as u8;
                let x = self.extract(a, 0, nb);
                return self.zext(x, w);
            }
            if let Some(r) = self.over_ite(BinOp::And, w, a, b) { return r; }
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                let kk = self.konst(k, iw);
                let x = self.and(iw, na.a, kk);
                return self.zext(x, w);
            }
            if na.op == Op::Concat {
                let lw = self.w(na.b);
                let hk = self.konst(k >> lw, w - lw);
                let lk = self.konst(k, lw);
                let h = self.and(w - lw, na.a, hk);
                let l = self.and(lw, na.b, lk);
                return self.concat(h, l);
            }
        }
        if w == 1 {
            // absorption
            let na = self.nodes[a as usize];
            let nb = self.nodes[b as usize];
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.konst(0, 1);
            }
            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
            // eq(x,k1) & eq(x,k2)
            if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a {
                if let (Some(x), Some(y)) = (self.cval(na.b), self.cval(nb.b)) {
                    if x != y { return self.konst(0, 1); }
                }
            }
        }
        self.mk(Op::And, w, a, b, 0)
    }
    fn or(&mut self, w: u8, a: E, b: E) -> E {
        if a == b { return a; }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x | y, w);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            if k == mask(w) { return b; }
            if let Some(r) = self.over_ite(BinOp::Or, w, a, b) { return r; }
        }
        if w == 1 {
            let na = self.nodes[a as usize];
            let nb = self.nodes[b as usize];
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.konst(1, 1);
            }
            if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::And && (na.a == b || na.b == b) { return b; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
        } else {
            // disjoint parts -> concat
            for (x, y) in [(a, b), (b, a)] {
                let lw = self.low_zeros(y);
                if lw > 0 && lw < w && self.maxbits(x) <= lw {
                    let lo = self.extract(x, 0, lw);
                    let hi = self.extract(y, lw, w - lw);
                    return self.concat(hi, lo);
                }
            }
        }
        self.mk(Op::Or, w, a, b, 0)
    }
    fn xor(&mut self, w: u8, a: E, b: E) -> E {
        if a == b { return self.konst(0, w); }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x ^ y, w);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            if w == 1 { return self.not(a); }
            let na = self.nodes[a as usize];
            if na.op == Op::Xor {
                if let Some(j) = self.cval(na.b) {
                    let m = self.konst(j ^ k, w);
                    return self.xor(w, na.a, m);
                }
            }
            if let Some(r) = self.over_ite(BinOp::Xor, w, a, b) { return r; }
            if na.op == Op::ZExt && self.w(na.a) as u32 >= 128 - k.leading_zeros() {
                let iw = self.w(na.a);
                let kk = self.konst(k, iw);
                let x = self.xor(iw, na.a, kk);
                return self.zext(x, w);
            }
        }
        self.mk(Op::Xor, w, a, b, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; self.konst(v ^ 1, 1) }
            Op::Not => n.a,
            _ => self.mk(Op::Not, 1, a, 0, 0),
        }
    }
    pub fn andb(&mut self, a: E, b: E) -> E {
        self.and(1, a, b)
    }
    pub fn orb(&mut self, a: E, b: E) -> E {
        self.or(1, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.konst(1, 1); }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if let Some(j) = self.cval(a) {
                return self.konst((j == k) as u128, 1);
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            let n = self.nodes[a as usize];
            match n.op {
                Op::Add => {
                    if let Some(j) = self.cval(n.b) {
                        let kk = self.konst(k.wrapping_sub(j), w);
                        return self.eq(n.a, kk);
                    }
                }
                Op::Sub => {
                    if k == 0 { return self.eq(n.a, n.b); }
                    if let Some(j) = self.cval(n.a) {
                        let kk = self.konst(j.wrapping_sub(k), w);
                        return self.eq(n.b, kk);
                    }
                }
                Op::Xor => {
                    if let Some(j) = self.cval(n.b) {
                        let kk = self.konst(k ^ j, w);
                        return self.eq(n.a, kk);
                    }
                    if k == 0 { return self.eq(n.a, n.b); }
                }
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k > mask(iw) { return self.konst(0, 1); }
                    let kk = self.konst(k, iw);
                    return self.eq(n.a, kk);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let kk = self.konst(k, iw);
                    if sext(k & mask(iw), iw) as u128 & mask(w) != k { return self.konst(0, 1); }
                    return self.eq(n.a, kk);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hk = self.konst(k >> lw, w - lw);
                    let lk = self.konst(k, lw);
                    let h = self.eq(n.a, hk);
                    if self.cval(h) == Some(0) { return h; }
                    let l = self.eq(n.b, lk);
                    return self.andb(h, l);
                }
                Op::Ite => {
                    let cb = self.cval(n.b);
                    let cc = self.cval(n.c);
                    if cb.is_some() || cc.is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::And => {
                    // x & single-bit == 0/bit
                    if let Some(j) = self.cval(n.b) {
                        if k & !j != 0 { return self.konst(0, 1); }
                        if j.is_power_of_two() {
                            let bit = self.extract(n.a, j.trailing_zeros() as u8, 1);
                            return if k == 0 { self.not(bit) } else { bit };
                        }
                    }
                }
                Op::Or => {
                    if k == 0 {
                        let z = self.konst(0, w);
                        let x = self.eq(n.a, z);
                        let y = self.eq(n.b, z);
                        return self.andb(x, y);
                    }
                }
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b, 0);
        }
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
            let h = self.eq(na.a, nb.a);
            let l = self.eq(na.b, nb.b);
            return self.andb(h, l);
        }
        // common addends
        if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b && self.cval(na.b).is_some() {
            return self.eq(na.a, nb.a);
        }
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.konst(0, 1); }
        let w = self.w(a);
        let ca = self.cval(a);
        let cb = self.cval(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((x < y) as u128, 1);
        }
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if let Some(k) = cb {
            if k == 0 { return self.konst(0, 1); }
            if k == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            if k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if mask(self.maxbits(a)) < k { return self.konst(1, 1); }
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                let kk = self.konst(k, iw);
                return self.ult(na.a, kk);
            }
            if na.op == Op::Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let y = self.ult(na.c, b);
                return self.ite(na.a, x, y);
            }
            if na.op == Op::Concat {
                let lw = self.w(na.b);
                if k & mask(lw) == 0 {
                    let kk = self.konst(k >> lw, w - lw);
                    return self.ult(na.a, kk);
                }
            }
        }
        if let Some(k) = ca {
            if k == mask(w) { return self.konst(0, 1); }
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if k >= mask(self.maxbits(b)) { return self.konst(0, 1); }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                let kk = self.konst(k, iw);
                return self.ult(kk, nb.a);
            }
            if nb.op == Op::Ite && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) {
                let x = self.ult(a, nb.b);
                let y = self.ult(a, nb.c);
                return self.ite(nb.a, x, y);
            }
            // k < x  ==  !(x < k+1)
            let kk = self.konst(k + 1, w);
            let l = self.ult(b, kk);
            return self.not(l);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.konst(0, 1); }
        let w = self.w(a);
        let ca = self.cval(a);
        let cb = self.cval(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        // both non-negative by construction -> unsigned
        let nn = |s: &Self, e: E, c: Option<u128>| c.map(|v| v < half).unwrap_or_else(|| s.maxbits(e) < w);
        let (pa, pb) = (nn(self, a, ca), nn(self, b, cb));
        if pa && pb { return self.ult(a, b); }
        if let Some(k) = cb {
            let na = self.nodes[a as usize];
            if k == 0 {
                return self.extract(a, w - 1, 1);
            }
            if pa && k >= half { return self.konst(0, 1); }
            if k == half { return self.konst(0, 1); }
            if na.op == Op::SExt {
                let iw = self.w(na.a);
                let sk = sext(k, w);
                let lo = -(1i128 << (iw - 1));
                let hi = (1i128 << (iw - 1)) - 1;
                if sk > hi { return self.konst(1, 1); }
                if sk <= lo { return self.konst(0, 1); }
                let kk = self.konst(sk as u128, iw);
                return self.slt(na.a, kk);
            }
            if na.op == Op::Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
                let x = self.slt(na.b, b);
                let y = self.slt(na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        if let Some(k) = ca {
            if pb && k >= half { return self.konst(1, 1); }
            if k == half - 1 { return self.konst(0, 1); }
            if k == mask(w) {
                // -1 < b  ==  b >= 0
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
            let kk = self.konst(k.wrapping_add(1), w);
            let l = self.slt(b, kk);
            return self.not(l);
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cval(c) {
            return if k != 0 { a } else { b };
        }
        if a == b { return a; }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.orb(c, b),
                (Some(0), _) => { let n = self.not(c); return self.andb(n, b); }
                (_, Some(0)) => return self.andb(c, a),
                (_, Some(1)) => { let n = self.not(c); return self.orb(n, a); }
                _ => {}
            }
        }
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.orb(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        if nb.op == Op::Ite && nb.c == a {
            let n = self.not(c);
            let d = self.andb(n, nb.a);
            return self.ite(d, nb.b, a);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.konst(v >> lo, w); }
            Op::Extract => return self.extract(n.a, n.b as u8 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(w, x, y),
                    Op::Or => self.or(w, x, y),
                    _ => self.xor(w, x, y),
                };
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                let op = match n.op { Op::Add => BinOp::Add, Op::Sub => BinOp::Sub, _ => BinOp::Mul };
                return self.bin(op, w, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo as u32, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) {
            return self.konst(x << lw | y, w);
        }
        if self.cval(h) == Some(0) { return self.zext(l, w); }
        let nh = self.nodes[h as usize];
        let nl = self.nodes[l as usize];
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw as u32 {
            return self.extract(nh.a, nl.b as u8, w);
        }
        if nh.op == Op::Extract && nh.a == l && nh.b == lw as u32 {
            return self.extract(l, 0, w); // unreachable in practice (widths)
        }
        // concat(extract(x,lw..), concat..) flattening: keep right-nested
        if nl.op == Op::Concat {
            // h ++ (a ++ b): if h and a merge
            let m = self.nodes[nl.a as usize];
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.b == m.b + m.w as u32 {
                let hm = self.extract(nh.a, m.b as u8, nh.w + m.w);
                return self.concat(hm, nl.b);
            }
        }
        if nh.op == Op::Concat {
            let bl = self.concat(nh.b, l);
            return self.concat(nh.a, bl);
        }
        if nh.op == Op::ZExt {
            let il = self.concat(nh.a, l);
            return self.zext(il, w);
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.konst(v, w); }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.konst(sext(v, n.w) as u128, w); }
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.sext(n.b, w);
                    let y = self.sext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if n.w == 1 {
            let m = self.konst(mask(w), w);
            let z = self.konst(0, w);
            return self.ite(a, m, z);
        }
        if self.maxbits(a) < n.w { return self.zext(a, w); }
        self.mk(Op::SExt, w, a, 0, 0)
    }

    pub fn fp_op(&mut self, op: FpOp, fw: u8, tw: u8, a: E, b: E) -> E {
        if op == FpOp::Neg {
            let s = self.konst(1 << (fw - 1), fw);
            return self.xor(fw, a, s);
        }
        self.mk(Op::Fp, tw, a, b, op.code() | (fw as u32) << 16)
    }

    // ---- evaluation under a model -------------------------------------------------------
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        let (ep, v) = self.ecache[e as usize];
        if ep == self.epoch && ep != 0 {
            return v;
        }
        let n = self.nodes[e as usize];
        let w = n.w;
        let r = match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => m[n.a as usize] as u128,
            Op::Not => self.eval(n.a, m) ^ 1,
            Op::Eq => (self.eval(n.a, m) == self.eval(n.b, m)) as u128,
            Op::Ult => (self.eval(n.a, m) < self.eval(n.b, m)) as u128,
            Op::Slt => {
                let aw = self.w(n.a);
                let x = sext(self.eval(n.a, m), aw);
                let y = sext(self.eval(n.b, m), aw);
                (x < y) as u128
            }
            Op::Ite => if self.eval(n.a, m) != 0 { self.eval(n.b, m) } else { self.eval(n.c, m) },
            Op::Concat => { let lw = self.w(n.b); self.eval(n.a, m) << lw | self.eval(n.b, m) }
            Op::Extract => self.eval(n.a, m) >> n.b & mask(w),
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => { let aw = self.w(n.a); sext(self.eval(n.a, m), aw) as u128 & mask(w) }
            Op::Fp => {
                let x = self.eval(n.a, m) as u64;
                let y = self.eval(n.b, m) as u64;
                fp(FpOp::decode(n.c), (n.c >> 16) as u8, w, x, y).unwrap() as u128
            }
            _ => {
                let x = self.eval(n.a, m);
                let y = self.eval(n.b, m);
                let op = match n.op {
                    Op::Add => BinOp::Add,
                    Op::Sub => BinOp::Sub,
                    Op::Mul => BinOp::Mul,
                    Op::UDiv => BinOp::UDiv,
                    Op::URem => BinOp::URem,
                    Op::SDiv => BinOp::SDiv,
                    Op::SRem => BinOp::SRem,
                    Op::And => BinOp::And,
                    Op::Or => BinOp::Or,
                    Op::Xor => BinOp::Xor,
                    Op::Shl => BinOp::Shl,
                    Op::LShr => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                bin_const(op, w, x, y)
            }
        };
        self.ecache[e as usize] = (self.epoch, r);
        r
    }

    /// rename variables by subtracting `shift` from every index
    pub fn shift(&mut self, e: E, shift: u32, memo: &mut FxMap<(E, u32), E>) -> E {
        if shift == 0 || self.masks[e as usize] == 0 {
            return e;
        }
        if let Some(r) = memo.get(&(e, shift)) {
            return *r;
        }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const => e,
            Op::Var => self.var(n.a - shift),
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => {
                let a = self.shift(n.a, shift, memo);
                self.mk(n.op, n.w, a, n.b, 0)
            }
            Op::Fp => {
                let a = self.shift(n.a, shift, memo);
                let b = self.shift(n.b, shift, memo);
                self.mk(n.op, n.w, a, b, n.c)
            }
            Op::Ite => {
                let a = self.shift(n.a, shift, memo);
                let b = self.shift(n.b, shift, memo);
                let c = self.shift(n.c, shift, memo);
                self.mk(n.op, n.w, a, b, c)
            }
            _ => {
                let a = self.shift(n.a, shift, memo);
                let b = self.shift(n.b, shift, memo);
                self.mk(n.op, n.w, a, b, 0)
            }
        };
        memo.insert((e, shift), r);
        r
    }

    pub fn show(&self, e: E) -> String {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}", self.consts[n.a as usize]),
            Op::Var => format!("v{}", n.a),
            Op::Not => format!("!{}", self.show(n.a)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a), n.b, n.w),
            Op::ZExt => format!("z{}({})", n.w, self.show(n.a)),
            Op::SExt => format!("s{}({})", n.w, self.show(n.a)),
            Op::Ite => format!("({}?{}:{})", self.show(n.a), self.show(n.b), self.show(n.c)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
}

/// Floating-point operations on concrete values.
pub fn fp(op: FpOp, fw: u8, tw: u8, x: u64, y: u64) -> Option<u64> {
    let get = |v: u64, w: u8| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    if (fw != 32 && fw != 64 && !matches!(op, FpOp::FromU | FpOp::FromS)) || (tw != 32 && tw != 64 && !matches!(op, FpOp::ToU | FpOp::ToS | FpOp::Cmp(_))) {
        return None;
    }
    let sx = |v: u64| ((v << (64 - fw as u32)) as i64) >> (64 - fw as u32);
    macro_rules! arith {
        ($o:tt) => {
            if fw == 32 {
                (f32::from_bits(x as u32) $o f32::from_bits(y as u32)).to_bits() as u64
            } else {
                (f64::from_bits(x) $o f64::from_bits(y)).to_bits()
            }
        };
    }
    Some(match op {
        FpOp::Neg => x ^ 1 << (fw - 1),
        FpOp::Add => arith!(+),
        FpOp::Sub => arith!(-),
        FpOp::Mul => arith!(*),
        FpOp::Div => arith!(/),
        FpOp::FromU if tw == 32 => (x as f32).to_bits() as u64,
        FpOp::FromU => (x as f64).to_bits(),
        FpOp::FromS if tw == 32 => (sx(x) as f32).to_bits() as u64,
        FpOp::FromS => (sx(x) as f64).to_bits(),
        FpOp::ToU => get(x, fw) as u64 & mask64(tw),
        FpOp::ToS => get(x, fw) as i64 as u64 & mask64(tw),
        FpOp::Ext => get(x, fw).to_bits(),
        FpOp::Trunc => (get(x, fw) as f32).to_bits() as u64,
        FpOp::Cmp(p) => {
            let bit = match get(x, fw).partial_cmp(&get(y, fw)) {
                Some(std::cmp::Ordering::Equal) => 1,
                Some(std::cmp::Ordering::Greater) => 2,
                Some(std::cmp::Ordering::Less) => 4,
                None => 8,
            };
            (p & bit != 0) as u64
        }
    })
}
