//! Bounds propagation in front of z3: refutes conjunctions whose contradiction shows in the
//! intervals of their terms. Only ever answers "unsatisfiable"; everything else goes to z3.
use crate::expr::*;

type Iv = (u128, u128);

struct B<'a> {
    x: &'a Exprs,
    /// bounds implied by the conjunction
    b: FxMap<E, Iv>,
    /// intervals computed in this round
    memo: FxMap<E, Iv>,
    /// already propagated in this round
    done: FxMap<E, Iv>,
    changed: bool,
    fuel: u32,
}

/// True only if the conjunction is unsatisfiable.
pub fn contradictory(x: &Exprs, key: &[E]) -> bool {
    let mut s = B { x, b: Default::default(), memo: Default::default(), done: Default::default(), changed: false, fuel: 20_000 };
    for _ in 0..8 {
        s.changed = false;
        s.memo.clear();
        s.done.clear();
        for &e in key {
            if !s.back(e, (1, 1)) {
                return true;
            }
        }
        if !s.changed || s.fuel == 0 {
            break;
        }
    }
    false
}

/// Bounds of a term under the conjunction.
pub fn interval(x: &Exprs, key: &[E], e: E) -> Iv {
    let mut s = B { x, b: Default::default(), memo: Default::default(), done: Default::default(), changed: false, fuel: 20_000 };
    for _ in 0..4 {
        s.changed = false;
        s.memo.clear();
        s.done.clear();
        if !key.iter().all(|&e| s.back(e, (1, 1))) {
            return (0, mask(x.w(e)));
        }
        if !s.changed || s.fuel == 0 {
            break;
        }
    }
    s.memo.clear();
    s.iv(e)
}

impl B<'_> {
    fn iv(&mut self, e: E) -> Iv {
        if let Some(k) = self.x.cval(e) {
            return (k, k);
        }
        if let Some(r) = self.memo.get(&e) {
            return *r;
        }
        let s = self.over(e);
        let r = match self.b.get(&e) {
            // an empty meet is a contradiction that shows elsewhere; any sound bound will do here
            Some(&(l, h)) if s.0.max(l) <= s.1.min(h) => (s.0.max(l), s.1.min(h)),
            _ => s,
        };
        self.memo.insert(e, r);
        r
    }

    /// From the operands' intervals.
    fn over(&mut self, e: E) -> Iv {
        let n = self.x.nodes[e as usize];
        let m = mask(n.w);
        let full = (0, m);
        match n.op {
            Op::Const => {
                let k = self.x.consts[n.a as usize];
                (k, k)
            }
            Op::Var => full,
            Op::Not => {
                let a = self.iv(n.a);
                (1 - a.1, 1 - a.0)
            }
            Op::Ite => {
                let c = self.iv(n.a);
                if c == (1, 1) {
                    return self.iv(n.b);
                }
                if c == (0, 0) {
                    return self.iv(n.c);
                }
                let p = self.iv(n.b);
                let q = self.iv(n.c);
                (p.0.min(q.0), p.1.max(q.1))
            }
            Op::ZExt => self.iv(n.a),
            Op::SExt => {
                let a = self.iv(n.a);
                let half = 1u128 << (self.x.w(n.a) - 1);
                if a.1 < half { a } else { full }
            }
            Op::Extract => {
                let a = self.iv(n.a);
                let (l, h) = (a.0 >> n.b, a.1 >> n.b);
                if l & !m == h & !m { (l & m, h & m) } else { full }
            }
            _ => {
                let p = self.iv(n.a);
                let q = self.iv(n.b);
                match n.op {
                    Op::Eq => {
                        if p.1 < q.0 || q.1 < p.0 {
                            (0, 0)
                        } else if p.0 == p.1 && p == q {
                            (1, 1)
                        } else {
                            (0, 1)
                        }
                    }
                    Op::Ult => {
                        if p.1 < q.0 {
                            (1, 1)
                        } else if p.0 >= q.1 {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                    Op::Slt => {
                        let half = 1u128 << (self.x.w(n.a) - 1);
                        // flipping the sign bit turns signed order into unsigned order, on intervals
                        // that lie on one side of it
                        if (p.0 >= half) != (p.1 >= half) || (q.0 >= half) != (q.1 >= half) {
                            return (0, 1);
                        }
                        let (p, q) = ((p.0 ^ half, p.1 ^ half), (q.0 ^ half, q.1 ^ half));
                        if p.1 < q.0 {
                            (1, 1)
                        } else if p.0 >= q.1 {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                    Op::And => {
                        if p.0 == p.1 && q.0 == q.1 {
                            (p.0 & q.0, p.0 & q.0)
                        } else {
                            (0, p.1.min(q.1))
                        }
                    }
                    Op::Or => (p.0.max(q.0), mask((128 - (p.1 | q.1).leading_zeros()) as u8) & m),
                    Op::Add => match (p.0.checked_add(q.0), p.1.checked_add(q.1)) {
                        (Some(l), Some(h)) if h <= m => (l, h),
                        // both ends wrap around
                        (Some(l), Some(h)) if l > m => (l - m - 1, h - m - 1),
                        _ => full,
                    },
                    Op::Sub => {
                        if p.0 >= q.1 { (p.0 - q.1, p.1 - q.0) } else { full }
                    }
                    Op::Mul => match p.1.checked_mul(q.1) {
                        Some(h) if h <= m => (p.0 * q.0, h),
                        _ => full,
                    },
                    Op::Concat => {
                        let w = self.x.w(n.b);
                        (p.0 << w | q.0, p.1 << w | q.1)
                    }
                    Op::LShr if q.0 == q.1 && q.0 < n.w as u128 => (p.0 >> q.0, p.1 >> q.0),
                    Op::LShr => (0, p.1),
                    Op::Shl if q.0 == q.1 && q.0 < n.w as u128 && p.1 <= m >> q.0 => (p.0 << q.0, p.1 << q.0),
                    _ => full,
                }
            }
        }
    }

    /// The conjunction implies that `e` lies in `r`: narrow what is known; false on contradiction.
    fn back(&mut self, e: E, r: Iv) -> bool {
        let cur = self.iv(e);
        let n = (cur.0.max(r.0), cur.1.min(r.1));
        if n.0 > n.1 {
            return false;
        }
        if self.fuel == 0 || self.done.get(&e) == Some(&n) || n == self.over(e) {
            return true;
        }
        self.fuel -= 1;
        self.done.insert(e, n);
        if n != cur {
            self.b.insert(e, n);
            self.memo.insert(e, n);
            self.changed = true;
        }
        let d = self.x.nodes[e as usize];
        let m = mask(d.w);
        match d.op {
            Op::Not => self.back(d.a, (1 - n.1, 1 - n.0)),
            Op::Ite => {
                let c = self.iv(d.a);
                if c == (1, 1) {
                    return self.back(d.b, n);
                }
                if c == (0, 0) {
                    return self.back(d.c, n);
                }
                let p = self.iv(d.b);
                let q = self.iv(d.c);
                if p.1 < n.0 || p.0 > n.1 {
                    self.back(d.a, (0, 0)) && self.back(d.c, n)
                } else if q.1 < n.0 || q.0 > n.1 {
                    self.back(d.a, (1, 1)) && self.back(d.b, n)
                } else {
                    true
                }
            }
            Op::ZExt => self.back(d.a, (n.0, n.1)),
            Op::Extract => {
                let a = self.iv(d.a);
                if a.1 >> d.b <= m {
                    self.back(d.a, (n.0 << d.b, n.1 << d.b | mask(d.b as u8)))
                } else {
                    true
                }
            }
            Op::Var | Op::Const | Op::SExt => true,
            _ => {
                let p = self.iv(d.a);
                let q = self.iv(d.b);
                match d.op {
                    Op::And if d.w == 1 => {
                        if n == (1, 1) {
                            self.back(d.a, n) && self.back(d.b, n)
                        } else if p == (1, 1) {
                            self.back(d.b, n)
                        } else if q == (1, 1) {
                            self.back(d.a, n)
                        } else {
                            true
                        }
                    }
                    Op::Or if d.w == 1 => {
                        if n == (0, 0) {
                            self.back(d.a, n) && self.back(d.b, n)
                        } else if p == (0, 0) {
                            self.back(d.b, n)
                        } else if q == (0, 0) {
                            self.back(d.a, n)
                        } else {
                            true
                        }
                    }
                    Op::Eq => {
                        if n == (1, 1) {
                            return self.back(d.a, q) && self.back(d.b, p);
                        }
                        if q.0 == q.1 && !self.differs(d.a, p, q.0) {
                            return false;
                        }
                        !(p.0 == p.1 && !self.differs(d.b, q, p.0))
                    }
                    Op::Ult => {
                        if n == (1, 1) {
                            q.1 > 0 && p.0 < mask(self.x.w(d.a)) && self.back(d.a, (0, q.1 - 1)) && self.back(d.b, (p.0 + 1, u128::MAX))
                        } else {
                            self.back(d.a, (q.0, u128::MAX)) && self.back(d.b, (0, p.1))
                        }
                    }
                    Op::Slt => {
                        let half = 1u128 << (self.x.w(d.a) - 1);
                        if q.0 == q.1 && q.0 >= half && n == (1, 1) {
                            return q.0 > half && self.back(d.a, (half, q.0 - 1));
                        }
                        if q.0 == q.1 && q.0 < half && n == (0, 0) {
                            return self.back(d.a, (q.0, half - 1));
                        }
                        true
                    }
                    Op::Add => {
                        if matches!(p.1.checked_add(q.1), Some(h) if h <= m) {
                            self.back(d.a, (n.0.saturating_sub(q.1), n.1.saturating_sub(q.0)))
                                && self.back(d.b, (n.0.saturating_sub(p.1), n.1.saturating_sub(p.0)))
                        } else if q.0 == q.1 {
                            let (l, h) = (n.0.wrapping_sub(q.0) & m, n.1.wrapping_sub(q.0) & m);
                            l > h || self.back(d.a, (l, h))
                        } else {
                            true
                        }
                    }
                    Op::Sub => {
                        if p.0 >= q.1 {
                            // a = r + b, b = a - r
                            self.back(d.a, (n.0.saturating_add(q.0), n.1.saturating_add(q.1)))
                                && self.back(d.b, (p.0.saturating_sub(n.1), p.1.saturating_sub(n.0)))
                        } else {
                            true
                        }
                    }
                    Op::Concat => {
                        let w = self.x.w(d.b);
                        let lm = mask(w);
                        let (l, h) = (n.0 >> w, n.1 >> w);
                        self.back(d.a, (l, h)) && (l != h || self.back(d.b, (n.0 & lm, n.1 & lm)))
                    }
                    Op::LShr if d.w <= 64 && q.0 == q.1 && q.0 < d.w as u128 => {
                        let k = q.0 as u32;
                        self.back(d.a, (n.0 << k, n.1 << k | mask(k as u8)))
                    }
                    Op::Shl if d.w <= 64 && q.0 == q.1 && q.0 < d.w as u128 && p.1 <= m >> q.0 => {
                        let k = q.0 as u32;
                        self.back(d.a, ((n.0 + mask(k as u8)) >> k, n.1 >> k))
                    }
                    _ => true,
                }
            }
        }
    }

    /// `e`, which lies in `i`, differs from `k`.
    fn differs(&mut self, e: E, i: Iv, k: u128) -> bool {
        if i == (k, k) {
            false
        } else if i.0 == k {
            self.back(e, (k + 1, i.1))
        } else if i.1 == k {
            self.back(e, (i.0, k - 1))
        } else {
            true
        }
    }
}
