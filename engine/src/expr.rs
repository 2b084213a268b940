//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    SExt,
    Ite,
    Hash,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
    /// Concat operands, least significant first.
    pub xs: Option<Rc<[Eid]>>,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Eid>,
    pub vars: Vec<String>,
    varmap: HashMap<String, Eid>,
    /// hashes do not collide: H(x) = H(y) is x = y
    pub inj: bool,
    /// node depends on variables (sorted small set) - lazily computed
    pub deps: HashMap<Eid, Rc<Vec<u32>>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub const UF_DEP: u32 = u32::MAX;

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { nodes: vec![], map: HashMap::new(), vars: vec![], varmap: HashMap::new(), inj: false, deps: HashMap::new() };
        // id 0 is reserved: "no expression" in memory cells
        p.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0, xs: None });
        p
    }
    fn mk(&mut self, n: Node) -> Eid {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as Eid;
        self.nodes.push(n.clone());
        self.map.insert(n, e);
        e
    }
    fn mk2(&mut self, op: Op, w: u32, a: Eid, b: Eid) -> Eid {
        self.mk(Node { op, w, a, b, c: 0, k: 0, xs: None })
    }
    /// `a != b` without simplification: an obligation the rewriter could fold, put to the solver as is.
    pub fn raw_ne(&mut self, a: Eid, b: Eid) -> Eid {
        let q = self.mk2(Op::Eq, 1, a, b);
        let one = self.konst(1, 1);
        self.mk2(Op::Xor, 1, q, one)
    }
    #[inline]
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn op(&self, e: Eid) -> Op {
        self.nodes[e as usize].op
    }
    #[inline]
    pub fn cval(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Eid {
        assert!(w > 0 && w <= 128);
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w), xs: None })
    }
    /// zero of any width
    pub fn zero(&mut self, w: u32) -> Eid {
        if w <= 128 {
            return self.konst(0, w);
        }
        let mut xs = vec![];
        let mut r = w;
        while r > 0 {
            let t = r.min(128);
            xs.push(self.konst(0, t));
            r -= t;
        }
        self.concat(&xs)
    }
    pub fn var(&mut self, name: &str, w: u32) -> Eid {
        if let Some(&e) = self.varmap.get(name) {
            assert_eq!(self.w(e), w, "variable {} redeclared with another width", name);
            return e;
        }
        let i = self.vars.len() as u32;
        self.vars.push(name.to_string());
        let e = self.mk(Node { op: Op::Var, w, a: i, b: 0, c: 0, k: 0, xs: None });
        self.varmap.insert(name.to_string(), e);
        e
    }
    pub fn bool_(&mut self, b: bool) -> Eid {
        self.konst(b as u128, 1)
    }
    pub fn not1(&mut self, a: Eid) -> Eid {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    pub fn hash(&mut self, arg: Eid, outw: u32) -> Eid {
        self.mk(Node { op: Op::Hash, w: outw, a: arg, b: 0, c: 0, k: 0, xs: None })
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // ite(not c, a, b) -> ite(c, b, a)
        let n = &self.nodes[c as usize];
        if n.op == Op::Xor && self.cval(n.b) == Some(1) {
            let c2 = n.a;
            return self.ite(c2, b, a);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0, xs: None })
    }
    /// operands least significant first
    pub fn concat(&mut self, parts: &[Eid]) -> Eid {
        let mut out: Vec<Eid> = Vec::with_capacity(parts.len());
        for &p in parts {
            if self.op(p) == Op::Concat {
                let xs = self.nodes[p as usize].xs.clone().unwrap();
                for &q in xs.iter() {
                    self.cpush(&mut out, q);
                }
            } else {
                self.cpush(&mut out, p);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        let w = out.iter().map(|&e| self.w(e)).sum();
        self.mk(Node { op: Op::Concat, w, a: 0, b: 0, c: 0, k: 0, xs: Some(out.into()) })
    }
    fn cpush(&mut self, out: &mut Vec<Eid>, p: Eid) {
        if let Some(&last) = out.last() {
            let (lw, pw) = (self.w(last), self.w(p));
            if let (Some(a), Some(b)) = (self.cval(last), self.cval(p)) {
                if lw + pw <= 128 {
                    let e = self.konst(a | (b << lw), lw + pw);
                    *out.last_mut().unwrap() = e;
                    return;
                }
            }
            // adjacent extracts of one base
            let (ln, pn) = (&self.nodes[last as usize], &self.nodes[p as usize]);
            if ln.op == Op::Extract && pn.op == Op::Extract && ln.a == pn.a && ln.b + ln.w == pn.b {
                let (base, lo, w) = (ln.a, ln.b, ln.w + pn.w);
                let e = self.extract(base, lo, w);
                *out.last_mut().unwrap() = e;
                return;
            }
            // ite(c,a1,b1) ++ ite(c,a2,b2)
            if ln.op == Op::Ite && pn.op == Op::Ite && ln.a == pn.a {
                let (c, a1, b1, a2, b2) = (ln.a, ln.b, ln.c, pn.b, pn.c);
                let x = self.concat(&[a1, a2]);
                let y = self.concat(&[b1, b2]);
                let e = self.ite(c, x, y);
                *out.last_mut().unwrap() = e;
                return;
            }
        }
        out.push(p);
    }
    pub fn zext(&mut self, e: Eid, w: u32) -> Eid {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        let z = self.zero(w - ew);
        self.concat(&[e, z])
    }
    pub fn sext(&mut self, e: Eid, w: u32) -> Eid {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        if let Some(v) = self.cval(e) {
            return self.konst(sext(v, ew) as u128, w);
        }
        // top part constant zero => zext
        if self.op(e) == Op::Concat {
            let xs = self.nodes[e as usize].xs.clone().unwrap();
            let top = *xs.last().unwrap();
            if let Some(v) = self.cval(top) {
                if v >> (self.w(top) - 1) & 1 == 0 {
                    return self.zext(e, w);
                }
            }
        }
        self.mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0, k: 0, xs: None })
    }
    pub fn extract(&mut self, e: Eid, lo: u32, w: u32) -> Eid {
        let n = &self.nodes[e as usize];
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = n.k >> lo;
                self.konst(v, w)
            }
            Op::Extract => {
                let (a, b) = (n.a, n.b);
                self.extract(a, b + lo, w)
            }
            Op::Concat => {
                let xs = n.xs.clone().unwrap();
                let mut pos = 0;
                let mut out = vec![];
                for &x in xs.iter() {
                    let xw = self.w(x);
                    let (s, t) = (pos.max(lo), (pos + xw).min(lo + w));
                    if s < t {
                        out.push(self.extract(x, s - pos, t - s));
                    }
                    pos += xw;
                    if pos >= lo + w {
                        break;
                    }
                }
                self.concat(&out)
            }
            Op::SExt => {
                let (a, aw) = (n.a, self.w(n.a));
                if lo + w <= aw {
                    return self.extract(a, lo, w);
                }
                self.mk(Node { op: Op::Extract, w, a: e, b: lo, c: 0, k: 0, xs: None })
            }
            Op::Ite => {
                let (c, a, b) = (n.a, n.b, n.c);
                if self.cval(a).is_some() || self.cval(b).is_some() || self.op(a) == Op::Concat || self.op(b) == Op::Concat {
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    return self.ite(c, x, y);
                }
                self.mk(Node { op: Op::Extract, w, a: e, b: lo, c: 0, k: 0, xs: None })
            }
            Op::And | Op::Or | Op::Xor => {
                let (op, a, b) = (n.op, n.a, n.b);
                if self.cval(a).is_some() || self.cval(b).is_some() || self.op(a) == Op::Concat || self.op(b) == Op::Concat {
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    return self.bin(op, x, y);
                }
                self.mk(Node { op: Op::Extract, w, a: e, b: lo, c: 0, k: 0, xs: None })
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (op, a, b) = (n.op, n.a, n.b);
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                self.bin(op, x, y)
            }
            _ => self.mk(Node { op: Op::Extract, w, a: e, b: lo, c: 0, k: 0, xs: None }),
        }
    }
    pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    (if x < 0 { 1 } else { m }) & m
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                (sext(a, w) >> s.min(127)) as u128 & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext(a, w) < sext(b, w)) as u128,
            Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
            _ => unreachable!(),
        }
    }
    /// number of known-zero top bits
    fn lead_zero(&self, e: Eid) -> u32 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => {
                let v = n.k;
                n.w - (128 - v.leading_zeros())
            }
            Op::Concat => {
                let xs = n.xs.as_ref().unwrap();
                let mut z = 0;
                for &x in xs.iter().rev() {
                    let l = self.lead_zero(x);
                    z += l;
                    if l < self.w(x) {
                        break;
                    }
                }
                z
            }
            Op::URem => {
                if let Some(v) = self.cval(n.b) {
                    if v > 0 {
                        return n.w - (128 - (v - 1).leading_zeros());
                    }
                }
                0
            }
            Op::UDiv => self.lead_zero(n.a),
            Op::And => self.lead_zero(n.a).max(self.lead_zero(n.b)),
            Op::Or | Op::Xor => self.lead_zero(n.a).min(self.lead_zero(n.b)),
            Op::Ite => self.lead_zero(n.b).min(self.lead_zero(n.c)),
            Op::LShr => self.lead_zero(n.a),
            Op::Add => self.lead_zero(n.a).min(self.lead_zero(n.b)).saturating_sub(1),
            Op::Mul => {
                let s = (n.w - self.lead_zero(n.a)) + (n.w - self.lead_zero(n.b));
                n.w.saturating_sub(s)
            }
            _ => 0,
        }
    }
    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
            return self.konst(Self::fold(op, w, x, y), rw);
        }
        // commutative: constant on the right, otherwise order by id
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    (b, a, cb, ca)
                } else {
                    (a, b, ca, cb)
                }
            }
            _ => (a, b, ca, cb),
        };
        let _ = ca;
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let n = &self.nodes[a as usize];
                    if n.op == Op::Add {
                        if let Some(x) = self.cval(n.b) {
                            let base = n.a;
                            let k = self.konst(x.wrapping_add(y), w);
                            return self.bin(Op::Add, base, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.zero(w);
                }
                if let Some(y) = cb {
                    let k = self.konst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                // (x + c) - x
                let n = &self.nodes[a as usize];
                if n.op == Op::Add && (n.a == b || n.b == b) {
                    return if n.a == b { n.b } else { n.a };
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y == 1 {
                        return self.zero(w);
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = y.trailing_zeros();
                        let x = self.extract(a, 0, s);
                        return self.zext(x, w);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == mask(w) {
                        return a;
                    }
                    // contiguous mask
                    let lo = y.trailing_zeros();
                    let t = y >> lo;
                    if w <= 128 && (t & t.wrapping_add(1)) == 0 {
                        let len = 128 - t.leading_zeros();
                        let mut xs = vec![];
                        if lo > 0 {
                            xs.push(self.zero(lo));
                        }
                        xs.push(self.extract(a, lo, len));
                        if lo + len < w {
                            xs.push(self.zero(w - lo - len));
                        }
                        return self.concat(&xs);
                    }
                }
                if w == 1 {
                    // x & !x
                    let n1 = self.not1(a);
                    if n1 == b {
                        return self.konst(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == mask(w) {
                        return b;
                    }
                }
                if w == 1 {
                    let n1 = self.not1(a);
                    if n1 == b {
                        return self.konst(1, 1);
                    }
                }
                // or of disjoint concats (shl/zext combination)
                if let Some(e) = self.or_disjoint(a, b) {
                    return e;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.zero(w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let n = &self.nodes[a as usize];
                    if n.op == Op::Xor {
                        if let Some(x) = self.cval(n.b) {
                            let base = n.a;
                            let k = self.konst(x ^ y, w);
                            return self.bin(Op::Xor, base, k);
                        }
                    }
                    if w == 1 {
                        // not of comparison
                        match n.op {
                            Op::Ult => {
                                let (p, q) = (n.a, n.b);
                                return self.bin(Op::Ule, q, p);
                            }
                            Op::Ule => {
                                let (p, q) = (n.a, n.b);
                                return self.bin(Op::Ult, q, p);
                            }
                            Op::Slt => {
                                let (p, q) = (n.a, n.b);
                                return self.bin(Op::Sle, q, p);
                            }
                            Op::Sle => {
                                let (p, q) = (n.a, n.b);
                                return self.bin(Op::Slt, q, p);
                            }
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.zero(w);
                    }
                    if y == 0 {
                        return a;
                    }
                    let y = y as u32;
                    let z = self.zero(y);
                    let x = self.extract(a, 0, w - y);
                    return self.concat(&[z, x]);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.zero(w);
                    }
                    if y == 0 {
                        return a;
                    }
                    let y = y as u32;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    let y = if y >= w as u128 { w - 1 } else { y as u32 };
                    if y == 0 {
                        return a;
                    }
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not1(a) };
                    }
                }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize].clone();
                    match n.op {
                        Op::Add => {
                            if let Some(x) = self.cval(n.b) {
                                let k = self.konst(y.wrapping_sub(x), w);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.cval(n.b) {
                                let k = self.konst(y ^ x, w);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Ite => {
                            if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                                let p = self.bin(Op::Eq, n.b, b);
                                let q = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, p, q);
                            }
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let t = y & mask(iw);
                            if sext(t, iw) as u128 & mask(w) == y {
                                let k = self.konst(t, iw);
                                return self.bin(Op::Eq, n.a, k);
                            }
                            return self.konst(0, 1);
                        }
                        _ => {}
                    }
                }
                if self.inj && self.op(a) == Op::Hash && self.op(b) == Op::Hash {
                    let (x, y) = (self.nodes[a as usize].a, self.nodes[b as usize].a);
                    if self.w(x) != self.w(y) {
                        return self.konst(0, 1);
                    }
                    return self.bin(Op::Eq, x, y);
                }
                if self.op(a) == Op::Concat || self.op(b) == Op::Concat {
                    // compare piecewise at the union of the cut points
                    let cuts = {
                        let mut c = self.cuts(a);
                        c.extend(self.cuts(b));
                        c.sort();
                        c.dedup();
                        c
                    };
                    let mut acc = self.konst(1, 1);
                    let mut pos = 0;
                    for c in cuts {
                        let x = self.extract(a, pos, c - pos);
                        let y = self.extract(b, pos, c - pos);
                        let e = self.bin(Op::Eq, x, y);
                        acc = self.bin(Op::And, acc, e);
                        if self.cval(acc) == Some(0) {
                            return acc;
                        }
                        pos = c;
                    }
                    return acc;
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.bool_(op == Op::Ule);
                }
                if op == Op::Ult && cb == Some(0) {
                    return self.konst(0, 1);
                }
                if op == Op::Ule && ca == Some(0) {
                    return self.konst(1, 1);
                }
                if op == Op::Ult && ca == Some(0) {
                    let z = self.zero(w);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not1(e);
                }
                if op == Op::Ult && cb == Some(1) {
                    let z = self.zero(w);
                    return self.bin(Op::Eq, a, z);
                }
                let (la, lb) = (self.lead_zero(a), self.lead_zero(b));
                let z = la.min(lb);
                if z == w {
                    // both zero
                    return self.bool_(op == Op::Ule);
                }
                if z > 0 && w <= 128 {
                    let nw = w - z;
                    // only when it makes progress (avoid infinite recursion)
                    if self.op(a) != Op::Const || self.op(b) != Op::Const {
                        let x = self.extract(a, 0, nw);
                        let y = self.extract(b, 0, nw);
                        return self.bin(op, x, y);
                    }
                }
                // constant bound outside the range of the other side
                if let Some(y) = self.cval(b) {
                    if la < w {
                        let maxa = mask(w - la);
                        if y > maxa || (op == Op::Ule && y >= maxa) {
                            return self.konst(1, 1);
                        }
                    }
                }
                if let Some(x) = self.cval(a) {
                    let maxb = mask(w - lb);
                    if x > maxb || (op == Op::Ult && x >= maxb) {
                        return self.konst(0, 1);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.bool_(op == Op::Sle);
                }
                if self.lead_zero(a) > 0 && self.lead_zero(b) > 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // x < 0
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
            }
            _ => {}
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        self.mk2(op, rw, a, b)
    }
    fn cuts(&self, e: Eid) -> Vec<u32> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Concat {
            let mut v = vec![];
            let mut p = 0;
            for &x in n.xs.as_ref().unwrap().iter() {
                p += self.w(x);
                v.push(p);
            }
            v
        } else {
            vec![n.w]
        }
    }
    fn or_disjoint(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        if self.op(a) != Op::Concat && self.op(b) != Op::Concat {
            return None;
        }
        let mut cuts = self.cuts(a);
        cuts.extend(self.cuts(b));
        cuts.sort();
        cuts.dedup();
        let mut pos = 0;
        let mut out = vec![];
        for c in cuts {
            let x = self.extract(a, pos, c - pos);
            let y = self.extract(b, pos, c - pos);
            if self.is_zero(x) {
                out.push(y);
            } else if self.is_zero(y) {
                out.push(x);
            } else {
                return None;
            }
            pos = c;
        }
        Some(self.concat(&out))
    }
    fn is_zero(&self, e: Eid) -> bool {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => n.k == 0,
            Op::Concat => n.xs.as_ref().unwrap().iter().all(|&x| self.is_zero(x)),
            _ => false,
        }
    }
    pub fn children(&self, e: Eid, f: &mut dyn FnMut(Eid)) {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const | Op::Var => {}
            Op::Concat => n.xs.as_ref().unwrap().iter().for_each(|&x| f(x)),
            Op::Extract | Op::SExt | Op::Hash => f(n.a),
            Op::Ite => {
                f(n.a);
                f(n.b);
                f(n.c)
            }
            _ => {
                f(n.a);
                f(n.b)
            }
        }
    }
    /// Variables an expression mentions; `UF_DEP` stands for "mentions the hash function".
    pub fn deps(&mut self, e: Eid) -> Rc<Vec<u32>> {
        if let Some(d) = self.deps.get(&e) {
            return d.clone();
        }
        let n = self.nodes[e as usize].clone();
        let mut v: Vec<u32> = vec![];
        if n.op == Op::Var {
            v.push(n.a);
        } else {
            if n.op == Op::Hash {
                v.push(UF_DEP);
            }
            let mut ch = vec![];
            self.children(e, &mut |x| ch.push(x));
            for c in ch {
                let d = self.deps(c);
                v.extend(d.iter());
            }
            v.sort();
            v.dedup();
        }
        let r = Rc::new(v);
        self.deps.insert(e, r.clone());
        r
    }
    /// `e` with variable `var` replaced by `by`.
    pub fn subst(&mut self, e: Eid, var: Eid, by: Eid, memo: &mut HashMap<Eid, Eid>) -> Eid {
        if e == var {
            return by;
        }
        let id = self.nodes[var as usize].a;
        if !self.deps(e).contains(&id) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.nodes[e as usize].clone();
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Concat => {
                let xs: Vec<Eid> = n.xs.as_ref().unwrap().iter().map(|&x| self.subst(x, var, by, memo)).collect();
                self.concat(&xs)
            }
            Op::Extract => {
                let a = self.subst(n.a, var, by, memo);
                self.extract(a, n.b, n.w)
            }
            Op::SExt => {
                let a = self.subst(n.a, var, by, memo);
                self.sext(a, n.w)
            }
            Op::Hash => {
                let a = self.subst(n.a, var, by, memo);
                self.hash(a, n.w)
            }
            Op::Ite => {
                let a = self.subst(n.a, var, by, memo);
                let b = self.subst(n.b, var, by, memo);
                let c = self.subst(n.c, var, by, memo);
                self.ite(a, b, c)
            }
            op => {
                let a = self.subst(n.a, var, by, memo);
                let b = self.subst(n.b, var, by, memo);
                self.bin(op, a, b)
            }
        };
        memo.insert(e, r);
        r
    }
    /// Equivalent constraint set with `var = e` conjuncts used to rewrite the others.
    pub fn propagate(&mut self, cs: &[Eid]) -> Vec<Eid> {
        let mut todo: Vec<Eid> = cs.to_vec();
        let mut defs: Vec<(Eid, Eid)> = vec![];
        let mut rest: Vec<Eid> = vec![];
        while let Some(mut c) = todo.pop() {
            for &(v, by) in &defs {
                c = self.subst(c, v, by, &mut HashMap::new());
            }
            let n = self.nodes[c as usize].clone();
            if n.op == Op::Const && n.k == 1 {
                continue;
            }
            if n.op == Op::And && n.w == 1 {
                todo.push(n.a);
                todo.push(n.b);
                continue;
            }
            let mut def = None;
            if n.op == Op::Eq && self.w(n.a) >= 8 {
                for (v, by) in [(n.a, n.b), (n.b, n.a)] {
                    if self.op(v) == Op::Var {
                        let id = self.nodes[v as usize].a;
                        if !self.deps(by).contains(&id) {
                            def = Some((v, by));
                            break;
                        }
                    }
                }
            }
            match def {
                Some((v, by)) => {
                    for d in defs.iter_mut() {
                        d.1 = self.subst(d.1, v, by, &mut HashMap::new());
                    }
                    defs.push((v, by));
                    todo.append(&mut rest);
                }
                None => rest.push(c),
            }
        }
        for (v, by) in defs {
            let e = self.bin(Op::Eq, v, by);
            rest.push(e);
        }
        rest.sort();
        rest.dedup();
        rest
    }
    /// Evaluate under a (partial) assignment of nodes; None if undetermined or wider than 128 bits.
    pub fn eval(&self, e: Eid, known: &HashMap<Eid, u128>, memo: &mut HashMap<Eid, Option<u128>>) -> Option<u128> {
        if let Some(&v) = known.get(&e) {
            return Some(v);
        }
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            return Some(n.k);
        }
        if n.w > 128 || n.op == Op::Var {
            return None;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = match n.op {
            Op::Concat => {
                let mut v = 0u128;
                let mut p = 0;
                let mut ok = true;
                for &x in n.xs.as_ref().unwrap().iter() {
                    match self.eval(x, known, memo) {
                        Some(t) => {
                            v |= t << p;
                            p += self.w(x)
                        }
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    Some(v)
                } else {
                    None
                }
            }
            Op::Extract => self.eval(n.a, known, memo).map(|v| (v >> n.b) & mask(n.w)),
            Op::SExt => self.eval(n.a, known, memo).map(|v| sext(v, self.w(n.a)) as u128 & mask(n.w)),
            Op::Ite => match self.eval(n.a, known, memo) {
                Some(c) => self.eval(if c != 0 { n.b } else { n.c }, known, memo),
                None => None,
            },
            Op::Hash => None,
            Op::And => match (self.eval(n.a, known, memo), self.eval(n.b, known, memo)) {
                (Some(x), Some(y)) => Some(x & y),
                (Some(0), _) | (_, Some(0)) => Some(0),
                _ => None,
            },
            op => match (self.eval(n.a, known, memo), self.eval(n.b, known, memo)) {
                (Some(x), Some(y)) => Some(Self::fold(op, self.w(n.a), x, y)),
                _ => None,
            },
        };
        memo.insert(e, r);
        r
    }
}
