//! Hash-consed bit-vector expressions (widths 1..=128) with a simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // k = hi<<16|lo
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Node, E>,
    // evaluation scratch
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
    pub vars: u32,
}

pub fn fold(op: Op, w: u32, aw: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let a = sext128(x, w);
            let b = sext128(y, w);
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let a = sext128(x, w);
            let b = sext128(y, w);
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext128(x, w);
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((a >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sext128(x, aw) < sext128(y, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            map: Default::default(),
            stamp: vec![],
            val: vec![],
            cur: 0,
            vars: 0,
        };
        a.konst(1, 0);
        a.konst(1, 1);
        a
    }
    fn mk(&mut self, nd: Node) -> E {
        if let Some(e) = self.map.get(&nd) {
            return *e;
        }
        let e = self.n.len() as E;
        self.n.push(nd);
        self.map.insert(nd, e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn konst(&mut self, w: u32, k: u128) -> E {
        debug_assert!(w >= 1 && w <= 128, "width {}", w);
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn t(&self) -> E {
        1
    }
    pub fn f(&self) -> E {
        0
    }
    pub fn var(&mut self, id: u32) -> E {
        if id >= self.vars {
            self.vars = id + 1;
        }
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn node(&self, e: E) -> Node {
        self.n[e as usize]
    }
    fn raw2(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w: w as u16, a, b, c: 0, k: 0 })
    }
    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.node(e);
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.is_const(n.b), self.is_const(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => aw,
        };
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold(op, w, aw, x, y);
            return self.konst(w, r);
        }
        // push through ite of constants
        if let (Some((c, x, y)), Some(k)) = (self.ite_consts(a), cb) {
            let p = fold(op, w, aw, x, k);
            let q = fold(op, w, aw, y, k);
            let p = self.konst(w, p);
            let q = self.konst(w, q);
            return self.ite(c, p, q);
        }
        if let (Some(k), Some((c, x, y))) = (ca, self.ite_consts(b)) {
            let p = fold(op, w, aw, k, x);
            let q = fold(op, w, aw, k, y);
            let p = self.konst(w, p);
            let q = self.konst(w, q);
            return self.ite(c, p, q);
        }
        if let (Some((c, x, y)), Some((d, u, v))) = (self.ite_consts(a), self.ite_consts(b)) {
            if c == d {
                let p = fold(op, w, aw, x, u);
                let q = fold(op, w, aw, y, v);
                let p = self.konst(w, p);
                let q = self.konst(w, q);
                return self.ite(c, p, q);
            }
        }
        match op {
            Op::Add => {
                let (a, b, ca, cb) = if ca.is_some() { (b, a, cb, ca) } else { (a, b, ca, cb) };
                let _ = ca;
                if cb == Some(0) {
                    return a;
                }
                let na = self.node(a);
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.is_const(na.b) {
                            let s = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, s);
                        }
                    }
                    return self.raw2(Op::Add, w, a, b);
                }
                // hoist constants
                if na.op == Op::Add && self.is_const(na.b).is_some() {
                    let s = self.bin(Op::Add, na.a, b);
                    return self.bin(Op::Add, s, na.b);
                }
                let nb = self.node(b);
                if nb.op == Op::Add && self.is_const(nb.b).is_some() {
                    let s = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, s, nb.b);
                }
                // x + (-1 * x) = 0
                if nb.op == Op::Mul && nb.a == a && self.is_const(nb.b) == Some(mask(w)) {
                    return self.konst(w, 0);
                }
                if na.op == Op::Mul && na.a == b && self.is_const(na.b) == Some(mask(w)) {
                    return self.konst(w, 0);
                }
                // (x + y) + -x
                if nb.op == Op::Mul && self.is_const(nb.b) == Some(mask(w)) && na.op == Op::Add {
                    if na.a == nb.a {
                        return na.b;
                    }
                    if na.b == nb.a {
                        return na.a;
                    }
                }
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                self.raw2(Op::Add, w, a, b)
            }
            Op::Mul => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                    let na = self.node(a);
                    if na.op == Op::Mul {
                        if let Some(k2) = self.is_const(na.b) {
                            let s = self.konst(w, k.wrapping_mul(k2));
                            return self.bin(Op::Mul, na.a, s);
                        }
                    }
                    // distribute over x + const
                    if na.op == Op::Add {
                        if let Some(k2) = self.is_const(na.b) {
                            let m = self.bin(Op::Mul, na.a, b);
                            let s = self.konst(w, k.wrapping_mul(k2));
                            return self.bin(Op::Add, m, s);
                        }
                    }
                    return self.raw2(Op::Mul, w, a, b);
                }
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                self.raw2(Op::Mul, w, a, b)
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k != 0 && self.umax(a) < k {
                        return self.konst(w, 0);
                    }
                }
                self.raw2(op, w, a, b)
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k == 1 {
                        return self.konst(w, 0);
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if k != 0 && self.umax(a) < k {
                        return a;
                    }
                }
                self.raw2(op, w, a, b)
            }
            Op::SDiv | Op::SRem => self.raw2(op, w, a, b),
            Op::And => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == mask(w) {
                        return a;
                    }
                    let na = self.node(a);
                    if na.op == Op::And {
                        if let Some(k2) = self.is_const(na.b) {
                            let s = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, s);
                        }
                    }
                    // contiguous mask: becomes zext(extract) shifted
                    let tz = k.trailing_zeros();
                    let body = k >> tz;
                    if (body & (body + 1)) == 0 {
                        let len = 128 - body.leading_zeros();
                        let x = self.extract(a, tz + len - 1, tz);
                        let mut r = x;
                        if tz > 0 {
                            let z = self.konst(tz, 0);
                            r = self.concat(r, z);
                        }
                        return self.zext(r, w);
                    }
                    return self.raw2(op, w, a, b);
                }
                let na = self.node(a);
                let nb = self.node(b);
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                    return self.konst(w, 0);
                }
                if w == 1 {
                    // absorb: a & (a & x)
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                    // x == c1 && x == c2
                    if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a {
                        if let (Some(p), Some(q)) = (self.is_const(na.b), self.is_const(nb.b)) {
                            if p != q {
                                return self.konst(1, 0);
                            }
                        }
                    }
                }
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                self.raw2(op, w, a, b)
            }
            Op::Or => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return b;
                    }
                    if w > 1 {
                        // split around the constant so that bytes stay visible
                        let na = self.node(a);
                        if na.op == Op::Concat {
                            let lw = self.w(na.b);
                            let kh = self.konst(w - lw, k >> lw);
                            let kl = self.konst(lw, k);
                            let h = self.bin(Op::Or, na.a, kh);
                            let l = self.bin(Op::Or, na.b, kl);
                            return self.concat(h, l);
                        }
                        if na.op == Op::ZExt {
                            let iw = self.w(na.a);
                            let kh = self.konst(w - iw, k >> iw);
                            let kl = self.konst(iw, k);
                            let l = self.bin(Op::Or, na.a, kl);
                            return self.concat(kh, l);
                        }
                    }
                    return self.raw2(op, w, a, b);
                }
                let na = self.node(a);
                let nb = self.node(b);
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                    return self.konst(w, mask(w));
                }
                if w == 1 {
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return b;
                    }
                } else {
                    // disjoint concatenations
                    for (x, y) in [(a, b), (b, a)] {
                        let nx = self.node(x);
                        let (hi, lo, lw) = if nx.op == Op::Concat {
                            (nx.a, nx.b, self.w(nx.b))
                        } else {
                            continue;
                        };
                        // y = concat(p, q) with the same split, or zext
                        let ny = self.node(y);
                        let (yh, yl) = if ny.op == Op::Concat && self.w(ny.b) == lw {
                            (ny.a, ny.b)
                        } else if ny.op == Op::ZExt || ny.op == Op::Concat {
                            (self.extract(y, w - 1, lw), self.extract(y, lw - 1, 0))
                        } else {
                            continue;
                        };
                        if self.is_const(yh) == Some(0) || self.is_const(lo) == Some(0) || self.is_const(yl) == Some(0) || self.is_const(hi) == Some(0) {
                            let h = self.bin(Op::Or, hi, yh);
                            let l = self.bin(Op::Or, lo, yl);
                            return self.concat(h, l);
                        }
                    }
                }
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                self.raw2(op, w, a, b)
            }
            Op::Xor => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return self.not(a);
                    }
                    let na = self.node(a);
                    if na.op == Op::Xor {
                        if let Some(k2) = self.is_const(na.b) {
                            let s = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, s);
                        }
                    }
                    return self.raw2(op, w, a, b);
                }
                if w == 1 {
                    let e = self.bin(Op::Eq, a, b);
                    return self.not(e);
                }
                // (x ^ y) ^ y = x
                let na = self.node(a);
                if na.op == Op::Xor {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                let nb = self.node(b);
                if nb.op == Op::Xor {
                    if nb.a == a {
                        return nb.b;
                    }
                    if nb.b == a {
                        return nb.a;
                    }
                }
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                self.raw2(op, w, a, b)
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let x = self.extract(a, w - k - 1, 0);
                    let z = self.konst(k, 0);
                    return self.concat(x, z);
                }
                if ca == Some(0) {
                    return a;
                }
                self.raw2(op, w, a, b)
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let x = self.extract(a, w - 1, k as u32);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
                self.raw2(op, w, a, b)
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let x = self.extract(a, w - 1, k);
                    return self.sext(x, w);
                }
                self.raw2(op, w, a, b)
            }
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            _ => unreachable!(),
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        self.bin(Op::Add, a, b)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.konst(w, 0);
        }
        let n = self.neg(b);
        self.bin(Op::Add, a, n)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.konst(w, mask(w));
        self.bin(Op::Mul, a, m)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.node(a);
        let w = n.w as u32;
        if n.op == Op::Const {
            return self.konst(w, !n.k);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let p = self.konst(w, !x);
            let q = self.konst(w, !y);
            return self.ite(c, p, q);
        }
        self.mk(Node { op: Op::Not, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    fn is_hi_zero(&self, e: E) -> bool {
        // top bit known zero
        let n = self.node(e);
        match n.op {
            Op::ZExt => true,
            Op::Const => n.k >> (n.w - 1) == 0,
            Op::Concat => self.is_hi_zero(n.a),
            Op::Ite => self.is_hi_zero(n.b) && self.is_hi_zero(n.c),
            _ => false,
        }
    }
    pub fn umax(&self, e: E) -> u128 {
        self.umax_d(e, 12)
    }
    fn umax_d(&self, e: E, d: u32) -> u128 {
        let n = self.node(e);
        let m = mask(n.w as u32);
        if d == 0 {
            return m;
        }
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax_d(n.a, d - 1),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.umax_d(n.a, d - 1) << lw) | self.umax_d(n.b, d - 1)
            }
            Op::And => self.umax_d(n.a, d - 1).min(self.umax_d(n.b, d - 1)),
            Op::Ite => self.umax_d(n.b, d - 1).max(self.umax_d(n.c, d - 1)),
            Op::URem => match self.is_const(n.b) {
                Some(k) if k > 0 => (k - 1).min(self.umax_d(n.a, d - 1)),
                _ => m,
            },
            Op::UDiv => match self.is_const(n.b) {
                Some(k) if k > 0 => self.umax_d(n.a, d - 1) / k,
                _ => m,
            },
            Op::Add => {
                let s = self.umax_d(n.a, d - 1).checked_add(self.umax_d(n.b, d - 1));
                match s {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Mul => {
                let s = self.umax_d(n.a, d - 1).checked_mul(self.umax_d(n.b, d - 1));
                match s {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            _ => m,
        }
    }
    pub fn tz(&self, e: E) -> u32 {
        let n = self.node(e);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w as u32
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Concat => {
                let l = self.tz(n.b);
                let lw = self.w(n.b);
                if l >= lw {
                    lw + self.tz(n.a)
                } else {
                    l
                }
            }
            Op::ZExt => {
                let l = self.tz(n.a);
                if l >= self.w(n.a) {
                    n.w as u32
                } else {
                    l
                }
            }
            Op::Add => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        let na = self.node(a);
        if let Some(k) = self.is_const(b) {
            if let Some(j) = self.is_const(a) {
                return if j == k { self.t() } else { self.f() };
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if k >> iw != 0 {
                        return self.f();
                    }
                    let c = self.konst(iw, k);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let lo = k & mask(iw);
                    if (sext128(lo, iw) as u128) & mask(w) != k {
                        return self.f();
                    }
                    let c = self.konst(iw, lo);
                    return self.eq(na.a, c);
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let h = self.konst(w - lw, k >> lw);
                    let l = self.konst(lw, k);
                    let x = self.eq(na.a, h);
                    if x == self.f() {
                        return x;
                    }
                    let y = self.eq(na.b, l);
                    return self.and(x, y);
                }
                Op::Ite => {
                    if let Some(j) = self.is_const(na.b) {
                        let r = self.eq(na.c, b);
                        return if j == k {
                            self.or(na.a, r)
                        } else {
                            let nc = self.not(na.a);
                            self.and(nc, r)
                        };
                    }
                    if let Some(j) = self.is_const(na.c) {
                        let r = self.eq(na.b, b);
                        return if j == k {
                            let nc = self.not(na.a);
                            self.or(nc, r)
                        } else {
                            self.and(na.a, r)
                        };
                    }
                }
                Op::Xor => {
                    if let Some(j) = self.is_const(na.b) {
                        let c = self.konst(w, k ^ j);
                        return self.eq(na.a, c);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Not => {
                    let c = self.konst(w, !k);
                    return self.eq(na.a, c);
                }
                Op::Add => {
                    if let Some(j) = self.is_const(na.b) {
                        let c = self.konst(w, k.wrapping_sub(j));
                        return self.eq(na.a, c);
                    }
                    if k == 0 {
                        let nb = self.node(na.b);
                        if nb.op == Op::Mul && self.is_const(nb.b) == Some(mask(w)) {
                            return self.eq(na.a, nb.a);
                        }
                        let nn = self.node(na.a);
                        if nn.op == Op::Mul && self.is_const(nn.b) == Some(mask(w)) {
                            return self.eq(na.b, nn.a);
                        }
                    }
                }
                Op::Or => {
                    if k == 0 {
                        let z = self.konst(w, 0);
                        let x = self.eq(na.a, z);
                        let y = self.eq(na.b, z);
                        return self.and(x, y);
                    }
                }
                _ => {}
            }
            if k > self.umax(a) {
                return self.f();
            }
        } else {
            let nb = self.node(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if na.op == Op::Not && nb.op == Op::Not {
                return self.eq(na.a, nb.a);
            }
            if w == 1 && (na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a) {
                return self.f();
            }
        }
        let (a, b) = if self.is_const(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.raw2(Op::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return if x < y { self.t() } else { self.f() };
        }
        let na = self.node(a);
        let nb = self.node(b);
        if let Some(k) = cb {
            if k == 0 {
                return self.f();
            }
            if self.umax(a) < k {
                return self.t();
            }
            if k == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            if k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                if k >> iw != 0 {
                    return self.t();
                }
                let c = self.konst(iw, k);
                return self.ult(na.a, c);
            }
            if na.op == Op::Ite && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let y = self.ult(na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        if let Some(k) = ca {
            if k == mask(w) {
                return self.f();
            }
            if k >= self.umax(b) {
                return self.f();
            }
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                let c = self.konst(iw, k);
                return self.ult(c, nb.a);
            }
            if nb.op == Op::Ite && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
                let x = self.ult(a, nb.b);
                let y = self.ult(a, nb.c);
                return self.ite(nb.a, x, y);
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.raw2(Op::Ult, 1, a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return if sext128(x, w) < sext128(y, w) { self.t() } else { self.f() };
        }
        let za = self.is_hi_zero(a);
        let zb = self.is_hi_zero(b);
        if za && zb {
            return self.ult(a, b);
        }
        if self.is_const(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if let Some(k) = self.is_const(b) {
            if za && k >> (w - 1) != 0 {
                return self.f();
            }
            if k == mask(w) {
                // a < -1
                let e = self.eq(a, b);
                let s = self.extract(a, w - 1, w - 1);
                let n = self.not(e);
                return self.and(s, n);
            }
        }
        if let Some(k) = self.is_const(a) {
            if zb && k >> (w - 1) != 0 {
                return self.t();
            }
            if k == mask(w) {
                // -1 < b  <=> b >= 0
                let s = self.extract(b, w - 1, w - 1);
                return self.not(s);
            }
        }
        self.raw2(Op::Slt, 1, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let na = self.node(a);
        let a = if na.op == Op::Ite && na.a == c { na.b } else { a };
        let nb = self.node(b);
        let b = if nb.op == Op::Ite && nb.a == c { nb.c } else { b };
        if a == b {
            return a;
        }
        let nb = self.node(b);
        // ite(c, a, ite(d, a, y)) = ite(c|d, a, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, k);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let p = self.konst(w, x);
            let q = self.konst(w, y);
            return self.ite(c, p, q);
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, sext128(k, aw) as u128);
        }
        if aw == 1 {
            let p = self.konst(w, mask(w));
            let q = self.konst(w, 0);
            return self.ite(a, p, q);
        }
        if self.is_hi_zero(a) {
            return self.zext(a, w);
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let p = self.konst(w, sext128(x, aw) as u128);
            let q = self.konst(w, sext128(y, aw) as u128);
            return self.ite(c, p, q);
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let hw = self.w(h);
        let lw = self.w(l);
        let w = hw + lw;
        debug_assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.is_const(h), self.is_const(l)) {
            return self.konst(w, (x << lw) | y);
        }
        if self.is_const(h) == Some(0) {
            return self.zext(l, w);
        }
        let nh = self.node(h);
        let nl = self.node(l);
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt {
            let iw = self.w(nh.a);
            let _ = iw;
            let r = self.concat(nh.a, l);
            return self.zext(r, w);
        }
        // merging adjacent extracts
        let (xh, hh, hl) = if nh.op == Op::Extract {
            (nh.a, (nh.k >> 16) as u32, (nh.k & 0xffff) as u32)
        } else {
            (h, hw - 1, 0)
        };
        if nl.op == Op::Extract && nl.a == xh {
            let lh = (nl.k >> 16) as u32;
            let ll = (nl.k & 0xffff) as u32;
            if lh + 1 == hl {
                return self.extract(xh, hh, ll);
            }
        }
        if nl.op == Op::Concat {
            let nn = self.node(nl.a);
            if nn.op == Op::Extract && nn.a == xh {
                let lh = (nn.k >> 16) as u32;
                let ll = (nn.k & 0xffff) as u32;
                if lh + 1 == hl {
                    let m = self.extract(xh, hh, ll);
                    return self.concat(m, nl.b);
                }
            }
            if let (Some(x), Some(y)) = (self.is_const(h), self.is_const(nl.a)) {
                let iw = self.w(nl.a);
                let m = self.konst(hw + iw, (x << iw) | y);
                return self.raw2(Op::Concat, w, m, nl.b);
            }
        }
        // sign-extension pieces: not needed
        self.raw2(Op::Concat, w, h, l)
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let n = self.node(a);
        let w = n.w as u32;
        debug_assert!(hi < w && lo <= hi);
        if lo == 0 && hi + 1 == w {
            return a;
        }
        let rw = hi - lo + 1;
        match n.op {
            Op::Const => self.konst(rw, n.k >> lo),
            Op::Extract => {
                let l0 = (n.k & 0xffff) as u32;
                self.extract(n.a, hi + l0, lo + l0)
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    self.extract(n.b, hi, lo)
                } else if lo >= lw {
                    self.extract(n.a, hi - lw, lo - lw)
                } else {
                    let x = self.extract(n.a, hi - lw, 0);
                    let y = self.extract(n.b, lw - 1, lo);
                    self.concat(x, y)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    self.extract(n.a, hi, lo)
                } else if lo >= iw {
                    self.konst(rw, 0)
                } else {
                    let x = self.extract(n.a, iw - 1, lo);
                    self.zext(x, rw)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    self.extract(n.a, hi, lo)
                } else if lo >= iw {
                    let s = self.extract(n.a, iw - 1, iw - 1);
                    self.sext(s, rw)
                } else {
                    let x = self.extract(n.a, iw - 1, lo);
                    self.sext(x, rw)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                self.not(x)
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
                self.mk(Node { op: Op::Extract, w: rw as u16, a, b: 0, c: 0, k: ((hi as u128) << 16) | lo as u128 })
            }
            _ => self.mk(Node { op: Op::Extract, w: rw as u16, a, b: 0, c: 0, k: ((hi as u128) << 16) | lo as u128 }),
        }
    }

    /// Evaluate under an assignment of the byte variables.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        if self.stamp.len() < self.n.len() {
            let l = self.n.len() + 4096;
            self.stamp.resize(l, 0);
            self.val.resize(l, 0);
        }
        self.cur += 1;
        self.ev(e, model)
    }
    /// Evaluate several expressions sharing the memo table.
    pub fn eval_more(&mut self, e: E, model: &[u8]) -> u128 {
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.cur {
            return self.val[e as usize];
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, model) == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Not => !self.ev(n.a, model) & mask(w),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                (sext128(self.ev(n.a, model), iw) as u128) & mask(w)
            }
            Op::Extract => (self.ev(n.a, model) >> (n.k & 0xffff)) & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model) << lw) | self.ev(n.b, model)
            }
            Op::And if w == 1 => {
                if self.ev(n.a, model) == 0 {
                    0
                } else {
                    self.ev(n.b, model)
                }
            }
            op => {
                let x = self.ev(n.a, model);
                let y = self.ev(n.b, model);
                let aw = self.w(n.a);
                fold(op, w, aw, x, y)
            }
        };
        self.stamp[e as usize] = self.cur;
        self.val[e as usize] = r;
        r
    }
    /// Variables an expression depends on.
    pub fn support(&self, e: E) -> Vec<u32> {
        let mut seen: std::collections::HashSet<E, FxB> = Default::default();
        let mut st = vec![e];
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.n[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.k as u32),
                Op::Not | Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c)
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b)
                }
            }
        }
        out.sort_unstable();
        out
    }
    /// SMT-LIB2 text for a set of boolean constraints (used for cross-checks).
    pub fn smt2(&self, cs: &[E]) -> String {
        let mut s = String::from("(set-logic QF_BV)\n");
        let mut names: FxMap<E, String> = Default::default();
        let mut vars: std::collections::BTreeSet<u32> = Default::default();
        for c in cs {
            for v in self.support(*c) {
                vars.insert(v);
            }
        }
        for v in &vars {
            s += &format!("(declare-const v{} (_ BitVec 8))\n", v);
        }
        let mut defs = String::new();
        for c in cs {
            self.smt_node(*c, &mut names, &mut defs);
        }
        s += &defs;
        for c in cs {
            s += &format!("(assert (= {} #b1))\n", names[c]);
        }
        s += "(check-sat)\n";
        s
    }
    fn smt_node(&self, e: E, names: &mut FxMap<E, String>, defs: &mut String) {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if names.contains_key(&x) {
                continue;
            }
            let n = self.n[x as usize];
            if n.op == Op::Const {
                names.insert(x, format!("(_ bv{} {})", n.k, n.w));
                continue;
            }
            if n.op == Op::Var {
                names.insert(x, format!("v{}", n.k));
                continue;
            }
            let kids: Vec<E> = match n.op {
                Op::Not | Op::ZExt | Op::SExt | Op::Extract => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            if !done {
                st.push((x, true));
                for k in kids {
                    st.push((k, false));
                }
                continue;
            }
            let a = &names[&n.a];
            let g = |i: E| names[&i].clone();
            let t = match n.op {
                Op::Add => format!("(bvadd {} {})", a, g(n.b)),
                Op::Mul => format!("(bvmul {} {})", a, g(n.b)),
                Op::UDiv => format!("(bvudiv {} {})", a, g(n.b)),
                Op::SDiv => format!("(bvsdiv {} {})", a, g(n.b)),
                Op::URem => format!("(bvurem {} {})", a, g(n.b)),
                Op::SRem => format!("(bvsrem {} {})", a, g(n.b)),
                Op::And => format!("(bvand {} {})", a, g(n.b)),
                Op::Or => format!("(bvor {} {})", a, g(n.b)),
                Op::Xor => format!("(bvxor {} {})", a, g(n.b)),
                Op::Not => format!("(bvnot {})", a),
                Op::Shl => format!("(bvshl {} {})", a, g(n.b)),
                Op::LShr => format!("(bvlshr {} {})", a, g(n.b)),
                Op::AShr => format!("(bvashr {} {})", a, g(n.b)),
                Op::Concat => format!("(concat {} {})", a, g(n.b)),
                Op::Extract => format!("((_ extract {} {}) {})", n.k >> 16, n.k & 0xffff, a),
                Op::ZExt => format!("((_ zero_extend {}) {})", n.w as u32 - self.w(n.a), a),
                Op::SExt => format!("((_ sign_extend {}) {})", n.w as u32 - self.w(n.a), a),
                Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a, g(n.b)),
                Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a, g(n.b)),
                Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a, g(n.b)),
                Op::Ite => format!("(ite (= {} #b1) {} {})", a, g(n.b), g(n.c)),
                _ => unreachable!(),
            };
            let nm = format!("e{}", x);
            *defs += &format!("(define-fun {} () (_ BitVec {}) {})\n", nm, n.w, t);
            names.insert(x, nm);
        }
    }
}
