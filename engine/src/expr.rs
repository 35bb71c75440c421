//! Hash-consed bit-vector expressions (1..=128 bits) with a local simplifier.
//!
//! Every simplification is an equivalence over all values of the variables, so the
//! solver only ever sees expressions equal to the ones the program computed.

use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    /// Const: low 64 bits (a/b hold the high bits); Var: variable id; Extract: low bit.
    pub k: u64,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub supp: u32,
    /// unsigned bounds (only meaningful for w <= 64)
    pub lo: u64,
    pub hi: u64,
    /// mask of bits known to be zero
    pub kz: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E, Fx>,
    pub supps: Vec<Vec<u32>>,
    supp_map: HashMap<Vec<u32>, u32>,
    supp_union: HashMap<(u32, u32), u32, Fx>,
    pub vars: Vec<(String, u8, E)>, // name, width, expr
    pub var_map: HashMap<(u32, u8), u32>,
    // evaluation memo
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Model {
    pub id: u32,
    pub vals: Vec<u128>,
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            info: vec![],
            map: HashMap::default(),
            supps: vec![vec![]],
            supp_map: HashMap::new(),
            supp_union: HashMap::default(),
            vars: vec![],
            var_map: HashMap::new(),
            memo: vec![],
            stamp: 0,
        };
        c.supp_map.insert(vec![], 0);
        // id 0 is reserved as "no expression"
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c.info.push(Info { supp: 0, lo: 0, hi: 0, kz: 0 });
        c
    }

    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k as u128 | ((n.a as u128 | ((n.b as u128) << 32)) << 64))
        } else {
            None
        }
    }
    pub fn supp(&self, e: E) -> &[u32] {
        &self.supps[self.info[e as usize].supp as usize]
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.supp_union.get(&key) {
            return *r;
        }
        let (x, y) = (&self.supps[a as usize], &self.supps[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i == x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let id = self.intern_supp(v);
        self.supp_union.insert(key, id);
        id
    }
    fn intern_supp(&mut self, v: Vec<u32>) -> u32 {
        if let Some(i) = self.supp_map.get(&v) {
            return *i;
        }
        let id = self.supps.len() as u32;
        self.supps.push(v.clone());
        self.supp_map.insert(v, id);
        id
    }

    fn put(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let info = self.mk_info(&n);
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, id);
        id
    }

    fn mk_info(&mut self, n: &Node) -> Info {
        let m = mask(n.w);
        let m64 = m as u64;
        if n.op == Op::Const {
            let v = n.k as u128 | ((n.a as u128 | ((n.b as u128) << 32)) << 64);
            return Info { supp: 0, lo: v as u64, hi: v as u64, kz: !v };
        }
        let ia = self.info[n.a as usize];
        let ib = self.info[n.b as usize];
        let ic = self.info[n.c as usize];
        let mut lo = 0u64;
        let mut hi = m64;
        let mut kz: u128 = !m;
        let mut supp = 0;
        match n.op {
            Op::Const => unreachable!(),
            Op::Var => {
                supp = self.intern_supp(vec![n.k as u32]);
            }
            Op::Extract => {
                supp = ia.supp;
                let aw = self.w(n.a);
                kz |= ia.kz >> n.k;
                if aw <= 64 {
                    let h = ia.hi >> n.k;
                    if h <= m64 {
                        lo = ia.lo >> n.k;
                        hi = h;
                    }
                }
                kz |= !m;
            }
            Op::ZExt => {
                supp = ia.supp;
                kz = ia.kz;
                lo = ia.lo;
                hi = ia.hi;
            }
            Op::SExt => {
                supp = ia.supp;
                let aw = self.w(n.a);
                if ia.kz >> (aw - 1) & 1 == 1 {
                    kz = ia.kz;
                    lo = ia.lo;
                    hi = ia.hi;
                }
            }
            Op::Ite => {
                supp = self.union(ia.supp, ib.supp);
                supp = self.union(supp, ic.supp);
                kz = ib.kz & ic.kz;
                lo = ib.lo.min(ic.lo);
                hi = ib.hi.max(ic.hi);
            }
            _ => {
                supp = self.union(ia.supp, ib.supp);
                match n.op {
                    Op::Add => {
                        if n.w <= 64 {
                            let h = ia.hi as u128 + ib.hi as u128;
                            if h <= m {
                                lo = ia.lo + ib.lo;
                                hi = h as u64;
                            } else {
                                // both bounds wrap exactly once
                                let l = ia.lo as u128 + ib.lo as u128;
                                if l > m {
                                    lo = (l & m) as u64;
                                    hi = (h & m) as u64;
                                }
                            }
                        }
                        // constant minus a bounded term
                        if n.w <= 64 {
                            if let Some(k) = self.cval(n.b) {
                                let na = self.n(n.a);
                                if na.op == Op::Mul && self.cval(na.b) == Some(m) {
                                    let y = self.info[na.a as usize];
                                    if y.hi as u128 <= k {
                                        lo = k as u64 - y.hi;
                                        hi = k as u64 - y.lo;
                                    }
                                }
                            }
                        }
                        // common trailing zeros
                        let ta = (!ia.kz).trailing_zeros();
                        let tb = (!ib.kz).trailing_zeros();
                        let t = ta.min(tb);
                        if t > 0 && t < 128 {
                            kz |= (1u128 << t) - 1;
                        }
                    }
                    Op::Mul => {
                        if n.w <= 64 {
                            let h = ia.hi as u128 * ib.hi as u128;
                            if h <= m {
                                lo = (ia.lo as u128 * ib.lo as u128) as u64;
                                hi = h as u64;
                            }
                        } else {
                            // known width bound: leading zeros add up
                            let la = (!ia.kz & m).leading_zeros();
                            let lb = (!ib.kz & m).leading_zeros();
                            let bits = (128 - la) + (128 - lb);
                            if bits < 128 {
                                kz |= !((1u128 << bits) - 1);
                            }
                        }
                        let ta = (!ia.kz).trailing_zeros();
                        let tb = (!ib.kz).trailing_zeros();
                        let t = ta.saturating_add(tb);
                        if t > 0 && t < 128 {
                            kz |= (1u128 << t) - 1;
                        }
                    }
                    Op::UDiv => {
                        if n.w <= 64 && ib.lo > 0 {
                            lo = ia.lo / ib.hi;
                            hi = ia.hi / ib.lo;
                        }
                    }
                    Op::URem => {
                        if n.w <= 64 && ib.lo > 0 {
                            hi = ia.hi.min(ib.hi - 1);
                        }
                    }
                    Op::And => {
                        kz = ia.kz | ib.kz;
                        hi = ia.hi.min(ib.hi);
                    }
                    Op::Or => {
                        kz = ia.kz & ib.kz;
                        lo = ia.lo.max(ib.lo);
                    }
                    Op::Xor => {
                        kz = ia.kz & ib.kz;
                    }
                    Op::LShr => {
                        hi = ia.hi;
                        // keep leading zeros
                        let lz = (!(ia.kz) & m).leading_zeros();
                        if lz > 0 {
                            kz |= !(u128::MAX >> lz.min(127)) | if lz >= 128 { u128::MAX } else { 0 };
                        }
                    }
                    Op::Concat => {
                        let bw = self.w(n.b);
                        kz = (ia.kz << bw) | (ib.kz & mask(bw));
                        kz |= !m;
                        if n.w <= 64 {
                            lo = (ia.lo << bw) | ib.lo;
                            hi = (ia.hi << bw) | ib.hi;
                        }
                    }
                    _ => {}
                }
            }
        }
        // combine known zeros into the bounds
        if n.w <= 64 {
            let ones = (!kz & m) as u64;
            if ones < hi {
                hi = ones;
            }
            if lo > hi {
                lo = 0;
            }
            // leading zeros from hi
            let lz = hi.leading_zeros();
            if lz > 0 {
                kz |= if lz == 64 { u128::MAX } else { !((u64::MAX >> lz) as u128) };
            }
        }
        Info { supp, lo, hi, kz }
    }

    // ---------------------------------------------------------------- constructors
    pub fn konst(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        let h = (v >> 64) as u64;
        self.put(Node { op: Op::Const, w, a: h as u32, b: (h >> 32) as u32, c: 0, k: v as u64 })
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.konst(1, 0)
    }
    /// The `idx`-th input created on a path; sibling paths share variables.
    pub fn var(&mut self, idx: u32, w: u8, name: &str) -> E {
        if let Some(v) = self.var_map.get(&(idx, w)) {
            return self.vars[*v as usize].2;
        }
        let id = self.vars.len() as u32;
        let e = self.put(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u64 });
        self.vars.push((name.to_string(), w, e));
        self.var_map.insert((idx, w), id);
        e
    }
    fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        self.put(Node { op, w, a, b, c: 0, k: 0 })
    }
    fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        self.put(Node { op, w: 1, a, b, c: 0, k: 0 })
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, x.wrapping_add(y));
        }
        if ca.is_some() {
            return self.add(b, a);
        }
        if let Some(y) = cb {
            if y == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(z) = self.cval(n.b) {
                    let k = self.konst(w, y.wrapping_add(z));
                    return self.add(n.a, k);
                }
            }
            if n.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.cval(n.b), self.cval(n.c)) {
                    let (p, q) = (self.konst(w, p.wrapping_add(y)), self.konst(w, q.wrapping_add(y)));
                    return self.ite(n.a, p, q);
                }
            }
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // a + (~a) style cancellations: a + (-1)*a
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Mul {
            if let Some(k) = self.cval(nb.b) {
                if k == mask(w) {
                    // a - x
                    if nb.a == a {
                        return self.konst(w, 0);
                    }
                    if na.op == Op::Add {
                        if na.a == nb.a {
                            return na.b;
                        }
                        if na.b == nb.a {
                            return na.a;
                        }
                    }
                }
            }
        }
        if na.op == Op::Mul {
            if let Some(k) = self.cval(na.b) {
                if k == mask(w) {
                    if na.a == b {
                        return self.konst(w, 0);
                    }
                    if nb.op == Op::Add {
                        if nb.a == na.a {
                            return nb.b;
                        }
                        if nb.b == na.a {
                            return nb.a;
                        }
                    }
                }
            }
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if (ia.kz | ib.kz) & mask(w) == mask(w) {
            return self.or(a, b);
        }
        // (x + c) + y  ->  (x + y) + c
        if cb.is_none() {
            if na.op == Op::Add {
                if self.cval(na.b).is_some() {
                    let s = self.add(na.a, b);
                    return self.add(s, na.b);
                }
            }
            if nb.op == Op::Add {
                if self.cval(nb.b).is_some() {
                    let s = self.add(a, nb.a);
                    return self.add(s, nb.b);
                }
            }
            if a > b {
                return self.bin(Op::Add, b, a);
            }
        }
        self.bin(Op::Add, a, b)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.n(a);
        if n.op == Op::Add {
            if let Some(c) = self.cval(n.b) {
                let x = self.neg(n.a);
                let k = self.konst(w, (!c).wrapping_add(1));
                return self.add(x, k);
            }
        }
        let m = self.konst(w, mask(w));
        self.mul(a, m)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if let Some(y) = self.cval(b) {
            let k = self.konst(w, (!y).wrapping_add(1));
            return self.add(a, k);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    /// `e` (of width less than `w`) as a term of width `w`; the upper bits do not matter.
    fn widen(&mut self, e: E, w: u8) -> E {
        let n = self.n(e);
        match n.op {
            Op::Extract if n.k == 0 && self.w(n.a) == w => n.a,
            Op::ZExt => self.zext(n.a, w),
            Op::Mul => {
                let (x, y) = (self.widen(n.a, w), self.widen(n.b, w));
                self.mul(x, y)
            }
            _ => self.zext(e, w),
        }
    }
    fn factors(&mut self, e: E, out: &mut Vec<E>, k: &mut u128) {
        if let Some(v) = self.cval(e) {
            *k = k.wrapping_mul(v);
            return;
        }
        let n = self.n(e);
        match n.op {
            Op::Mul if out.len() < 8 => {
                self.factors(n.a, out, k);
                self.factors(n.b, out, k);
            }
            Op::Concat if self.cval(n.b) == Some(0) && out.len() < 8 => {
                *k = k.wrapping_shl(self.w(n.b) as u32);
                let x = self.widen(n.a, n.w);
                self.factors(x, out, k);
            }
            _ => out.push(e),
        }
    }
    /// Products are kept as a sorted list of factors times a constant.
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let mut f = vec![];
        let mut k = 1u128;
        self.factors(a, &mut f, &mut k);
        self.factors(b, &mut f, &mut k);
        let k = k & mask(w);
        if k == 0 {
            return self.konst(w, 0);
        }
        if f.is_empty() {
            return self.konst(w, k);
        }
        f.sort();
        let mut r = f[0];
        for x in f[1..].iter() {
            r = self.bin(Op::Mul, r, *x);
        }
        if k == 1 {
            return r;
        }
        if k.is_power_of_two() {
            let k = self.konst(w, k.trailing_zeros() as u128);
            return self.shl(r, k);
        }
        let k = self.konst(w, k);
        self.bin(Op::Mul, r, k)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 1 {
                return a;
            }
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.konst(w, x / y);
                }
                if y.is_power_of_two() {
                    let k = self.konst(w, y.trailing_zeros() as u128);
                    return self.lshr(a, k);
                }
            }
        }
        self.bin(Op::UDiv, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.konst(w, x % y);
                }
                if y.is_power_of_two() {
                    let k = self.konst(w, y - 1);
                    return self.and(a, k);
                }
            }
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if w <= 64 && ia.hi < ib.lo {
            return a;
        }
        self.bin(Op::URem, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.konst(w, sext128(x, w).wrapping_div(sext128(y, w)) as u128);
            }
        }
        self.bin(Op::SDiv, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.konst(w, sext128(x, w).wrapping_rem(sext128(y, w)) as u128);
            }
        }
        self.bin(Op::SRem, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.konst(w, mask(w));
        self.xor(a, k)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, x & y);
        }
        if ca.is_some() {
            return self.and(b, a);
        }
        if let Some(y) = cb {
            if y == mask(w) {
                return a;
            }
            let ia = self.info[a as usize];
            let live = !ia.kz & mask(w);
            if live & y == live {
                return a;
            }
            if live & y == 0 {
                return self.konst(w, 0);
            }
            if w > 1 {
                // contiguous runs
                let mut runs: Vec<(u8, u8, bool)> = vec![];
                let mut i = 0u8;
                while i < w {
                    let bit = y >> i & 1 == 1;
                    let mut j = i;
                    while j < w && (y >> j & 1 == 1) == bit {
                        j += 1;
                    }
                    runs.push((i, j - i, bit));
                    i = j;
                }
                if runs.len() <= 4 {
                    let mut r: Option<E> = None;
                    for (lo, len, bit) in runs {
                        let p = if bit { self.extract(a, lo, len) } else { self.konst(len, 0) };
                        r = Some(match r {
                            None => p,
                            Some(q) => self.concat(p, q),
                        });
                    }
                    return r.unwrap();
                }
            }
            let n = self.n(a);
            if n.op == Op::And {
                if let Some(z) = self.cval(n.b) {
                    let k = self.konst(w, y & z);
                    return self.and(n.a, k);
                }
            }
            return self.bin(Op::And, a, b);
        }
        if w == 1 && self.is_not_of(a, b) {
            return self.fls();
        }
        if a > b {
            return self.bin(Op::And, b, a);
        }
        self.bin(Op::And, a, b)
    }
    fn is_not_of(&mut self, a: E, b: E) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Xor && na.a == b && self.cval(na.b) == Some(1) {
            return true;
        }
        if nb.op == Op::Xor && nb.a == a && self.cval(nb.b) == Some(1) {
            return true;
        }
        matches!((na.op, nb.op), (Op::Ult, Op::Ule) | (Op::Ule, Op::Ult) | (Op::Slt, Op::Sle) | (Op::Sle, Op::Slt))
            && na.a == nb.b
            && na.b == nb.a
    }
    /// Split `e` into (low bit, width, expr) pieces following its concat/zext structure.
    fn pieces(&self, e: E, base: u8, out: &mut Vec<(u8, u8, Option<E>)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.pieces(n.b, base, out);
                let bw = self.w(n.b);
                self.pieces(n.a, base + bw, out);
            }
            Op::ZExt => {
                self.pieces(n.a, base, out);
                let aw = self.w(n.a);
                out.push((base + aw, n.w - aw, None));
            }
            Op::Const => {
                if self.cval(e) == Some(0) {
                    out.push((base, n.w, None))
                } else {
                    out.push((base, n.w, Some(e)))
                }
            }
            _ => out.push((base, n.w, Some(e))),
        }
    }
    fn merge_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, 0, &mut pa);
        self.pieces(b, 0, &mut pb);
        if pa.len() > 40 || pb.len() > 40 {
            return None;
        }
        let mut cuts: Vec<u8> = pa.iter().chain(pb.iter()).map(|p| p.0).collect();
        cuts.push(w);
        cuts.sort();
        cuts.dedup();
        let find = |p: &Vec<(u8, u8, Option<E>)>, lo: u8| *p.iter().find(|x| x.0 <= lo && lo < x.0 + x.1).unwrap();
        let mut r: Option<E> = None;
        for i in 0..cuts.len() - 1 {
            let (lo, len) = (cuts[i], cuts[i + 1] - cuts[i]);
            let (x, y) = (find(&pa, lo), find(&pb, lo));
            let zx = x.2.is_none() || (self.info[a as usize].kz >> lo) & mask(len) == mask(len);
            let zy = y.2.is_none() || (self.info[b as usize].kz >> lo) & mask(len) == mask(len);
            let p = if zx && zy {
                self.konst(len, 0)
            } else if zx {
                self.extract(y.2.unwrap(), lo - y.0, len)
            } else if zy {
                self.extract(x.2.unwrap(), lo - x.0, len)
            } else {
                return None;
            };
            r = Some(match r {
                None => p,
                Some(q) => self.concat(p, q),
            });
        }
        r
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, x | y);
        }
        if ca.is_some() {
            return self.or(b, a);
        }
        if let Some(y) = cb {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if w > 1 && (ia.kz | ib.kz) & mask(w) == mask(w) {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
        }
        if w == 1 && self.is_not_of(a, b) {
            return self.tru();
        }
        if a > b && cb.is_none() {
            return self.bin(Op::Or, b, a);
        }
        self.bin(Op::Or, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, x ^ y);
        }
        if ca.is_some() {
            return self.xor(b, a);
        }
        if let Some(y) = cb {
            if y == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Xor {
                if let Some(z) = self.cval(n.b) {
                    let k = self.konst(w, y ^ z);
                    return self.xor(n.a, k);
                }
            }
            if w == 1 {
                match n.op {
                    Op::Ult => return self.ule(n.b, n.a),
                    Op::Ule => return self.ult(n.b, n.a),
                    Op::Slt => return self.sle(n.b, n.a),
                    Op::Sle => return self.slt(n.b, n.a),
                    _ => {}
                }
            }
            if n.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.cval(n.b), self.cval(n.c)) {
                    let (p, q) = (self.konst(w, p ^ y), self.konst(w, q ^ y));
                    return self.ite(n.a, p, q);
                }
            }
        } else {
            let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
            if w > 1 && (ia.kz | ib.kz) & mask(w) == mask(w) {
                return self.or(a, b);
            }
            if a > b {
                return self.bin(Op::Xor, b, a);
            }
        }
        self.bin(Op::Xor, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.konst(w, 0);
            }
            let lo = self.extract(a, 0, w - y as u8);
            let z = self.konst(y as u8, 0);
            return self.concat(lo, z);
        }
        self.bin(Op::Shl, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.konst(w, 0);
            }
            let hi = self.extract(a, y as u8, w - y as u8);
            return self.zext(hi, w);
        }
        self.bin(Op::LShr, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return a;
            }
            let y = y.min(w as u128 - 1) as u8;
            let hi = self.extract(a, y, w - y);
            return self.sext(hi, w);
        }
        self.bin(Op::AShr, a, b)
    }
    pub fn extract(&mut self, a: E, lo: u8, len: u8) -> E {
        let n = self.n(a);
        debug_assert!(lo + len <= n.w);
        if lo == 0 && len == n.w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(len, v >> lo);
        }
        if (self.info[a as usize].kz >> lo) & mask(len) == mask(len) {
            return self.konst(len, 0);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.k as u8 + lo, len),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw {
                    return self.extract(n.a, lo - bw, len);
                }
                if lo + len <= bw {
                    return self.extract(n.b, lo, len);
                }
                let x = self.extract(n.a, 0, lo + len - bw);
                let y = self.extract(n.b, lo, bw - lo);
                return self.concat(x, y);
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    return self.konst(len, 0);
                }
                if lo + len <= aw {
                    return self.extract(n.a, lo, len);
                }
                let x = self.extract(n.a, lo, aw - lo);
                return self.zext(x, len);
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if lo + len <= aw {
                    return self.extract(n.a, lo, len);
                }
                if lo >= aw {
                    let s = self.extract(n.a, aw - 1, 1);
                    return self.sext(s, len);
                }
                let x = self.extract(n.a, lo, aw - lo);
                return self.sext(x, len);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, len);
                let y = self.extract(n.b, lo, len);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Ite => {
                // push through when it stays small
                let cb = self.cval(n.b).is_some();
                let cc = self.cval(n.c).is_some();
                if cb || cc {
                    let x = self.extract(n.b, lo, len);
                    let y = self.extract(n.c, lo, len);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, len);
                let y = self.extract(n.b, 0, len);
                return if n.op == Op::Add { self.add(x, y) } else { self.mul(x, y) };
            }
            _ => {}
        }
        self.put(Node { op: Op::Extract, w: len, a, b: 0, c: 0, k: lo as u64 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, v);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.put(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, sext128(v, n.w) as u128);
        }
        if self.info[a as usize].kz >> (n.w - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.put(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    /// a is the high part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, (x << nb.w) | y);
        }
        if ca == Some(0) {
            return self.zext(b, w);
        }
        if na.op == Op::ZExt {
            // concat(zext(x), b) = zext(concat(x, b))
            let c = self.concat(na.a, b);
            return self.zext(c, w);
        }
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        if nb.op == Op::Concat {
            // try to merge a with the first piece
            if let Some(m) = self.try_merge(a, nb.a) {
                return self.concat(m, nb.b);
            }
        } else if let Some(m) = self.try_merge(a, b) {
            return m;
        }
        self.put(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    fn try_merge(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return Some(self.konst(na.w + nb.w, (x << nb.w) | y));
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 {
            return Some(self.extract(na.a, nb.k as u8, na.w + nb.w));
        }
        // extract of x adjacent to the low part of x itself (when extract(x,0,len) simplified)
        None
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(1, (x == y) as u128);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if w <= 64 && (ia.hi < ib.lo || ib.hi < ia.lo) {
            return self.fls();
        }
        if cb.is_none() && w > 1 {
            if let Some((x, y)) = self.cancel(a, b, false) {
                return self.eq(x, y);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(y) = cb {
            if y & ia.kz != 0 {
                return self.fls();
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let aw = self.w(na.a);
                    if y > mask(aw) {
                        return self.fls();
                    }
                    let k = self.konst(aw, y);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let aw = self.w(na.a);
                    if (sext128(y & mask(aw), aw) as u128) & mask(w) != y {
                        return self.fls();
                    }
                    let k = self.konst(aw, y);
                    return self.eq(na.a, k);
                }
                Op::Concat => {
                    let bw = self.w(na.b);
                    let kh = self.konst(w - bw, y >> bw);
                    let kl = self.konst(bw, y);
                    let p = self.eq(na.a, kh);
                    let q = self.eq(na.b, kl);
                    return self.and(p, q);
                }
                Op::Add => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(w, y.wrapping_sub(z));
                        return self.eq(na.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(w, y ^ z);
                        return self.eq(na.a, k);
                    }
                }
                Op::Mul => {
                    if let Some(z) = self.cval(na.b) {
                        if z == mask(w) {
                            let k = self.konst(w, 0u128.wrapping_sub(y));
                            return self.eq(na.a, k);
                        }
                    }
                }
                Op::Ite => {
                    let p = self.cval(na.b);
                    let q = self.cval(na.c);
                    if p.is_some() || q.is_some() {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                let p = self.eq(na.a, nb.a);
                let q = self.eq(na.b, nb.b);
                return self.and(p, q);
            }
            if (na.op == Op::ZExt && nb.op == Op::ZExt) || (na.op == Op::SExt && nb.op == Op::SExt) {
                if self.w(na.a) == self.w(nb.a) {
                    return self.eq(na.a, nb.a);
                }
            }
            if na.op == Op::Add && nb.op == Op::Add {
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            if a > b {
                return self.cmp(Op::Eq, b, a);
            }
        }
        self.cmp(Op::Eq, a, b)
    }
    fn terms(&self, e: E, out: &mut Vec<E>) -> bool {
        let n = self.n(e);
        let disjoint = n.op == Op::Or && n.w > 1 && (self.info[n.a as usize].kz | self.info[n.b as usize].kz) & mask(n.w) == mask(n.w);
        if n.op == Op::Add || disjoint {
            return self.terms(n.a, out) && self.terms(n.b, out);
        }
        out.push(e);
        out.len() <= 16
    }
    /// Removes the terms common to the sums `a` and `b` (for an order: if neither sum can wrap).
    fn cancel(&mut self, a: E, b: E, order: bool) -> Option<(E, E)> {
        let (oa, ob) = (self.n(a).op, self.n(b).op);
        if oa != Op::Add && ob != Op::Add && !(oa == Op::Or && ob == Op::Or) {
            return None;
        }
        let (mut l, mut r) = (vec![], vec![]);
        if !self.terms(a, &mut l) || !self.terms(b, &mut r) {
            return None;
        }
        let w = self.w(a);
        if order {
            let total = |c: &Ctx, l: &[E]| l.iter().map(|e| c.info[*e as usize].hi as u128).sum::<u128>();
            if total(self, &l) > mask(w) || total(self, &r) > mask(w) {
                return None;
            }
        }
        let before = l.len();
        let mut i = 0;
        while i < l.len() {
            match r.iter().position(|x| *x == l[i]) {
                Some(j) => {
                    l.remove(i);
                    r.remove(j);
                }
                None => i += 1,
            }
        }
        if l.len() == before {
            return None;
        }
        let mut out = [0, 0];
        for (k, t) in [l, r].into_iter().enumerate() {
            let mut s = self.konst(w, 0);
            for e in t {
                s = self.add(s, e);
            }
            out[k] = s;
        }
        Some((out[0], out[1]))
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(1, (x < y) as u128);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if w <= 64 {
            if ia.hi < ib.lo {
                return self.tru();
            }
            if ia.lo >= ib.hi {
                return self.fls();
            }
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if w <= 64 {
            if let Some((x, y)) = self.cancel(a, b, true) {
                return self.ult(x, y);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(y) = cb {
            if y == 0 {
                return self.fls();
            }
            if y == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            if na.op == Op::ZExt {
                let aw = self.w(na.a);
                if y > mask(aw) {
                    return self.tru();
                }
                let k = self.konst(aw, y);
                return self.ult(na.a, k);
            }
            if na.op == Op::Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let z = self.ult(na.c, b);
                return self.ite(na.a, x, z);
            }
            if na.op == Op::Concat {
                // low bits irrelevant when the bound is a multiple of 2^bw
                let bw = self.w(na.b);
                if y & mask(bw) == 0 {
                    let k = self.konst(w - bw, y >> bw);
                    return self.ult(na.a, k);
                }
            }
        }
        if let Some(x) = ca {
            if nb.op == Op::ZExt {
                let bw = self.w(nb.a);
                if x > mask(bw) {
                    return self.fls();
                }
                let k = self.konst(bw, x);
                return self.ult(k, nb.a);
            }
            if x == mask(w) {
                return self.fls();
            }
            if x == 0 {
                let z = self.eq(b, a);
                return self.not(z);
            }
            if nb.op == Op::Ite && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) {
                let x = self.ult(a, nb.b);
                let z = self.ult(a, nb.c);
                return self.ite(nb.a, x, z);
            }
            if nb.op == Op::Concat {
                let bw = self.w(nb.b);
                if x & mask(bw) == mask(bw) {
                    let k = self.konst(w - bw, x >> bw);
                    return self.ult(k, nb.a);
                }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.cmp(Op::Ult, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        // normalise to ult against constants
        if let Some(y) = self.cval(b) {
            if y == mask(w) {
                return self.tru();
            }
            let k = self.konst(w, y + 1);
            return self.ult(a, k);
        }
        if let Some(x) = self.cval(a) {
            if x == 0 {
                return self.tru();
            }
            let k = self.konst(w, x - 1);
            return self.ult(k, b);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if w <= 64 {
            if ia.hi <= ib.lo {
                return self.tru();
            }
            if ia.lo > ib.hi {
                return self.fls();
            }
        }
        if w == 1 {
            let na = self.not(a);
            return self.or(na, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ule(na.a, nb.a);
        }
        self.cmp(Op::Ule, a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(1, (sext128(x, w) < sext128(y, w)) as u128);
        }
        if w == 1 {
            // -1 < 0
            return self.ult(b, a);
        }
        let sa = self.info[a as usize].kz >> (w - 1) & 1 == 1;
        let sb = self.info[b as usize].kz >> (w - 1) & 1 == 1;
        if sa && sb {
            return self.ult(a, b);
        }
        if let Some(0) = self.cval(b) {
            return self.extract(a, w - 1, 1);
        }
        if let Some(x) = self.cval(a) {
            if x == mask(w) {
                // -1 < b  <=>  b >= 0
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        self.cmp(Op::Slt, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.tru();
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(1, (sext128(x, w) <= sext128(y, w)) as u128);
        }
        if w == 1 {
            return self.ule(b, a);
        }
        let sa = self.info[a as usize].kz >> (w - 1) & 1 == 1;
        let sb = self.info[b as usize].kz >> (w - 1) & 1 == 1;
        if sa && sb {
            return self.ule(a, b);
        }
        if let Some(0) = self.cval(a) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if let Some(y) = self.cval(b) {
            if y == mask(w) {
                return self.extract(a, w - 1, 1);
            }
        }
        self.cmp(Op::Sle, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cval(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        // p == 0 ? 0 : 2^k - p, for p of k bits, is -p in k bits
        if nc.op == Op::Eq && self.cval(a) == Some(0) && nb.op == Op::Add && self.cval(nc.b) == Some(0) {
            let p = nc.a;
            let wp = self.w(p);
            let m = self.n(nb.a);
            if wp > 1 && wp < w && self.cval(nb.b) == Some(1u128 << wp) && m.op == Op::Mul && self.cval(m.b) == Some(mask(w)) {
                let z = self.n(m.a);
                if z.op == Op::ZExt && z.a == p {
                    let r = self.neg(p);
                    return self.zext(r, w);
                }
            }
        }
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let o = self.or(c, nb.a);
            return self.ite(o, a, nb.c);
        }
        self.put(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn bswap(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut r: Option<E> = None;
        let mut i = w;
        // the lowest byte of `a` becomes the highest of the result
        while i >= 8 {
            let p = self.extract(a, i - 8, 8);
            r = Some(match r {
                None => p,
                Some(q) => self.concat(p, q),
            });
            i -= 8;
        }
        r.unwrap()
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if let Some(v) = self.cval(e) {
            return v;
        }
        if self.stamp != m.id {
            self.stamp = m.id;
        }
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.ev(e, m)
    }
    /// The value of a variable that nothing constrains (varied for bytes, so that sampled
    /// paths are replayed on varied inputs).
    pub fn default(&self, i: usize) -> u128 {
        if self.vars[i].1 == 8 {
            ((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u128
        } else {
            0
        }
    }
    fn ev(&mut self, e: E, m: &Model) -> u128 {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            return self.cval(e).unwrap();
        }
        if n.op == Op::Var {
            return m.vals.get(n.k as usize).copied().unwrap_or_else(|| self.default(n.k as usize));
        }
        let (s, v) = self.memo[e as usize];
        if s == self.stamp {
            return v;
        }
        let r = if n.op == Op::Ite {
            if self.ev(n.a, m) == 1 {
                self.ev(n.b, m)
            } else {
                self.ev(n.c, m)
            }
        } else {
            let a = self.ev(n.a, m);
            match n.op {
                Op::Extract => a >> n.k,
                Op::ZExt => a,
                Op::SExt => sext128(a, self.nodes[n.a as usize].w) as u128,
                _ => {
                    let b = self.ev(n.b, m);
                    let w = self.nodes[n.a as usize].w;
                    match n.op {
                        Op::Add => a.wrapping_add(b),
                        Op::Mul => a.wrapping_mul(b),
                        Op::UDiv => {
                            if b == 0 {
                                mask(w)
                            } else {
                                a / b
                            }
                        }
                        Op::URem => {
                            if b == 0 {
                                a
                            } else {
                                a % b
                            }
                        }
                        Op::SDiv => {
                            let (x, y) = (sext128(a, w), sext128(b, w));
                            if y == 0 {
                                if x < 0 {
                                    1
                                } else {
                                    mask(w)
                                }
                            } else {
                                x.wrapping_div(y) as u128
                            }
                        }
                        Op::SRem => {
                            let (x, y) = (sext128(a, w), sext128(b, w));
                            if y == 0 {
                                a
                            } else {
                                x.wrapping_rem(y) as u128
                            }
                        }
                        Op::And => a & b,
                        Op::Or => a | b,
                        Op::Xor => a ^ b,
                        Op::Shl => {
                            if b >= w as u128 {
                                0
                            } else {
                                a << b
                            }
                        }
                        Op::LShr => {
                            if b >= w as u128 {
                                0
                            } else {
                                a >> b
                            }
                        }
                        Op::AShr => (sext128(a, w) >> b.min(w as u128 - 1)) as u128,
                        Op::Eq => (a == b) as u128,
                        Op::Ult => (a < b) as u128,
                        Op::Ule => (a <= b) as u128,
                        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
                        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
                        Op::Concat => (a << self.nodes[n.b as usize].w) | b,
                        _ => unreachable!(),
                    }
                }
            }
        } & mask(n.w);
        self.memo[e as usize] = (self.stamp, r);
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if let Some(v) = self.cval(e) {
            return format!("{}:{}", v, n.w);
        }
        if n.op == Op::Var {
            return self.vars[n.k as usize].0.clone();
        }
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::ZExt => format!("z{}({})", n.w, self.show(n.a, depth - 1)),
            Op::SExt => format!("s{}({})", n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    struct R(u64);
    impl R {
        fn n(&mut self, m: u64) -> u64 {
            self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (self.0 >> 33) % m
        }
        fn v(&mut self, w: u8) -> u128 {
            let x = (self.n(1 << 31) as u128) | ((self.n(1 << 31) as u128) << 31) | ((self.n(1 << 31) as u128) << 62) | ((self.n(1 << 31) as u128) << 93);
            let v = match self.n(8) {
                0 => 0,
                1 => 1,
                2 => mask(w),
                3 => mask(w) >> 1,
                4 => 1u128 << self.n(w as u64),
                5 => x & 7,
                6 => (x & 7).wrapping_neg(),
                _ => x,
            };
            v & mask(w)
        }
    }

    /// Every constructor must return a term equal to the operation it is named for, and
    /// the bounds and known zeros of every term must hold: compared with the plain
    /// semantics under several assignments for each of many random terms.
    #[test]
    fn simplifier() {
        const M: usize = 8;
        let seeds: u64 = std::env::var("SEEDS").ok().and_then(|s| s.parse().ok()).unwrap_or(3000);
        for seed in 0..seeds {
            let mut r = R(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 77);
            for _ in 0..8 {
                r.n(2);
            }
            let mut x = Ctx::new();
            let widths: [u8; 7] = [1, 8, 16, 32, 64, 24, 128];
            let mut pool: Vec<(E, [u128; M], String)> = vec![];
            let mut vals: Vec<Vec<u128>> = vec![vec![]; M];
            for i in 0..6u32 {
                let w = widths[r.n(6) as usize];
                let e = x.var(i, w, "v");
                let mut a = [0; M];
                for m in 0..M {
                    a[m] = r.v(w);
                    vals[m].push(a[m]);
                }
                pool.push((e, a, format!("v{}:{}", i, w)));
            }
            let models: Vec<Model> = vals.into_iter().enumerate().map(|(i, v)| Model { id: 1000 + i as u32, vals: v }).collect();
            for _ in 0..60 {
                let i = r.n(pool.len() as u64) as usize;
                let (a, va, sa) = pool[i].clone();
                let w = x.w(a);
                let mk = mask(w);
                let op = r.n(27);
                // an operand of the same width
                let same: Vec<usize> = (0..pool.len()).filter(|j| x.w(pool[*j].0) == w).collect();
                let (b, vb, sb) = if r.n(4) == 0 {
                    let k = r.v(w);
                    (x.konst(w, k), [k; M], format!("{:#x}", k))
                } else {
                    pool[same[r.n(same.len() as u64) as usize]].clone()
                };
                let sx = |v: u128| sext128(v, w);
                let mut f = |g: &dyn Fn(u128, u128) -> u128| {
                    let mut o = [0; M];
                    for m in 0..M {
                        o[m] = g(va[m], vb[m]);
                    }
                    o
                };
                let (e, v, name): (E, [u128; M], String) = match op {
                    0 | 1 => (x.add(a, b), f(&|p, q| p.wrapping_add(q) & mk), "add".into()),
                    2 | 3 => (x.sub(a, b), f(&|p, q| p.wrapping_sub(q) & mk), "sub".into()),
                    4 => (x.mul(a, b), f(&|p, q| p.wrapping_mul(q) & mk), "mul".into()),
                    5 => (x.udiv(a, b), f(&|p, q| if q == 0 { mk } else { p / q }), "udiv".into()),
                    6 => (x.urem(a, b), f(&|p, q| if q == 0 { p } else { p % q }), "urem".into()),
                    7 => (x.sdiv(a, b), f(&|p, q| if q == 0 { if sx(p) < 0 { 1 } else { mk } } else { sx(p).wrapping_div(sx(q)) as u128 & mk }), "sdiv".into()),
                    8 => (x.srem(a, b), f(&|p, q| if q == 0 { p } else { sx(p).wrapping_rem(sx(q)) as u128 & mk }), "srem".into()),
                    9 => (x.and(a, b), f(&|p, q| p & q), "and".into()),
                    10 => (x.or(a, b), f(&|p, q| p | q), "or".into()),
                    11 => (x.xor(a, b), f(&|p, q| p ^ q), "xor".into()),
                    12 => (x.shl(a, b), f(&|p, q| if q >= w as u128 { 0 } else { (p << q) & mk }), "shl".into()),
                    13 => (x.lshr(a, b), f(&|p, q| if q >= w as u128 { 0 } else { p >> q }), "lshr".into()),
                    14 => (x.ashr(a, b), f(&|p, q| (sx(p) >> q.min(w as u128 - 1).min(127)) as u128 & mk), "ashr".into()),
                    15 => (x.eq(a, b), f(&|p, q| (p == q) as u128), "eq".into()),
                    16 => (x.ult(a, b), f(&|p, q| (p < q) as u128), "ult".into()),
                    17 => (x.ule(a, b), f(&|p, q| (p <= q) as u128), "ule".into()),
                    18 => (x.slt(a, b), f(&|p, q| (sx(p) < sx(q)) as u128), "slt".into()),
                    19 => (x.sle(a, b), f(&|p, q| (sx(p) <= sx(q)) as u128), "sle".into()),
                    20 => {
                        let lo = r.n(w as u64) as u8;
                        let lo = if w > 8 { lo & !7 } else { lo };
                        let len = if w > 8 { 8 * (1 + r.n(((w - lo) / 8) as u64) as u8) } else { 1 + r.n((w - lo) as u64) as u8 };
                        if !widths.contains(&len) {
                            continue;
                        }
                        (x.extract(a, lo, len), f(&|p, _| (p >> lo) & mask(len)), format!("extract{}+{}", lo, len))
                    }
                    21 => {
                        let j = r.n(pool.len() as u64) as usize;
                        let (c, vc, _) = pool[j].clone();
                        let cw = x.w(c);
                        if w as u32 + cw as u32 > 128 || !widths.contains(&(w + cw)) {
                            continue;
                        }
                        let mut o = [0; M];
                        for m in 0..M {
                            o[m] = va[m] << cw | vc[m];
                        }
                        (x.concat(a, c), o, format!("concat with {}", pool[j].2))
                    }
                    22 | 23 => {
                        let t: Vec<u8> = widths.iter().copied().filter(|t| *t >= w).collect();
                        let t = t[r.n(t.len() as u64) as usize];
                        if op == 22 {
                            (x.zext(a, t), f(&|p, _| p), format!("zext{}", t))
                        } else {
                            (x.sext(a, t), f(&|p, _| sx(p) as u128 & mask(t)), format!("sext{}", t))
                        }
                    }
                    24 => {
                        let cs: Vec<usize> = (0..pool.len()).filter(|j| x.w(pool[*j].0) == 1).collect();
                        if cs.is_empty() {
                            continue;
                        }
                        let (c, vc, sc) = pool[cs[r.n(cs.len() as u64) as usize]].clone();
                        let mut o = [0; M];
                        for m in 0..M {
                            o[m] = if vc[m] == 1 { va[m] } else { vb[m] };
                        }
                        (x.ite(c, a, b), o, format!("ite {}", sc))
                    }
                    26 => {
                        if w < 8 {
                            continue;
                        }
                        // padding to a multiple of 2, 4 or 8
                        let k = 1 + r.n(3) as u8;
                        let p = x.extract(a, 0, k);
                        let zero = x.konst(k, 0);
                        let c = x.eq(p, zero);
                        let z = x.zext(p, w);
                        let full = x.konst(w, 1 << k);
                        let d = x.sub(full, z);
                        let zero = x.konst(w, 0);
                        (x.ite(c, zero, d), f(&|p, _| p.wrapping_neg() & mask(k)), format!("pad{}", k))
                    }
                    _ => {
                        if w < 16 || w % 16 != 0 {
                            (x.not(a), f(&|p, _| !p & mk), "not".into())
                        } else {
                            (x.bswap(a), f(&|p, _| p.swap_bytes() >> (128 - w as u32)), "bswap".into())
                        }
                    }
                };
                let s = if sa.len() + sb.len() < 400 { format!("({} {} {})", name, sa, sb) } else { format!("({} ...)", name) };
                let inf = x.info[e as usize];
                for m in 0..M {
                    let got = x.eval(e, &models[m]);
                    assert_eq!(got, v[m], "seed {} model {} {:?}: {} = {}", seed, m, models[m].vals, s, x.show(e, 6));
                    assert_eq!(v[m] & inf.kz & mask(x.w(e)), 0, "seed {} kz: {} = {}", seed, s, x.show(e, 6));
                    if x.w(e) <= 64 {
                        assert!(inf.lo as u128 <= v[m] && v[m] <= inf.hi as u128, "seed {} bounds {}..{} of {:#x}: {} = {}", seed, inf.lo, inf.hi, v[m], s, x.show(e, 6));
                    }
                }
                pool.push((e, v, s));
            }
        }
    }
}
