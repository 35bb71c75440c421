//! z3 (C API) behind a constraint-slicing and caching layer.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    z: Vec<P>,
    bvs: Vec<P>,
    cache: HashMap<Vec<E>, (Res, Vec<(u32, u128)>)>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub slowest: f64,
    pub next_model: u32,
    /// keep a sample of queries for cross-checking with another solver
    pub dump_every: u64,
    pub dumps: Vec<(String, Res)>,
    pub timeout_ms: u32,
    /// queries decided with products replaced by unknowns
    pub by_abstraction: u64,
    /// translations with products replaced (of the current query only)
    abs: Option<Abs>,
}

type Bits = Vec<(u32, u8)>;
struct Abs {
    z: HashMap<E, P>,
    /// factors (of the widest product), width, the unknown
    products: Vec<(Vec<Bits>, u8, P)>,
    lemmas: Vec<P>,
}

/// The bits of e, lowest first: (node, bit); constants are (MAX, 0 or 1).
fn bits_of(x: &Ctx, e: E, out: &mut Bits) {
    let n = x.n(e);
    match n.op {
        Op::Const => {
            let v = x.cval(e).unwrap();
            for i in 0..n.w {
                out.push((u32::MAX, (v >> i & 1) as u8));
            }
        }
        Op::Concat => {
            bits_of(x, n.b, out);
            bits_of(x, n.a, out);
        }
        Op::ZExt => {
            bits_of(x, n.a, out);
            for _ in x.w(n.a)..n.w {
                out.push((u32::MAX, 0));
            }
        }
        Op::Extract => {
            let mut t = vec![];
            bits_of(x, n.a, &mut t);
            out.extend_from_slice(&t[n.k as usize..n.k as usize + n.w as usize]);
        }
        _ => {
            for i in 0..n.w {
                out.push((e, i));
            }
        }
    }
}
/// The factors of a product; constants are multiplied up.
fn factors(x: &Ctx, e: E, f: &mut Vec<E>, k: &mut u128) {
    let n = x.n(e);
    if n.op == Op::Mul {
        factors(x, n.a, f, k);
        factors(x, n.b, f, k);
    } else if let Some(v) = x.cval(e) {
        *k = k.wrapping_mul(v);
    } else {
        f.push(e);
    }
}
const SMALL: u8 = 4;
fn product(x: &Ctx, e: E) -> Option<(Vec<E>, u128)> {
    if x.n(e).op != Op::Mul || x.w(e) <= SMALL {
        return None;
    }
    let (mut f, mut k) = (vec![], 1u128);
    factors(x, e, &mut f, &mut k);
    if f.len() < 2 {
        None
    } else {
        Some((f, k))
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            // an (empty) push switches z3 to its incremental bit-vector solver
            Z3_solver_push(c, s);
            Solver {
                c,
                s,
                z: vec![],
                bvs: vec![std::ptr::null_mut(); 129],
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                slowest: 0.0,
                next_model: 1,
                dump_every: 0,
                dumps: vec![],
                timeout_ms,
                by_abstraction: 0,
                abs: None,
            }
        }
    }
    fn set_timeout(&mut self, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    /// Every product in the query, once; the widest first.
    fn products(x: &Ctx, q: &[E]) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<E> = q.to_vec();
        let mut o = vec![];
        while let Some(e) = todo.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = x.n(e);
            match n.op {
                Op::Const | Op::Var => continue,
                Op::Extract | Op::ZExt | Op::SExt => todo.push(n.a),
                Op::Ite => todo.extend_from_slice(&[n.a, n.b, n.c]),
                _ => todo.extend_from_slice(&[n.a, n.b]),
            }
            if product(x, e).is_some() {
                o.push(e);
            }
        }
        o.sort_by_key(|e| (255 - x.w(*e), *e));
        o
    }
    /// A product of several non-constants as an unknown: the same one for every width.
    fn unknown_product(&mut self, x: &Ctx, e: E, f: &[E], k: u128) -> P {
        let w = x.w(e);
        let mut key: Vec<Bits> = f
            .iter()
            .map(|a| {
                let mut b = vec![];
                bits_of(x, *a, &mut b);
                b
            })
            .collect();
        key.sort();
        let c = self.c;
        let found = self.abs.as_ref().unwrap().products.iter().find(|(l, pw, _)| {
            if *pw < w || l.len() != key.len() {
                return false;
            }
            let mut t: Vec<Bits> = l.iter().map(|b| b[..w as usize].to_vec()).collect();
            t.sort();
            t == key
        });
        let p = match found {
            Some((_, pw, p)) => {
                if *pw == w {
                    *p
                } else {
                    unsafe { Z3_mk_extract(c, (w - 1) as c_uint, 0, *p) }
                }
            }
            None => unsafe {
                let i = self.abs.as_ref().unwrap().products.len();
                let t = CString::new(format!("prod{}_{}", i, w)).unwrap();
                let so = self.sort(w);
                let p = Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), so);
                let args: Vec<P> = f.iter().map(|a| self.tr_bv(x, *a)).collect();
                let mut lem = vec![];
                // the low bits are what they are
                let low: Vec<P> = args.iter().map(|a| Z3_mk_extract(c, SMALL as c_uint - 1, 0, *a)).collect();
                let mut l = low[0];
                for a in low[1..].iter() {
                    l = Z3_mk_bvmul(c, l, *a);
                }
                lem.push(Z3_mk_eq(c, Z3_mk_extract(c, SMALL as c_uint - 1, 0, p), l));
                // a product that cannot overflow: bounds, and when it is zero
                let mut hi = 1u128;
                for b in key.iter() {
                    let n = b.iter().rposition(|b| *b != (u32::MAX, 0)).map(|i| i as u32 + 1).unwrap_or(0);
                    hi = hi.saturating_mul(if n >= 100 { u128::MAX } else { (1u128 << n) - 1 });
                }
                if hi <= mask(w) {
                    let t = CString::new(hi.to_string()).unwrap();
                    lem.push(Z3_mk_bvule(c, p, Z3_mk_numeral(c, t.as_ptr(), so)));
                    let zero = Z3_mk_unsigned_int64(c, 0, so);
                    let pz = Z3_mk_eq(c, p, zero);
                    let z: Vec<P> = args.iter().map(|a| Z3_mk_eq(c, *a, zero)).collect();
                    lem.push(Z3_mk_eq(c, pz, Z3_mk_or(c, z.len() as c_uint, z.as_ptr())));
                    for a in args.iter() {
                        lem.push(Z3_mk_or(c, 2, [pz, Z3_mk_bvule(c, *a, p)].as_ptr()));
                    }
                }
                let abs = self.abs.as_mut().unwrap();
                abs.products.push((key, w, p));
                abs.lemmas.extend(lem);
                p
            },
        };
        let k = k & mask(w);
        if k == 1 {
            return p;
        }
        let so = self.sort(w);
        let t = CString::new(k.to_string()).unwrap();
        unsafe { Z3_mk_bvmul(c, p, Z3_mk_numeral(c, t.as_ptr(), so)) }
    }
    /// Decides a query with every product of non-constants replaced by an unknown; only Unsat counts.
    fn unsat_without_products(&mut self, x: &Ctx, q: &[E]) -> bool {
        let prods = Self::products(x, q);
        if prods.is_empty() {
            return false;
        }
        self.abs = Some(Abs { z: HashMap::new(), products: vec![], lemmas: vec![] });
        for e in prods {
            self.tr(x, e);
        }
        let asts: Vec<P> = q.iter().map(|e| self.tr(x, *e)).collect();
        let abs = self.abs.take().unwrap();
        self.set_timeout(3000);
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in asts.iter().chain(abs.lemmas.iter()) {
                Z3_solver_assert(self.c, self.s, *a);
            }
            let r = Z3_solver_check(self.c, self.s);
            Z3_solver_reset(self.c, self.s);
            Z3_solver_push(self.c, self.s);
            r
        };
        self.set_timeout(self.timeout_ms);
        r == -1
    }
    fn sort(&mut self, w: u8) -> P {
        if self.bvs[w as usize].is_null() {
            self.bvs[w as usize] = unsafe { Z3_mk_bv_sort(self.c, w as c_uint) };
        }
        self.bvs[w as usize]
    }
    /// width-1 expressions are z3 Booleans
    fn tr(&mut self, x: &Ctx, e: E) -> P {
        if let Some(a) = &self.abs {
            if let Some(p) = a.z.get(&e) {
                return *p;
            }
            let p = match product(x, e) {
                Some((f, k)) => self.unknown_product(x, e, &f, k),
                None => self.tr1(x, e),
            };
            self.abs.as_mut().unwrap().z.insert(e, p);
            return p;
        }
        if self.z.len() <= e as usize {
            self.z.resize(x.nodes.len(), std::ptr::null_mut());
        }
        if !self.z[e as usize].is_null() {
            return self.z[e as usize];
        }
        let r = self.tr1(x, e);
        if self.z.len() <= e as usize {
            self.z.resize(x.nodes.len(), std::ptr::null_mut());
        }
        self.z[e as usize] = r;
        r
    }
    fn tr1(&mut self, x: &Ctx, e: E) -> P {
        let n = x.n(e);
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => {
                    let v = x.cval(e).unwrap();
                    if n.w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = self.sort(n.w);
                        if n.w <= 64 {
                            Z3_mk_unsigned_int64(c, v as u64, s)
                        } else {
                            let t = CString::new(v.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                }
                Op::Var => {
                    let t = CString::new(format!("v{}_{}", n.k, n.w)).unwrap();
                    let sy = Z3_mk_string_symbol(c, t.as_ptr());
                    let so = if n.w == 1 { Z3_mk_bool_sort(c) } else { self.sort(n.w) };
                    Z3_mk_const(c, sy, so)
                }
                Op::Extract => {
                    let a = self.tr_bv(x, n.a);
                    let r = Z3_mk_extract(c, (n.k + n.w as u64 - 1) as c_uint, n.k as c_uint, a);
                    if n.w == 1 {
                        let s1 = self.sort(1);
                        Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, s1))
                    } else {
                        r
                    }
                }
                Op::ZExt => {
                    let a = self.tr_bv(x, n.a);
                    Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.tr_bv(x, n.a);
                    Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                }
                Op::Concat => {
                    let a = self.tr_bv(x, n.a);
                    let b = self.tr_bv(x, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Ite => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    let d = self.tr(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    if x.w(n.a) == 1 {
                        match n.op {
                            Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            Op::Xor => {
                                if x.cval(n.b) == Some(1) {
                                    Z3_mk_not(c, a)
                                } else {
                                    Z3_mk_xor(c, a, b)
                                }
                            }
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Op::Add => Z3_mk_xor(c, a, b),
                            Op::Ult => Z3_mk_and(c, 2, [Z3_mk_not(c, a), b].as_ptr()),
                            Op::Ule => Z3_mk_or(c, 2, [Z3_mk_not(c, a), b].as_ptr()),
                            Op::Slt => Z3_mk_and(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                            Op::Sle => Z3_mk_or(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                            _ => panic!("1-bit {:?}", n.op),
                        }
                    } else {
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            Op::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        }
    }
    fn tr_bv(&mut self, x: &Ctx, e: E) -> P {
        let a = self.tr(x, e);
        if x.w(e) == 1 {
            let s1 = self.sort(1);
            unsafe {
                let one = Z3_mk_unsigned_int64(self.c, 1, s1);
                let zero = Z3_mk_unsigned_int64(self.c, 0, s1);
                Z3_mk_ite(self.c, a, one, zero)
            }
        } else {
            a
        }
    }

    /// Is `pc /\ q` satisfiable? `pc` is known satisfiable with model `m`.
    /// On Sat returns the model `m` updated on the variables of the relevant slice.
    pub fn check(&mut self, x: &Ctx, pc: &[E], q: E, m: &Model) -> (Res, Option<Model>) {
        if let Some(v) = x.cval(q) {
            if v == 0 {
                return (Res::Unsat, None);
            }
            let mm = Model { id: m.id, vals: m.vals.clone() };
            return (Res::Sat, Some(mm));
        }
        // slice of pc connected to q through shared variables
        let nv = x.vars.len();
        let mut inset = vec![false; nv];
        for v in x.supp(q) {
            inset[*v as usize] = true;
        }
        let mut used = vec![false; pc.len()];
        let mut slice: Vec<E> = vec![];
        loop {
            let mut ch = false;
            for (i, e) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = x.supp(*e);
                if s.iter().any(|v| inset[*v as usize]) {
                    used[i] = true;
                    slice.push(*e);
                    ch = true;
                    for v in s {
                        inset[*v as usize] = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        slice.sort();
        slice.dedup();
        slice.push(q);
        if let Some((r, vals)) = self.cache.get(&slice) {
            self.cache_hits += 1;
            let r = *r;
            if r == Res::Sat {
                let mut mv = m.vals.clone();
                while mv.len() < nv {
                    mv.push(x.default(mv.len()));
                }
                for (k, v) in vals {
                    mv[*k as usize] = *v;
                }
                self.next_model += 1;
                return (r, Some(Model { id: self.next_model, vals: mv }));
            }
            return (r, None);
        }
        self.queries += 1;
        let t0 = Instant::now();
        if self.unsat_without_products(x, &slice) {
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            self.slowest = self.slowest.max(dt);
            self.unsat += 1;
            self.by_abstraction += 1;
            self.cache.insert(slice, (Res::Unsat, vec![]));
            return (Res::Unsat, None);
        }
        let asts: Vec<P> = slice.iter().map(|e| self.tr(x, *e)).collect();
        let c = self.c;
        let (res, model) = unsafe {
            Z3_solver_push(c, self.s);
            for a in &asts {
                Z3_solver_assert(c, self.s, *a);
            }
            let mut st = Z3_solver_check(c, self.s);
            if st == 0 {
                // retry without the incremental state
                Z3_solver_pop(c, self.s, 1);
                Z3_solver_reset(c, self.s);
                for a in &asts {
                    Z3_solver_assert(c, self.s, *a);
                }
                st = Z3_solver_check(c, self.s);
                if st == 0 && std::env::var("LLSYM_DUMP_UNKNOWN").is_ok() {
                    eprintln!("{}", CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy());
                }
            }
            let res = match st {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if self.dump_every > 0 && self.queries % self.dump_every == 0 && self.dumps.len() < 60 {
                let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                self.dumps.push((s, res));
            }
            if t0.elapsed().as_secs_f64() > 3.0 && std::env::var("LLSYM_DUMP_SLOW").is_ok() {
                eprintln!("SLOW {:?}\n{}", res, CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy());
            }
            let mut out = None;
            if res == Res::Sat {
                let zm = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, zm);
                let mut vals: Vec<(u32, u128)> = vec![];
                for (i, b) in inset.iter().enumerate() {
                    if *b {
                        let ve = x.vars[i].2;
                        let w = x.vars[i].1;
                        let a = self.tr(x, ve);
                        let mut v: P = std::ptr::null_mut();
                        if !Z3_model_eval(c, zm, a, true, &mut v) {
                            panic!("model eval");
                        }
                        let val = if w == 1 {
                            (Z3_get_bool_value(c, v) == 1) as u128
                        } else if w <= 64 {
                            let mut u = 0u64;
                            if !Z3_get_numeral_uint64(c, v, &mut u) {
                                panic!("numeral");
                            }
                            u as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(c, v)).to_str().unwrap().parse().unwrap()
                        };
                        vals.push((i as u32, val));
                    }
                }
                Z3_model_dec_ref(c, zm);
                out = Some(vals);
            }
            // leave exactly one empty level
            Z3_solver_reset(c, self.s);
            Z3_solver_push(c, self.s);
            (res, out)
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        match res {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let mut ret = None;
        if let Some(vals) = &model {
            let mut mv = m.vals.clone();
            while mv.len() < nv {
                mv.push(x.default(mv.len()));
            }
            for (k, v) in vals {
                mv[*k as usize] = *v;
            }
            self.next_model += 1;
            ret = Some(Model { id: self.next_model, vals: mv });
        }
        self.cache.insert(slice, (res, model.unwrap_or_default()));
        (res, ret)
    }
}
