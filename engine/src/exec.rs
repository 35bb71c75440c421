//! Symbolic executor: depth-first exploration of every feasible path.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

/// A value: concrete `c` when `e == 0`, otherwise the expression `e`.
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub c: u64,
    pub e: E,
}
impl V {
    #[inline]
    pub fn k(c: u64) -> V {
        V { c, e: 0 }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub ip: usize,
    pub slots: Vec<V>,
    pub allocas: Vec<u32>,
}

pub const PAGE: u64 = 1024;
#[derive(Clone)]
pub struct Page {
    pub data: Vec<u8>,
    pub sym: Vec<E>,
}
#[derive(Clone, Default)]
pub struct VFile {
    pub pages: BTreeMap<u64, Rc<Page>>,
    pub size: u64,
}
impl VFile {
    pub fn get(&self, p: u64) -> (u8, E) {
        if p >= self.size {
            return (0, 0);
        }
        match self.pages.get(&(p / PAGE)) {
            None => (0, 0),
            Some(g) => {
                let o = (p % PAGE) as usize;
                (g.data[o], if g.sym.is_empty() { 0 } else { g.sym[o] })
            }
        }
    }
    pub fn put(&mut self, p: u64, b: u8, e: E) {
        let g = self
            .pages
            .entry(p / PAGE)
            .or_insert_with(|| Rc::new(Page { data: vec![0; PAGE as usize], sym: vec![] }));
        let g = Rc::make_mut(g);
        let o = (p % PAGE) as usize;
        g.data[o] = b;
        if e != 0 && g.sym.is_empty() {
            g.sym = vec![0; PAGE as usize];
        }
        if !g.sym.is_empty() {
            g.sym[o] = e;
        }
        if p + 1 > self.size {
            self.size = p + 1;
        }
    }
}

#[derive(Clone)]
pub struct Fd {
    pub file: usize,
    pub pos: V,
    /// position to restore after a positioned transfer
    pub saved: Option<V>,
    pub open: bool,
    pub readable: bool,
    pub writable: bool,
    pub append: bool,
}

#[derive(Clone, Default)]
pub struct Fs {
    pub names: BTreeMap<String, usize>,
    pub files: Vec<Rc<VFile>>,
    pub fds: Vec<Fd>,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Fault {
    /// bit 0: short counts, bit 1: EINTR, bit 2: hard error (EIO / ENOSPC), bit 3: zero-length write
    pub kinds: u32,
    pub budget: u32,
}

#[derive(Clone)]
pub enum Emit {
    Bytes(Vec<(u8, E)>),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub bound: Vec<u64>,
    pub model: Rc<Model>,
    pub vars: Rc<Vec<E>>,
    pub fs: Rc<Fs>,
    pub fault: Fault,
    pub emits: Vec<Rc<Emit>>,
    pub steps: u64,
    pub depth: u32,
    pub alloc_limit: u64,
    pub total_limit: u64,
    pub max_alloc: u64,
    pub inst_nvars: usize,
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub kind: String,
    pub detail: String,
    pub values: Vec<(u8, u128)>,
    pub count: u64,
}

pub enum Stop {
    /// the current state ended normally
    Done,
    /// ended by an assumption, exit, or violation
    Cut,
    Violation { kind: String, label: String, detail: String },
    Error(String),
}
type R<T> = Result<T, Stop>;

pub struct Trace {
    pub values: Vec<(u8, u128)>,
    pub emits: Vec<Vec<u8>>,
    pub status: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Memcpy,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    Bswap,
    Fshl,
    Fshr,
    Ctpop,
    Ctlz,
    Cttz,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    Ucmp,
    Scmp,
    Abs,
    LoadRel,
    False,
    Ident,
    Nop,
    Trap,
    BitRev,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    ErrnoLoc,
    Bcmp,
    Memcmp,
    Strlen,
    Open,
    Read,
    Write,
    Pread,
    Pwrite,
    Readv,
    Writev,
    Lseek,
    Close,
    Fcntl,
    Fstat,
    Stat,
    Statx,
    Fsync,
    Ftruncate,
    Unlink,
    Getenv,
    Getrandom,
    Syscall,
    Gettid,
    Abort,
    Unsupported,
    /// Unicode property tables: alphabetic, numeric, lower case, upper case, white space
    Unicode(u8),
    // Rust runtime entry points
    PanicFmt,
    PanicLoc(u8), // index of the location argument counted from the end
    AllocError,
    // harness interface
    SymBytes,
    SymCheck,
    SymAssume,
    SymChoice,
    SymReach,
    SymExpect,
    SymEmit,
    VfsPut,
    VfsGet,
    VfsSize,
    VfsHas,
    VfsDel,
    SymFault,
    SymLimit,
    SymEqBytes,
    SymConc,
    MaxAlloc,
    SymNative,
}

pub struct Exec {
    pub x: Ctx,
    pub s: Solver,
    pub m: Module,
    pub compiled: Vec<Option<&'static Func>>,
    pub stack: Vec<State>,
    pub glob_table: Vec<(u64, u64, u32)>, // addr, size, object id
    pub errno_obj: u32,
    pub env_obj: u32,
    pub max_steps: u64,
    pub violations: BTreeMap<String, Violation>,
    pub reached: BTreeMap<String, u64>,
    pub expected: BTreeSet<String>,
    pub errors: Vec<String>,
    pub paths: u64,
    pub cut_paths: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_solved: u64,
    pub conc: HashMap<String, u64>,
    pub fork_sites: HashMap<(usize, usize), u64>,
    pub traces: Vec<Trace>,
    pub trace_max: usize,
    pub seed: u64,
    pub profile: bool,
    pub verbose: bool,
    pub deadline: Instant,
    intr: Vec<Option<Option<Intr>>>,
    intr_name: HashMap<String, Option<Intr>>,
    stub_names: BTreeSet<String>,
    pub depth_max: u32,
}

fn bound_has(b: &[u64], v: u32) -> bool {
    b.get(v as usize / 64).map(|w| w >> (v % 64) & 1 == 1).unwrap_or(false)
}

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Exec {
        let n = m.funcs.len();
        Exec {
            x: Ctx::new(),
            s: Solver::new(timeout_ms),
            m,
            compiled: vec![None; n],
            stack: vec![],
            glob_table: vec![],
            errno_obj: 0,
            env_obj: 0,
            max_steps: 50_000_000,
            violations: BTreeMap::new(),
            reached: BTreeMap::new(),
            expected: BTreeSet::new(),
            errors: vec![],
            paths: 0,
            cut_paths: 0,
            forks: 0,
            steps: 0,
            checks: 0,
            checks_solved: 0,
            conc: HashMap::new(),
            fork_sites: HashMap::new(),
            traces: vec![],
            trace_max: 12,
            seed: 1,
            profile: false,
            verbose: false,
            deadline: Instant::now() + std::time::Duration::from_secs(3600),
            intr: vec![None; n],
            intr_name: HashMap::new(),
            stub_names: BTreeSet::new(),
            depth_max: 0,
        }
    }

    pub fn functions_encoded(&self) -> Vec<String> {
        self.compiled.iter().flatten().map(|f| f.name.clone()).collect()
    }
    pub fn stubs_used(&self) -> Vec<String> {
        self.stub_names.iter().cloned().collect()
    }

    fn compile(&mut self, ix: usize) -> &'static Func {
        if let Some(f) = self.compiled[ix] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.m.compile(ix)));
        self.compiled[ix] = Some(f);
        f
    }

    // ---------------------------------------------------------------- start
    pub fn start(&mut self, entry: &str, params: &[u64]) -> Result<(), String> {
        let mut mem = Mem::new();
        // id 0 is never a valid object
        mem.alloc(Obj { size: 0, data: vec![], sym: None, constant: true, heap: false });
        for g in &self.m.globals {
            let id = mem.alloc(Obj { size: g.size, data: g.init.clone(), sym: None, constant: g.constant, heap: false });
            self.glob_table.push((g.addr, g.size, id));
        }
        self.errno_obj = mem.alloc(Obj::zeroed(8, false));
        self.env_obj = mem.alloc(Obj::zeroed(8, false));
        let ix = *self.m.func_ix.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.compile(ix);
        let mut slots = vec![V::k(0); f.nslots as usize];
        if f.nargs as usize != params.len() {
            return Err(format!("entry {} takes {} parameters", entry, f.nargs));
        }
        for (i, p) in params.iter().enumerate() {
            slots[i] = V::k(*p);
        }
        let st = State {
            frames: vec![Rc::new(Frame { f, ip: 0, slots, allocas: vec![] })],
            mem,
            pc: vec![],
            bound: vec![],
            model: Rc::new(Model { id: 1, vals: vec![] }),
            vars: Rc::new(vec![]),
            fs: Rc::new(Fs::default()),
            fault: Fault::default(),
            emits: vec![],
            steps: 0,
            depth: 0,
            alloc_limit: 1 << 26,
            total_limit: 1 << 28,
            max_alloc: 0,
            inst_nvars: 0,
        };
        self.stack.push(st);
        Ok(())
    }

    pub fn run(&mut self, max_paths: u64) {
        while let Some(mut st) = self.stack.pop() {
            if self.paths + self.cut_paths >= max_paths {
                self.errors.push(format!("path budget {} exhausted", max_paths));
                return;
            }
            if Instant::now() > self.deadline {
                self.errors.push("time budget exhausted".into());
                return;
            }
            let r = self.run_path(&mut st);
            self.finish(&mut st, r);
            if self.errors.len() > 20 {
                return;
            }
        }
    }

    fn values(&mut self, st: &State) -> Vec<(u8, u128)> {
        let m = st.model.clone();
        st.vars.iter().map(|e| (self.x.w(*e), self.x.eval(*e, &m))).collect()
    }

    fn finish(&mut self, st: &mut State, r: Stop) {
        if self.profile {
            eprintln!("path {} steps {} pc {} depth {}", self.paths, st.steps, st.pc.len(), st.depth);
        }
        let status = match r {
            Stop::Done => {
                self.paths += 1;
                "ok".to_string()
            }
            Stop::Cut => {
                self.cut_paths += 1;
                return;
            }
            Stop::Violation { kind, label, detail } => {
                self.paths += 1;
                self.record(st, &kind, &label, &detail);
                return;
            }
            Stop::Error(e) => {
                self.paths += 1;
                let tr = self.backtrace(st);
                self.errors.push(format!("{} [{}]", e, tr));
                return;
            }
        };
        // deterministic sample of complete paths
        let h = (self.paths ^ self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93) >> 40;
        let take = self.traces.len() < 2 || (h % (1 + self.paths / 4) == 0);
        if take && self.trace_max > 0 {
            let m = st.model.clone();
            let mut emits = vec![];
            for e in &st.emits {
                match &**e {
                    Emit::Bytes(b) => {
                        let mut v = vec![];
                        for (c, e) in b {
                            v.push(if *e == 0 { *c } else { self.x.eval(*e, &m) as u8 });
                        }
                        emits.push(v);
                    }
                }
            }
            let values = self.values(st);
            let t = Trace { values, emits, status };
            if self.traces.len() < self.trace_max {
                self.traces.push(t);
            } else {
                let i = 2 + (h as usize / 7) % (self.trace_max - 2).max(1);
                if i < self.traces.len() {
                    self.traces[i] = t;
                }
            }
        }
    }

    pub fn violation(&mut self, st: &State, kind: &str, label: &str, detail: &str) {
        self.record(st, kind, label, detail)
    }
    fn record(&mut self, st: &State, kind: &str, label: &str, detail: &str) {
        if let Some(v) = self.violations.get_mut(label) {
            v.count += 1;
            return;
        }
        let values = self.values(st);
        let bt = self.backtrace(st);
        self.violations.insert(
            label.to_string(),
            Violation { label: label.into(), kind: kind.into(), detail: format!("{} [{}]", detail, bt), values, count: 1 },
        );
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut v: Vec<String> = st.frames.iter().rev().take(9).map(|f| short(&f.f.name)).collect();
        v.dedup();
        v.join(" < ")
    }

    // ---------------------------------------------------------------- values
    #[inline]
    pub fn ve(&mut self, v: V, w: u8) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.x.konst(w, v.c as u128)
        }
    }
    #[inline]
    pub fn vn(&self, e: E) -> V {
        let n = self.x.n(e);
        if n.op == Op::Const && n.w <= 64 {
            V::k(n.k)
        } else {
            V { c: 0, e }
        }
    }
    fn is_bound(&self, st: &State, e: E) -> bool {
        let s = self.x.supp(e);
        s.len() <= 24 && s.iter().all(|v| bound_has(&st.bound, *v))
    }
    /// replace by a constant when every variable of the value is already fixed
    fn norm(&mut self, st: &State, v: V) -> V {
        if v.e == 0 {
            return v;
        }
        if self.is_bound(st, v.e) {
            let r = self.x.eval(v.e, &st.model);
            let w = self.x.w(v.e);
            if w <= 64 {
                return V::k(r as u64);
            }
            let e = self.x.konst(w, r);
            return V { c: 0, e };
        }
        v
    }

    pub fn add_pc(&mut self, st: &mut State, e: E) {
        if self.x.cval(e).is_some() {
            return;
        }
        let n = self.x.n(e);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        // not(or(a, b))
        if n.op == Op::Xor && n.w == 1 && self.x.cval(n.b) == Some(1) {
            let i = self.x.n(n.a);
            if i.op == Op::Or {
                let p = self.x.not(i.a);
                let q = self.x.not(i.b);
                self.add_pc(st, p);
                self.add_pc(st, q);
                return;
            }
            if i.op == Op::Var {
                self.bind(st, n.a);
            }
        }
        if n.op == Op::Var {
            self.bind(st, e);
        }
        if n.op == Op::Eq && self.x.cval(n.b).is_some() {
            self.bind(st, n.a);
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }
    fn bind(&mut self, st: &mut State, e: E) {
        let n = self.x.n(e);
        match n.op {
            Op::Var => {
                let i = n.k as usize;
                if st.bound.len() <= i / 64 {
                    st.bound.resize(i / 64 + 1, 0);
                }
                st.bound[i / 64] |= 1 << (i % 64);
            }
            Op::ZExt | Op::SExt => self.bind(st, n.a),
            Op::Concat => {
                self.bind(st, n.a);
                self.bind(st, n.b);
            }
            Op::Add | Op::Xor if self.x.cval(n.b).is_some() => self.bind(st, n.a),
            _ => {}
        }
    }

    /// Decide a condition in the current state; forks when both outcomes are feasible.
    pub fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(v) = self.x.cval(e) {
            return Ok(v == 1);
        }
        if self.is_bound(st, e) {
            return Ok(self.x.eval(e, &st.model) == 1);
        }
        let ne = self.x.not(e);
        for p in st.pc.iter().rev() {
            if *p == e {
                return Ok(true);
            }
            if *p == ne {
                return Ok(false);
            }
        }
        let v = self.x.eval(e, &st.model) == 1;
        let (this, other) = if v { (e, ne) } else { (ne, e) };
        let (r, m) = self.s.check(&self.x, &st.pc, other, &st.model);
        match r {
            Res::Unsat => {}
            Res::Unknown => {
                return Err(Stop::Error(format!("solver gave no answer within {} ms", self.s.timeout_ms)));
            }
            Res::Sat => {
                self.forks += 1;
                if self.profile {
                    let f = st.frames.last().unwrap();
                    let fi = self.m.func_ix[&f.f.name];
                    *self.fork_sites.entry((fi, f.ip)).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.depth += 1;
                if o.depth > self.depth_max {
                    self.depth_max = o.depth;
                }
                if o.vars.len() > st.inst_nvars {
                    Rc::make_mut(&mut o.vars).truncate(st.inst_nvars);
                }
                o.model = Rc::new(m.unwrap());
                self.add_pc(&mut o, other);
                self.stack.push(o);
                self.add_pc(st, this);
                st.depth += 1;
            }
        }
        Ok(v)
    }

    /// Turn a value into a constant, forking over all its feasible values.
    pub fn conc(&mut self, st: &mut State, v: V, w: u8, why: &str) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let v = self.norm(st, v);
        if v.e == 0 {
            return Ok(v.c);
        }
        let val = self.x.eval(v.e, &st.model) as u64;
        let k = self.x.konst(w, val as u128);
        let q = self.x.eq(v.e, k);
        let cnt = self.conc.entry(why.to_string()).or_insert(0);
        *cnt += 1;
        if !self.decide(st, q)? {
            return Err(Stop::Error("concretisation".into()));
        }
        // the fact is now entailed: fix the variables it determines
        if !st.pc.contains(&q) {
            self.add_pc(st, q);
        }
        Ok(val)
    }

    // ---------------------------------------------------------------- memory
    fn find_obj(&self, st: &State, addr: u64) -> Option<(u32, u64)> {
        let hi = (addr >> 32) as u32;
        if hi != 0 {
            if hi < st.mem.next {
                return Some((hi, addr & 0xffff_ffff));
            }
            return None;
        }
        let i = self.glob_table.partition_point(|g| g.0 <= addr);
        if i == 0 {
            return None;
        }
        let g = &self.glob_table[i - 1];
        if addr - g.0 <= g.1 {
            Some((g.2, addr - g.0))
        } else {
            None
        }
    }
    fn span(&self, st: &State, addr: u64, n: u64, what: &str) -> R<(u32, usize)> {
        match self.find_obj(st, addr) {
            Some((id, off)) => match st.mem.get(id) {
                Some(o) if off + n <= o.size => Ok((id, off as usize)),
                Some(o) => Err(Stop::Error(format!("{} of {} bytes at offset {} of an object of {} bytes", what, n, off, o.size))),
                None => Err(Stop::Error(format!("{} through a freed pointer {:#x}", what, addr))),
            },
            None => Err(Stop::Error(format!("{} of {} bytes at invalid address {:#x}", what, n, addr))),
        }
    }
    pub fn read_byte(&self, st: &State, addr: u64) -> R<(u8, E)> {
        let (id, off) = self.span(st, addr, 1, "load")?;
        Ok(st.mem.get(id).unwrap().get(off))
    }
    pub fn read_bytes(&self, st: &State, addr: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.span(st, addr, n, "load")?;
        let o = st.mem.get(id).unwrap();
        Ok((off..off + n as usize).map(|i| o.get(i)).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[(u8, E)]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.span(st, addr, b.len() as u64, "store")?;
        let o = st.mem.get_mut(id).unwrap();
        if o.constant {
            return Err(Stop::Error("store to a constant".into()));
        }
        for (i, (c, e)) in b.iter().enumerate() {
            o.set(off + i, *c, *e);
        }
        Ok(())
    }
    pub fn str_at(&mut self, st: &mut State, addr: u64, n: u64) -> R<String> {
        let b = self.read_bytes(st, addr, n)?;
        let mut v = vec![];
        for (c, e) in b {
            if e != 0 {
                let x = self.conc(st, V { c: 0, e }, 8, "string")?;
                v.push(x as u8);
            } else {
                v.push(c);
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    pub fn cstr_at(&mut self, st: &mut State, addr: u64) -> R<String> {
        let mut n = 0;
        loop {
            let (c, e) = self.read_byte(st, addr + n)?;
            let c = if e != 0 { self.conc(st, V { c: 0, e }, 8, "string")? as u8 } else { c };
            if c == 0 {
                break;
            }
            n += 1;
        }
        self.str_at(st, addr, n)
    }

    pub fn load(&mut self, st: &State, addr: u64, w: u8) -> R<V> {
        let n = (w as usize + 7) / 8;
        let (id, off) = self.span(st, addr, n as u64, "load")?;
        let o = st.mem.get(id).unwrap();
        if !o.has_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let mut c = u64::from_le_bytes(b);
                if w < 64 {
                    c &= (1u64 << w) - 1;
                }
                return Ok(V::k(c));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let e = self.x.konst(w, u128::from_le_bytes(b));
            return Ok(V { c: 0, e });
        }
        let mut bs: Vec<E> = Vec::with_capacity(n);
        for i in 0..n {
            let (c, e) = o.get(off + i);
            bs.push(if e != 0 {
                e
            } else {
                self.x.konst(8, c as u128)
            });
        }
        let mut r = bs[n - 1];
        for i in (0..n - 1).rev() {
            r = self.x.concat(r, bs[i]);
        }
        if (w as usize) < n * 8 {
            r = self.x.extract(r, 0, w);
        }
        let v = self.vn(r);
        Ok(self.norm(st, v))
    }
    pub fn store(&mut self, st: &mut State, addr: u64, w: u8, v: V) -> R<()> {
        let n = (w as usize + 7) / 8;
        let (id, off) = self.span(st, addr, n as u64, "store")?;
        if v.e == 0 {
            let o = st.mem.get_mut(id).unwrap();
            if o.constant {
                return Err(Stop::Error("store to a constant".into()));
            }
            let b = v.c.to_le_bytes();
            o.data[off..off + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut o.sym {
                s[off..off + n].fill(0);
            }
            return Ok(());
        }
        let mut e = v.e;
        if (w as usize) < n * 8 {
            e = self.x.zext(e, (n * 8) as u8);
        }
        for i in 0..n {
            let b = self.x.extract(e, (i * 8) as u8, 8);
            let (c, be) = match self.x.cval(b) {
                Some(k) => (k as u8, 0),
                None => (0, b),
            };
            st.mem.get_mut(id).unwrap().set(off + i, c, be);
        }
        Ok(())
    }

    /// Load through a symbolic address: the feasible addresses are enumerated by the
    /// solver (no fork) and the result is an if-then-else over them.
    fn load_sym(&mut self, st: &mut State, p: E, w: u8) -> R<Option<V>> {
        let info = self.x.info[p as usize];
        let a0 = self.x.eval(p, &st.model) as u64;
        let Some((id, _)) = self.find_obj(st, a0) else { return Ok(None) };
        let base = if a0 >> 32 != 0 { (id as u64) << 32 } else { self.glob_table.iter().find(|g| g.2 == id).unwrap().0 };
        let size = match st.mem.get(id) {
            Some(o) => o.size,
            None => return Ok(None),
        };
        let n = (w as u64 + 7) / 8;
        let tz = (!info.kz).trailing_zeros().min(4);
        let step = 1u64 << tz;
        let mut addrs: Vec<u64> = vec![];
        if info.lo >= base && info.hi + n <= base + size && (info.hi - info.lo) / step <= 512 {
            // every address of the type's range lies inside the object
            let lo = (info.lo + step - 1) / step * step;
            let mut a = lo;
            while a <= info.hi {
                addrs.push(a);
                a += step;
            }
        } else {
            let mut pcx = st.pc.clone();
            let mut model: Rc<Model> = st.model.clone();
            loop {
                let a = self.x.eval(p, &model) as u64;
                addrs.push(a);
                if addrs.len() > 300 {
                    return Ok(None);
                }
                let k = self.x.konst(64, a as u128);
                let q = self.x.eq(p, k);
                let nq = self.x.not(q);
                let (r, m) = self.s.check(&self.x, &pcx, nq, &model);
                match r {
                    Res::Unsat => break,
                    Res::Unknown => return Err(Stop::Error("solver gave no answer".into())),
                    Res::Sat => {
                        pcx.push(nq);
                        model = Rc::new(m.unwrap());
                    }
                }
            }
            addrs.sort();
        }
        // group equal neighbouring results
        let mut runs: Vec<(u64, V)> = vec![];
        for a in &addrs {
            let v = self.load(st, *a, w)?;
            match runs.last() {
                Some((_, l)) if l.e == v.e && (v.e != 0 || l.c == v.c) => {}
                _ => runs.push((*a, v)),
            }
        }
        let (_, mut acc) = *runs.last().unwrap();
        for i in (0..runs.len() - 1).rev() {
            let k = self.x.konst(64, runs[i + 1].0 as u128);
            let c = self.x.ult(p, k);
            let a = self.ve(runs[i].1, w);
            let b = self.ve(acc, w);
            let r = self.x.ite(c, a, b);
            acc = self.vn(r);
        }
        Ok(Some(acc))
    }

    pub fn malloc(&mut self, st: &mut State, size: V, align: u64) -> R<u64> {
        let _ = align;
        let lim = st.alloc_limit;
        if size.e != 0 {
            let k = self.x.konst(64, lim as u128);
            let big = self.x.ult(k, size.e);
            if self.decide(st, big)? {
                return Err(self.huge(st, None));
            }
        } else if size.c > lim {
            return Err(self.huge(st, Some(size.c)));
        }
        let n = self.conc(st, size, 64, "allocation size")?;
        if st.mem.live_heap + n > st.total_limit {
            return Err(self.huge(st, Some(n)));
        }
        st.max_alloc = st.max_alloc.max(n);
        let id = st.mem.alloc(Obj::zeroed(n, true));
        Ok((id as u64) << 32)
    }
    fn huge(&mut self, st: &State, n: Option<u64>) -> Stop {
        let _ = st;
        Stop::Violation {
            kind: "huge-alloc".into(),
            label: "huge-alloc".into(),
            detail: match n {
                Some(n) => format!("allocation of {} bytes", n),
                None => "allocation above the limit".into(),
            },
        }
    }

    fn set_errno(&mut self, st: &mut State, e: u32) {
        let a = (self.errno_obj as u64) << 32;
        let _ = self.store(st, a, 32, V::k(e as u64));
    }

    pub fn fresh(&mut self, st: &mut State, w: u8, name: &str) -> E {
        let idx = st.vars.len() as u32;
        let e = self.x.var(idx, w, name);
        Rc::make_mut(&mut st.vars).push(e);
        e
    }

    // ---------------------------------------------------------------- main loop
    #[inline(always)]
    fn opd(f: &Frame, o: Opd) -> V {
        if o.s == KONST {
            V::k(o.c)
        } else {
            f.slots[o.s as usize]
        }
    }
    fn get(&mut self, st: &State, o: Opd) -> V {
        if o.s == KONST {
            V::k(o.c)
        } else if o.s == BIG {
            let f = st.frames.last().unwrap();
            let (w, v) = f.f.bigs[o.c as usize];
            let e = self.x.konst(w, v);
            V { c: 0, e }
        } else {
            st.frames.last().unwrap().slots[o.s as usize]
        }
    }
    fn set(st: &mut State, d: u32, v: V) {
        Rc::make_mut(st.frames.last_mut().unwrap()).slots[d as usize] = v;
    }

    fn take_edge(&mut self, st: &mut State, e: &Edge) {
        if e.copies.is_empty() {
            Rc::make_mut(st.frames.last_mut().unwrap()).ip = e.to as usize;
            return;
        }
        if e.copies.len() == 1 {
            let v = self.get(st, e.copies[0].1);
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            f.slots[e.copies[0].0 as usize] = v;
            f.ip = e.to as usize;
            return;
        }
        let vals: Vec<V> = e.copies.iter().map(|(_, o)| self.get(st, *o)).collect();
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for ((d, _), v) in e.copies.iter().zip(vals) {
            f.slots[*d as usize] = v;
        }
        f.ip = e.to as usize;
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.steps += 1;
        if st.steps > self.max_steps {
            return Err(Stop::Violation {
                kind: "hang".into(),
                label: "hang".into(),
                detail: format!("more than {} instructions on one path", self.max_steps),
            });
        }
        if self.steps & 0xfffff == 0 && Instant::now() > self.deadline {
            self.stack.clear();
            return Err(Stop::Error("time budget exhausted".into()));
        }
        st.inst_nvars = st.vars.len();
        let (func, ip) = {
            let f = st.frames.last().unwrap();
            (f.f, f.ip)
        };
        let ins: &'static I = &func.code[ip];
        match ins {
            I::Bin { op, w, d, a, b } => {
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                if a.s != BIG && b.s != BIG {
                    let (x, y) = (Self::opd(f, *a), Self::opd(f, *b));
                    if x.e == 0 && y.e == 0 {
                        if let Some(r) = bin_conc(*op, *w, x.c, y.c) {
                            f.slots[*d as usize] = V::k(r);
                            f.ip += 1;
                            return Ok(());
                        }
                    }
                }
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let r = self.bin(st, *op, *w, x, y)?;
                Self::set(st, *d, r);
            }
            I::Cmp { p, w, d, a, b } => {
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                if a.s != BIG && b.s != BIG {
                    let (x, y) = (Self::opd(f, *a), Self::opd(f, *b));
                    if x.e == 0 && y.e == 0 {
                        let r = cmp_conc(*p, *w, x.c, y.c);
                        f.slots[*d as usize] = V::k(r as u64);
                        f.ip += 1;
                        return Ok(());
                    }
                }
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let r = self.cmp(*p, *w, x, y);
                Self::set(st, *d, r);
            }
            I::FCmp { p, w, d, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let r = self.fcmp(p, *w, x, y)?;
                Self::set(st, *d, r);
            }
            I::FNeg { w, d, a } => {
                let x = self.get(st, *a);
                let e = self.ve(x, *w);
                let k = self.x.konst(*w, 1u128 << (*w - 1));
                let r = self.x.xor(e, k);
                let v = self.vn(r);
                Self::set(st, *d, v);
            }
            I::Sel { d, c, a, b, w } => {
                let cv = self.get(st, *c);
                let cv = self.norm(st, cv);
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let r = if cv.e == 0 {
                    if cv.c & 1 == 1 {
                        x
                    } else {
                        y
                    }
                } else {
                    let (p, q) = (self.ve(x, *w), self.ve(y, *w));
                    let e = self.x.ite(cv.e, p, q);
                    self.vn(e)
                };
                Self::set(st, *d, r);
            }
            I::ZExt { d, a, f: _, t } => {
                let x = self.get(st, *a);
                let r = if x.e == 0 && *t <= 64 {
                    x
                } else {
                    let fw = match ins {
                        I::ZExt { f, .. } => *f,
                        _ => unreachable!(),
                    };
                    let e = self.ve(x, fw);
                    let e = self.x.zext(e, *t);
                    self.vn(e)
                };
                Self::set(st, *d, r);
            }
            I::SExt { d, a, f, t } => {
                let x = self.get(st, *a);
                let e = self.ve(x, *f);
                let e = self.x.sext(e, *t);
                let r = self.vn(e);
                Self::set(st, *d, r);
            }
            I::Trunc { d, a, f: _, t } => {
                let x = self.get(st, *a);
                let r = if x.e == 0 {
                    V::k(if *t < 64 { x.c & ((1u64 << *t) - 1) } else { x.c })
                } else {
                    let e = self.x.extract(x.e, 0, *t);
                    self.vn(e)
                };
                Self::set(st, *d, r);
            }
            I::Copy { d, a } => {
                let x = self.get(st, *a);
                Self::set(st, *d, x);
            }
            I::Pack { d, parts, w } => {
                let mut r: Option<E> = None;
                for o in parts.iter().rev() {
                    let x = self.get(st, *o);
                    let e = self.ve(x, *w);
                    r = Some(match r {
                        None => e,
                        Some(h) => self.x.concat(h, e),
                    });
                }
                let v = self.vn(r.unwrap());
                Self::set(st, *d, v);
            }
            I::Unpack { d, n, a, w } => {
                let x = self.get(st, *a);
                let total = (*n as u64 * *w as u64) as u8;
                let e = self.ve(x, total);
                for i in 0..*n {
                    let b = self.x.extract(e, (i * *w as u32) as u8, *w);
                    let v = self.vn(b);
                    Self::set(st, *d + i, v);
                }
            }
            I::Load { d, p, lv } => {
                let pv = self.get(st, *p);
                let pv = self.norm(st, pv);
                if pv.e != 0 {
                    let mut out = vec![];
                    let mut ok = true;
                    for (o, w) in lv.iter() {
                        let k = self.x.konst(64, *o as u128);
                        let a = self.x.add(pv.e, k);
                        match self.load_sym(st, a, *w)? {
                            Some(v) => out.push(v),
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        for (i, v) in out.into_iter().enumerate() {
                            Self::set(st, *d + i as u32, v);
                        }
                        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                        return Ok(());
                    }
                }
                let a = self.conc(st, pv, 64, "load address")?;
                for (i, (o, w)) in lv.iter().enumerate() {
                    let v = self.load(st, a.wrapping_add(*o as u64), *w)?;
                    Self::set(st, *d + i as u32, v);
                }
            }
            I::Store { p, lv } => {
                let pv = self.get(st, *p);
                let a = self.conc(st, pv, 64, "store address")?;
                for (o, w, v) in lv.iter() {
                    let x = self.get(st, *v);
                    self.store(st, a.wrapping_add(*o as u64), *w, x)?;
                }
            }
            I::Gep { d, base, off, idx } => {
                let b = self.get(st, *base);
                let mut acc = b;
                if *off != 0 {
                    acc = if acc.e == 0 {
                        V::k(acc.c.wrapping_add(*off as u64))
                    } else {
                        let k = self.x.konst(64, *off as u64 as u128);
                        let e = self.x.add(acc.e, k);
                        self.vn(e)
                    };
                }
                for (o, scale, w) in idx.iter() {
                    let i = self.get(st, *o);
                    if i.e == 0 && acc.e == 0 {
                        let k = sext128(i.c as u128, *w) as i64;
                        acc = V::k(acc.c.wrapping_add(k.wrapping_mul(*scale) as u64));
                    } else {
                        let mut e = self.ve(i, *w);
                        if *w < 64 {
                            e = self.x.sext(e, 64);
                        }
                        if *scale != 1 {
                            let k = self.x.konst(64, *scale as u64 as u128);
                            e = self.x.mul(e, k);
                        }
                        let be = self.ve(acc, 64);
                        let e = self.x.add(be, e);
                        acc = self.vn(e);
                    }
                }
                Self::set(st, *d, acc);
            }
            I::Br(e) => {
                self.take_edge(st, e);
                return Ok(());
            }
            I::CondBr { c, t, f } => {
                let cv = self.get(st, *c);
                let b = if cv.e == 0 { cv.c & 1 == 1 } else { self.decide(st, cv.e)? };
                self.take_edge(st, if b { t } else { f });
                return Ok(());
            }
            I::Switch { v, w, cases, edges } => {
                let x = self.get(st, *v);
                let x = self.norm(st, x);
                if x.e == 0 {
                    let en = cases.iter().find(|(k, _)| *k == x.c).map(|(_, e)| *e).unwrap_or(0);
                    self.take_edge(st, &edges[en as usize]);
                    return Ok(());
                }
                // one branch per target
                let cur = self.x.eval(x.e, &st.model) as u64;
                let en = cases.iter().find(|(k, _)| *k == cur).map(|(_, e)| *e).unwrap_or(0);
                let mut c = self.x.fls();
                if en != 0 {
                    for (k, t) in cases.iter() {
                        if *t == en {
                            let kk = self.x.konst(*w, *k as u128);
                            let q = self.x.eq(x.e, kk);
                            c = self.x.or(c, q);
                        }
                    }
                } else {
                    for (k, t) in cases.iter() {
                        if *t != 0 {
                            let kk = self.x.konst(*w, *k as u128);
                            let q = self.x.eq(x.e, kk);
                            c = self.x.or(c, q);
                        }
                    }
                    c = self.x.not(c);
                }
                if !self.decide(st, c)? {
                    return Err(Stop::Error("switch".into()));
                }
                self.take_edge(st, &edges[en as usize]);
                return Ok(());
            }
            I::Ret(vals) => {
                let vs: Vec<V> = vals.iter().map(|o| self.get(st, *o)).collect();
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.free(*a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                self.ret_to(st, &vs);
                return Ok(());
            }
            I::Unreachable => {
                return Err(Stop::Error(format!("unreachable code reached in {}", short(&func.name))));
            }
            I::Alloca { d, size } => {
                let id = st.mem.alloc(Obj::zeroed(*size, false));
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.allocas.push(id);
                f.slots[*d as usize] = V::k((id as u64) << 32);
            }
            I::Rmw { op, w, d, p, a } => {
                let pv = self.get(st, *p);
                let ad = self.conc(st, pv, 64, "atomic address")?;
                let old = self.load(st, ad, *w)?;
                let x = self.get(st, *a);
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(st, BinOp::Add, *w, old, x)?,
                    "sub" => self.bin(st, BinOp::Sub, *w, old, x)?,
                    "and" => self.bin(st, BinOp::And, *w, old, x)?,
                    "or" => self.bin(st, BinOp::Or, *w, old, x)?,
                    "xor" => self.bin(st, BinOp::Xor, *w, old, x)?,
                    o => return Err(Stop::Error(format!("atomicrmw {}", o))),
                };
                self.store(st, ad, *w, new)?;
                Self::set(st, *d, old);
            }
            I::CmpXchg { w, d, p, cmp, new } => {
                let pv = self.get(st, *p);
                let ad = self.conc(st, pv, 64, "atomic address")?;
                let old = self.load(st, ad, *w)?;
                let c = self.get(st, *cmp);
                let q = self.cmp(Pred::Eq, *w, old, c);
                let b = if q.e == 0 { q.c == 1 } else { self.decide(st, q.e)? };
                if b {
                    let n = self.get(st, *new);
                    self.store(st, ad, *w, n)?;
                }
                Self::set(st, *d, old);
                Self::set(st, *d + 1, V::k(b as u64));
            }
            I::Call(c) => return self.call(st, c),
        }
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
        Ok(())
    }

    /// store the results of the call at the top frame's ip and move on
    fn ret_to(&mut self, st: &mut State, vs: &[V]) {
        let (func, ip) = {
            let f = st.frames.last().unwrap();
            (f.f, f.ip)
        };
        let I::Call(c) = &func.code[ip] else { panic!("return to a non-call") };
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for (i, v) in vs.iter().enumerate().take(c.ret.len()) {
            f.slots[c.d as usize + i] = *v;
        }
        match &c.normal {
            Some(e) => self.take_edge(st, e),
            None => f.ip += 1,
        }
    }

    fn intr_of(&mut self, ix: usize) -> Option<Intr> {
        if let Some(r) = self.intr[ix] {
            return r;
        }
        let name = self.m.funcs[ix].name.clone();
        let has_body = self.m.funcs[ix].body.is_some();
        let mut r = if has_body { intercept(&name) } else { external(&name) };
        if r.is_none() && !has_body {
            r = Some(Intr::Unsupported);
        }
        if r.is_some() && !name.starts_with("llvm.") {
            self.stub_names.insert(short(&name));
        }
        self.intr[ix] = Some(r);
        r
    }

    fn call(&mut self, st: &mut State, c: &'static Call) -> R<()> {
        let t = c.target.get();
        let ix: usize;
        if t != 0 {
            ix = t as usize - 1;
        } else {
            match &c.callee {
                Callee::Func(i) => {
                    ix = *i;
                    c.target.set(ix as u32 + 1);
                }
                Callee::Name(n) => {
                    if let Some(i) = self.m.func_ix.get(n) {
                        ix = *i;
                        c.target.set(ix as u32 + 1);
                    } else {
                        return Err(Stop::Error(format!("call of unknown function {}", n)));
                    }
                }
                Callee::Asm(s) => {
                    if s.starts_with('|') || s.is_empty() {
                        // an empty asm block: the identity on its argument
                        let vs: Vec<V> = c.args.iter().map(|a| self.get(st, a.0)).collect();
                        self.ret_to(st, &vs);
                        return Ok(());
                    }
                    return Err(Stop::Error(format!("inline assembly {}", s)));
                }
                Callee::Ptr(p) => {
                    let v = self.get(st, *p);
                    let a = self.conc(st, v, 64, "function pointer")?;
                    let i = a.wrapping_sub(FUNC_BASE) / 16;
                    if a < FUNC_BASE || a % 16 != 0 || i == 0 || i as usize > self.m.funcs.len() {
                        return Err(Stop::Error(format!("call through {:#x}", a)));
                    }
                    ix = i as usize - 1;
                }
            }
        }
        if let Some(k) = self.intr_of(ix) {
            let args: Vec<V> = c.args.iter().map(|a| self.get(st, a.0)).collect();
            let name = self.m.funcs[ix].name.clone();
            let vs = self.intrinsic(st, k, &name, c, &args)?;
            self.ret_to(st, &vs);
            return Ok(());
        }
        let f = self.compile(ix);
        let mut slots = vec![V::k(0); f.nslots as usize];
        if c.args.len() != f.nargs as usize {
            return Err(Stop::Error(format!("argument count of {}", f.name)));
        }
        for (i, a) in c.args.iter().enumerate() {
            slots[i] = self.get(st, a.0);
        }
        if st.frames.len() > 400 {
            return Err(Stop::Violation { kind: "stack".into(), label: "stack-depth".into(), detail: "recursion deeper than 400 frames".into() });
        }
        st.frames.push(Rc::new(Frame { f, ip: 0, slots, allocas: vec![] }));
        Ok(())
    }

    // ---------------------------------------------------------------- scalar operations
    pub fn bin(&mut self, st: &State, op: BinOp, w: u8, a: V, b: V) -> R<V> {
        if a.e == 0 && b.e == 0 && w <= 64 {
            return match bin_conc(op, w, a.c, b.c) {
                Some(r) => Ok(V::k(r)),
                None => Err(Stop::Error("division by zero".into())),
            };
        }
        let _ = st;
        let (x, y) = (self.ve(a, w), self.ve(b, w));
        let c = &mut self.x;
        let e = match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::UDiv => c.udiv(x, y),
            BinOp::SDiv => c.sdiv(x, y),
            BinOp::URem => c.urem(x, y),
            BinOp::SRem => c.srem(x, y),
            BinOp::Shl => c.shl(x, y),
            BinOp::LShr => c.lshr(x, y),
            BinOp::AShr => c.ashr(x, y),
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
        };
        Ok(self.vn(e))
    }
    pub fn cmp(&mut self, p: Pred, w: u8, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 && w <= 64 {
            return V::k(cmp_conc(p, w, a.c, b.c) as u64);
        }
        let (x, y) = (self.ve(a, w), self.ve(b, w));
        let c = &mut self.x;
        let e = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let q = c.eq(x, y);
                c.not(q)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => c.sle(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => c.sle(y, x),
        };
        self.vn(e)
    }
    fn fcmp(&mut self, p: &str, w: u8, a: V, b: V) -> R<V> {
        let (x, y) = (self.ve(a, w), self.ve(b, w));
        let (ebits, mbits) = if w == 32 { (8u8, 23u8) } else { (11, 52) };
        let c = &mut self.x;
        let nan = |c: &mut Ctx, v: E| {
            let ex = c.extract(v, mbits, ebits);
            let m = c.extract(v, 0, mbits);
            let k = c.konst(ebits, mask(ebits));
            let z = c.konst(mbits, 0);
            let p = c.eq(ex, k);
            let q = c.eq(m, z);
            let q = c.not(q);
            c.and(p, q)
        };
        let na = nan(c, x);
        let nb = nan(c, y);
        let un = c.or(na, nb);
        let eq = c.eq(x, y);
        let k = c.konst(w, 0);
        let half = mask(w - 1);
        let hm = c.konst(w, half);
        let o = c.or(x, y);
        let o = c.and(o, hm);
        let bz = c.eq(o, k);
        let eq = c.or(eq, bz);
        // ordered comparison through the sign/magnitude order
        let sa = c.extract(x, w - 1, 1);
        let sb = c.extract(y, w - 1, 1);
        let ult = c.ult(x, y);
        let ugt = c.ult(y, x);
        let nsb = c.not(sb);
        // both negative: larger magnitude is smaller
        let t1 = c.ite(sa, ugt, ult);
        let same = c.eq(sa, sb);
        let t2 = c.and(sa, nsb);
        let lt0 = c.ite(same, t1, t2);
        let neq = c.not(eq);
        let lt = c.and(lt0, neq);
        let nun = c.not(un);
        let r = match p {
            "oeq" => c.and(eq, nun),
            "une" => {
                let q = c.and(eq, nun);
                c.not(q)
            }
            "ueq" => c.or(eq, un),
            "one" => {
                let q = c.not(eq);
                c.and(q, nun)
            }
            "ord" => nun,
            "uno" => un,
            "olt" => c.and(lt, nun),
            "ole" => {
                let q = c.or(lt, eq);
                c.and(q, nun)
            }
            "ogt" => {
                let q = c.or(lt, eq);
                let q = c.not(q);
                c.and(q, nun)
            }
            "oge" => {
                let q = c.not(lt);
                c.and(q, nun)
            }
            "ult" => c.or(lt, un),
            "uge" => {
                let q = c.not(lt);
                c.or(q, un)
            }
            _ => return Err(Stop::Error(format!("fcmp {}", p))),
        };
        Ok(self.vn(r))
    }

    pub fn touch_stub(&mut self, n: &str) {
        self.stub_names.insert(n.to_string());
    }

    // ---------------------------------------------------------------- intrinsics
    fn intrinsic(&mut self, st: &mut State, k: Intr, name: &str, c: &Call, a: &[V]) -> R<Vec<V>> {
        let w0 = c.args.first().map(|x| x.1).unwrap_or(64);
        match k {
            Intr::Nop => Ok(c.ret.iter().map(|_| V::k(0)).collect()),
            Intr::False => Ok(vec![V::k(0)]),
            Intr::Ident => Ok(vec![a[0]]),
            Intr::Memcpy => {
                let n = self.conc(st, a[2], 64, "copy length")?;
                if n == 0 {
                    return Ok(vec![]);
                }
                let d = self.conc(st, a[0], 64, "copy address")?;
                let s = self.conc(st, a[1], 64, "copy address")?;
                let (sid, soff) = self.span(st, s, n, "copy from")?;
                let (did, doff) = self.span(st, d, n, "copy to")?;
                let n = n as usize;
                let so = st.mem.get(sid).unwrap();
                let data = so.data[soff..soff + n].to_vec();
                let sym = if so.has_sym(soff, n) { Some(so.sym.as_ref().unwrap()[soff..soff + n].to_vec()) } else { None };
                let o = st.mem.get_mut(did).unwrap();
                if o.constant {
                    return Err(Stop::Error("store to a constant".into()));
                }
                o.data[doff..doff + n].copy_from_slice(&data);
                match sym {
                    Some(s) => {
                        if o.sym.is_none() {
                            o.sym = Some(vec![0; o.data.len()]);
                        }
                        o.sym.as_mut().unwrap()[doff..doff + n].copy_from_slice(&s);
                    }
                    None => {
                        if let Some(x) = &mut o.sym {
                            x[doff..doff + n].fill(0);
                        }
                    }
                }
                Ok(vec![])
            }
            Intr::Memset => {
                let n = self.conc(st, a[2], 64, "fill length")?;
                if n == 0 {
                    return Ok(vec![]);
                }
                let d = self.conc(st, a[0], 64, "fill address")?;
                let (id, off) = self.span(st, d, n, "fill")?;
                let n = n as usize;
                let o = st.mem.get_mut(id).unwrap();
                if a[1].e == 0 {
                    o.data[off..off + n].fill(a[1].c as u8);
                    if let Some(x) = &mut o.sym {
                        x[off..off + n].fill(0);
                    }
                } else {
                    for i in 0..n {
                        o.set(off + i, 0, a[1].e);
                    }
                }
                Ok(vec![])
            }
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let mut out = vec![];
                let n = a.len() / 2;
                for i in 0..n {
                    let (x, y) = (a[i], a[i + n]);
                    let w = c.args[i].1;
                    let p = match k {
                        Intr::Umin => Pred::Ult,
                        Intr::Umax => Pred::Ugt,
                        Intr::Smin => Pred::Slt,
                        _ => Pred::Sgt,
                    };
                    let q = self.cmp(p, w, x, y);
                    out.push(self.select(q, x, y, w));
                }
                Ok(out)
            }
            Intr::Bswap => {
                if a[0].e == 0 {
                    let v = a[0].c;
                    return Ok(vec![V::k(match w0 {
                        16 => (v as u16).swap_bytes() as u64,
                        32 => (v as u32).swap_bytes() as u64,
                        64 => v.swap_bytes(),
                        _ => return Err(Stop::Error("bswap".into())),
                    })]);
                }
                let e = self.x.bswap(a[0].e);
                Ok(vec![self.vn(e)])
            }
            Intr::BitRev => {
                let e = self.ve(a[0], w0);
                let mut r = self.x.extract(e, 0, 1);
                for i in 1..w0 {
                    let b = self.x.extract(e, i, 1);
                    r = self.x.concat(r, b);
                }
                Ok(vec![self.vn(r)])
            }
            Intr::Fshl | Intr::Fshr => {
                let sh = self.conc(st, a[2], w0, "shift amount")? % w0 as u64;
                let (x, y) = (self.ve(a[0], w0), self.ve(a[1], w0));
                let cat = self.x.concat(x, y);
                let lo = if k == Intr::Fshl { w0 as u64 - sh } else { sh };
                let e = if lo == w0 as u64 { x } else { self.x.extract(cat, lo as u8, w0) };
                Ok(vec![self.vn(e)])
            }
            Intr::Ctpop => {
                if a[0].e == 0 {
                    return Ok(vec![V::k(a[0].c.count_ones() as u64)]);
                }
                let mut r = self.x.konst(w0, 0);
                for i in 0..w0 {
                    let b = self.x.extract(a[0].e, i, 1);
                    let b = self.x.zext(b, w0);
                    r = self.x.add(r, b);
                }
                Ok(vec![self.vn(r)])
            }
            Intr::Ctlz | Intr::Cttz => {
                if a[0].e == 0 {
                    let v = a[0].c;
                    let r = if v == 0 {
                        w0 as u32
                    } else if k == Intr::Ctlz {
                        v.leading_zeros() - (64 - w0 as u32)
                    } else {
                        v.trailing_zeros()
                    };
                    return Ok(vec![V::k(r as u64)]);
                }
                let mut r = self.x.konst(w0, w0 as u128);
                for j in 0..w0 {
                    // the last applied condition has priority
                    let (bit, val) = if k == Intr::Ctlz { (j, w0 - 1 - j) } else { (w0 - 1 - j, w0 - 1 - j) };
                    let b = self.x.extract(a[0].e, bit, 1);
                    let kv = self.x.konst(w0, val as u128);
                    r = self.x.ite(b, kv, r);
                }
                Ok(vec![self.vn(r)])
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let w = w0;
                let (x, y) = (a[0], a[1]);
                let op = match k {
                    Intr::UAddO | Intr::SAddO => BinOp::Add,
                    Intr::USubO | Intr::SSubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.bin(st, op, w, x, y)?;
                let o = match k {
                    Intr::UAddO => self.cmp(Pred::Ult, w, r, x),
                    Intr::USubO => self.cmp(Pred::Ult, w, x, y),
                    Intr::UMulO => {
                        if x.e == 0 && y.e == 0 {
                            V::k(((x.c as u128 * y.c as u128) >> w != 0) as u64)
                        } else {
                            let (ex, ey) = (self.ve(x, w), self.ve(y, w));
                            let (hx, hy) = (self.x.info[ex as usize].hi, self.x.info[ey as usize].hi);
                            if (hx as u128 * hy as u128) <= mask(w) {
                                V::k(0)
                            } else if x.e == 0 || y.e == 0 {
                                let (k, e) = if x.e == 0 { (x.c, ey) } else { (y.c, ex) };
                                if k == 0 {
                                    V::k(0)
                                } else {
                                    let lim = self.x.konst(w, mask(w) / k as u128);
                                    let q = self.x.ult(lim, e);
                                    self.vn(q)
                                }
                            } else {
                                let (zx, zy) = (self.x.zext(ex, 2 * w), self.x.zext(ey, 2 * w));
                                let m = self.x.mul(zx, zy);
                                let h = self.x.extract(m, w, w);
                                let z = self.x.konst(w, 0);
                                let q = self.x.eq(h, z);
                                let q = self.x.not(q);
                                self.vn(q)
                            }
                        }
                    }
                    _ => {
                        // signed: compare with the result in double width
                        let (ex, ey) = (self.ve(x, w), self.ve(y, w));
                        let (sx, sy) = (self.x.sext(ex, 2 * w), self.x.sext(ey, 2 * w));
                        let wide = match op {
                            BinOp::Add => self.x.add(sx, sy),
                            BinOp::Sub => self.x.sub(sx, sy),
                            _ => self.x.mul(sx, sy),
                        };
                        let er = self.ve(r, w);
                        let sr = self.x.sext(er, 2 * w);
                        let q = self.x.eq(wide, sr);
                        let q = self.x.not(q);
                        self.vn(q)
                    }
                };
                Ok(vec![r, o])
            }
            Intr::UAddSat => {
                let r = self.bin(st, BinOp::Add, w0, a[0], a[1])?;
                let o = self.cmp(Pred::Ult, w0, r, a[0]);
                Ok(vec![self.select(o, V::k(mask(w0) as u64), r, w0)])
            }
            Intr::USubSat => {
                let r = self.bin(st, BinOp::Sub, w0, a[0], a[1])?;
                let o = self.cmp(Pred::Ult, w0, a[0], a[1]);
                Ok(vec![self.select(o, V::k(0), r, w0)])
            }
            Intr::Ucmp | Intr::Scmp => {
                let rw = c.ret[0];
                let lt = self.cmp(if k == Intr::Ucmp { Pred::Ult } else { Pred::Slt }, w0, a[0], a[1]);
                let gt = self.cmp(if k == Intr::Ucmp { Pred::Ugt } else { Pred::Sgt }, w0, a[0], a[1]);
                let t = self.select(gt, V::k(1), V::k(0), rw);
                Ok(vec![self.select(lt, V::k(mask(rw) as u64), t, rw)])
            }
            Intr::Abs => {
                let n = self.bin(st, BinOp::Sub, w0, V::k(0), a[0])?;
                let s = self.cmp(Pred::Slt, w0, a[0], V::k(0));
                Ok(vec![self.select(s, n, a[0], w0)])
            }
            Intr::LoadRel => {
                let base = self.conc(st, a[0], 64, "relative table")?;
                let w = c.args[1].1;
                let o = self.conc(st, a[1], w, "relative table index")?;
                let off = sext128(o as u128, w) as i64 as u64;
                let v = self.load(st, base.wrapping_add(off), 32)?;
                let v = self.conc(st, v, 32, "relative table value")?;
                Ok(vec![V::k(base.wrapping_add(v as u32 as i32 as i64 as u64))])
            }
            Intr::Trap | Intr::Abort => Err(Stop::Violation { kind: "abort".into(), label: "abort".into(), detail: name.into() }),
            Intr::AllocError => Err(Stop::Violation { kind: "abort".into(), label: "alloc-error".into(), detail: name.into() }),
            Intr::PanicFmt => {
                // (fmt::Arguments, &Location): the location is the last argument
                let l = a[a.len() - 1];
                let loc = self.location(st, l);
                Err(Stop::Violation { kind: "panic".into(), label: format!("panic@{}", loc), detail: short(name) })
            }
            Intr::PanicLoc(i) => {
                let l = a[a.len() - 1 - i as usize];
                let loc = self.location(st, l);
                Err(Stop::Violation { kind: "panic".into(), label: format!("panic@{}", loc), detail: short(name) })
            }
            Intr::Unicode(t) => {
                if c.ret.is_empty() {
                    return Ok(vec![]);
                }
                if a[0].e == 0 {
                    return Ok(vec![V::k(unicode(t, a[0].c as u32) as u64)]);
                }
                let e = a[0].e;
                let (lo, hi) = (self.x.info[e as usize].lo, self.x.info[e as usize].hi);
                let mut r = self.x.fls();
                for (l, h) in unicode_ranges(t) {
                    let (l, h) = ((*l as u64).max(lo), (*h as u64).min(hi));
                    if l > h {
                        continue;
                    }
                    let kl = self.x.konst(32, l as u128);
                    let kh = self.x.konst(32, h as u128);
                    let (p, q) = (self.x.ule(kl, e), self.x.ule(e, kh));
                    let p = self.x.and(p, q);
                    r = self.x.or(r, p);
                }
                Ok(vec![self.vn(r)])
            }
            Intr::Unsupported => Err(Stop::Error(format!("call of external function {}", name))),
            _ => crate::env::call(self, st, k, name, c, a),
        }
    }

    pub fn select(&mut self, c: V, a: V, b: V, w: u8) -> V {
        if c.e == 0 {
            return if c.c & 1 == 1 { a } else { b };
        }
        let (x, y) = (self.ve(a, w), self.ve(b, w));
        let e = self.x.ite(c.e, x, y);
        self.vn(e)
    }

    fn location(&mut self, st: &mut State, l: V) -> String {
        if l.e != 0 {
            return "?".into();
        }
        let mut go = || -> R<String> {
            let p = self.load(st, l.c, 64)?.c;
            let n = self.load(st, l.c + 8, 64)?.c;
            let line = self.load(st, l.c + 16, 32)?.c;
            let mut f = self.str_at(st, p, n.min(400))?;
            while f.ends_with('\0') {
                f.pop();
            }
            Ok(format!("{}:{}", trim_path(&f), line))
        };
        match go() {
            Ok(s) => s,
            Err(_) => "?".into(),
        }
    }

    pub fn errno(&mut self, st: &mut State, e: u32) {
        self.set_errno(st, e)
    }
}

pub fn trim_path(f: &str) -> String {
    for k in ["/library/", "/repo/", "/verif/"] {
        if let Some(i) = f.find(k) {
            return f[i + 1..].to_string();
        }
    }
    f.to_string()
}

pub fn bin_conc(op: BinOp, w: u8, a: u64, b: u64) -> Option<u64> {
    if w > 64 {
        return None;
    }
    let m = mask(w) as u64;
    let s = |v: u64| sext128(v as u128, w) as i64;
    Some(
        match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => a.checked_div(b)?,
            BinOp::URem => a.checked_rem(b)?,
            BinOp::SDiv => {
                if b == 0 {
                    return None;
                }
                s(a).wrapping_div(s(b)) as u64
            }
            BinOp::SRem => {
                if b == 0 {
                    return None;
                }
                s(a).wrapping_rem(s(b)) as u64
            }
            BinOp::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => (s(a) >> b.min(63)) as u64,
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
        } & m,
    )
}
pub fn cmp_conc(p: Pred, w: u8, a: u64, b: u64) -> bool {
    let s = |v: u64| sext128(v as u128, w) as i64;
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => s(a) < s(b),
        Pred::Sle => s(a) <= s(b),
        Pred::Sgt => s(a) > s(b),
        Pred::Sge => s(a) >= s(b),
    }
}

/// A readable form of a v0-mangled name: the identifiers it contains.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        // disambiguators: s<base62>_
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() {
                let w = &n[j..j + len];
                if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(w.to_string());
                    i = j + len;
                    continue;
                }
            }
            i = j;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

fn unicode(t: u8, c: u32) -> bool {
    match char::from_u32(c) {
        None => false,
        Some(c) => match t {
            0 => c.is_alphabetic(),
            1 => c.is_numeric(),
            2 => c.is_lowercase(),
            3 => c.is_uppercase(),
            _ => c.is_whitespace(),
        },
    }
}
fn unicode_ranges(t: u8) -> &'static [(u32, u32)] {
    use std::sync::OnceLock;
    static T: [OnceLock<Vec<(u32, u32)>>; 5] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    T[t as usize].get_or_init(|| {
        let mut o: Vec<(u32, u32)> = vec![];
        for c in 0..0x110000 {
            if unicode(t, c) {
                match o.last_mut() {
                    Some(l) if l.1 + 1 == c => l.1 = c,
                    _ => o.push((c, c)),
                }
            }
        }
        o
    })
}

/// Functions of the Rust runtime that end a path, or have an exact summary.
fn intercept(n: &str) -> Option<Intr> {
    if !n.starts_with("_R") {
        return match n {
            "rust_eh_personality" => Some(Intr::Unsupported),
            _ => None,
        };
    }
    let s = short(n);
    let last = s.rsplit("::").next().unwrap_or("");
    if s.starts_with("core::panicking::") || s.contains("::panicking::panic") {
        return match last {
            "panic_fmt" => Some(Intr::PanicFmt),
            "panic_nounwind_fmt" => Some(Intr::PanicLoc(0)),
            "panic_nounwind_nobacktrace" | "panic_cannot_unwind" | "panic_in_cleanup" | "panic_misaligned_pointer_dereference" | "panic_null_pointer_dereference" | "panic_invalid_enum_construction" => Some(Intr::PanicLoc(0)),
            _ => None,
        };
    }
    if last.starts_with("lookup") && s.contains("unicode::unicode_data::") {
        let t = s.rsplit("::").nth(1).unwrap_or("");
        return match t {
            "alphabetic" => Some(Intr::Unicode(0)),
            "n" => Some(Intr::Unicode(1)),
            "lowercase" => Some(Intr::Unicode(2)),
            "uppercase" => Some(Intr::Unicode(3)),
            "white_space" => Some(Intr::Unicode(4)),
            _ => None,
        };
    }
    if last == "handle_alloc_error" && s.starts_with("alloc::") {
        return Some(Intr::AllocError);
    }
    if s == "std::process::abort" || last == "abort_internal" {
        return Some(Intr::Abort);
    }
    None
}

fn external(n: &str) -> Option<Intr> {
    use Intr::*;
    let base = n.strip_prefix("llvm.");
    if let Some(b) = base {
        let p: Vec<&str> = b.split('.').collect();
        return Some(match p[0] {
            "memcpy" | "memmove" => Memcpy,
            "memset" => Memset,
            "umin" => Umin,
            "umax" => Umax,
            "smin" => Smin,
            "smax" => Smax,
            "bswap" => Bswap,
            "bitreverse" => BitRev,
            "fshl" => Fshl,
            "fshr" => Fshr,
            "ctpop" => Ctpop,
            "ctlz" => Ctlz,
            "cttz" => Cttz,
            "uadd" => {
                if p[1] == "sat" {
                    UAddSat
                } else {
                    UAddO
                }
            }
            "usub" => {
                if p[1] == "sat" {
                    USubSat
                } else {
                    USubO
                }
            }
            "umul" => UMulO,
            "sadd" if p[1] != "sat" => SAddO,
            "ssub" if p[1] != "sat" => SSubO,
            "smul" if p[1] != "sat" => SMulO,
            "ucmp" => Ucmp,
            "scmp" => Scmp,
            "abs" => Abs,
            "load" => LoadRel,
            "is" => False,
            "threadlocal" | "expect" | "launder" | "strip" | "ssa" => Ident,
            "trap" | "ubsantrap" => Trap,
            "assume" | "lifetime" | "experimental" | "prefetch" | "x86" | "dbg" | "donothing" => Nop,
            _ => return None,
        });
    }
    Some(match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "__errno_location" => ErrnoLoc,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "memcpy" | "memmove" => Memcpy,
        "strlen" => Strlen,
        "open64" | "open" => Open,
        "read" => Read,
        "pread64" | "pread" => Pread,
        "pwrite64" | "pwrite" => Pwrite,
        "readv" => Readv,
        "writev" => Writev,
        "write" => Write,
        "lseek64" | "lseek" => Lseek,
        "close" => Close,
        "fcntl" | "fcntl64" => Fcntl,
        "fstat64" | "fstat" => Fstat,
        "stat64" | "stat" | "lstat64" => Stat,
        "statx" => Statx,
        "fsync" | "fdatasync" => Fsync,
        "ftruncate64" | "ftruncate" => Ftruncate,
        "unlink" => Unlink,
        "getenv" => Getenv,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "gettid" | "getpid" => Gettid,
        "abort" | "_exit" | "exit" => Abort,
        "__cxa_thread_atexit_impl" => Nop,
        "sym_bytes" => SymBytes,
        "sym_check" => SymCheck,
        "sym_assume" => SymAssume,
        "sym_choice" => SymChoice,
        "sym_reach" => SymReach,
        "sym_expect" => SymExpect,
        "sym_emit" => SymEmit,
        "vfs_put" => VfsPut,
        "vfs_get" => VfsGet,
        "vfs_size" => VfsSize,
        "vfs_has" => VfsHas,
        "vfs_del" => VfsDel,
        "sym_fault" => SymFault,
        "sym_limit" => SymLimit,
        "sym_eq_bytes" => SymEqBytes,
        "sym_conc" => SymConc,
        "sym_max_alloc" => MaxAlloc,
        "sym_native" => SymNative,
        _ => return None,
    })
}
