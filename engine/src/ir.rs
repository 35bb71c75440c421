//! Reader for textual LLVM IR and its compilation to a compact register code.
//!
//! Function bodies are parsed lazily, the first time they are called; the set of
//! functions compiled during a run is reported as the "functions encoded".

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Fn(Box<Ty>),
    Meta,
}

pub fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(n) => {
            let b = ((*n as u64) + 7) / 8;
            b.next_power_of_two().min(16)
        }
        Ty::Ptr | Ty::Double => 8,
        Ty::Float => 4,
        Ty::Vec(..) => size_of(t).next_power_of_two().max(1),
        Ty::Arr(_, e) => align_of(e),
        Ty::Struct(fs, packed) => {
            if *packed {
                1
            } else {
                fs.iter().map(align_of).max().unwrap_or(1)
            }
        }
        _ => 1,
    }
}
pub fn bits_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(n) => *n as u64,
        Ty::Ptr | Ty::Double => 64,
        Ty::Float => 32,
        Ty::Vec(n, e) => *n as u64 * bits_of(e),
        _ => size_of(t) * 8,
    }
}
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(n) => {
            let b = ((*n as u64) + 7) / 8;
            let a = align_of(t);
            (b + a - 1) / a * a
        }
        Ty::Ptr | Ty::Double => 8,
        Ty::Float => 4,
        Ty::Vec(n, e) => (*n as u64 * bits_of(e) + 7) / 8,
        Ty::Arr(n, e) => n * size_of(e),
        Ty::Struct(fs, packed) => {
            let mut o = 0;
            for f in fs {
                if !*packed {
                    let a = align_of(f);
                    o = (o + a - 1) / a * a;
                }
                o += size_of(f);
            }
            if !*packed {
                let a = align_of(t);
                o = (o + a - 1) / a * a;
            }
            o
        }
        _ => 0,
    }
}
pub fn field_off(fs: &[Ty], packed: bool, i: usize) -> u64 {
    let mut o = 0;
    for (j, f) in fs.iter().enumerate() {
        if !packed {
            let a = align_of(f);
            o = (o + a - 1) / a * a;
        }
        if j == i {
            return o;
        }
        o += size_of(f);
    }
    o
}
/// (byte offset, bits) of every scalar in memory order
pub fn leaves(t: &Ty, base: u64, out: &mut Vec<(u32, u8)>) {
    match t {
        Ty::Void | Ty::Meta | Ty::Fn(_) => {}
        Ty::Int(n) => out.push((base as u32, *n as u8)),
        Ty::Ptr | Ty::Double => out.push((base as u32, 64)),
        Ty::Float => out.push((base as u32, 32)),
        Ty::Vec(n, e) => {
            let s = (bits_of(e) + 7) / 8;
            for i in 0..*n {
                leaves(e, base + i as u64 * s, out)
            }
        }
        Ty::Arr(n, e) => {
            let s = size_of(e);
            for i in 0..*n {
                leaves(e, base + i * s, out)
            }
        }
        Ty::Struct(fs, p) => {
            for (i, f) in fs.iter().enumerate() {
                leaves(f, base + field_off(fs, *p, i), out)
            }
        }
    }
}
pub fn nleaves(t: &Ty) -> u32 {
    match t {
        Ty::Void | Ty::Meta | Ty::Fn(_) => 0,
        Ty::Vec(n, e) => n * nleaves(e),
        Ty::Arr(n, e) => *n as u32 * nleaves(e),
        Ty::Struct(fs, _) => fs.iter().map(nleaves).sum(),
        _ => 1,
    }
}
/// index of the first leaf and type of the sub-aggregate
fn sub_leaf(t: &Ty, path: &[u64]) -> (u32, Ty) {
    if path.is_empty() {
        return (0, t.clone());
    }
    let i = path[0];
    match t {
        Ty::Struct(fs, _) => {
            let before: u32 = fs[..i as usize].iter().map(nleaves).sum();
            let (o, r) = sub_leaf(&fs[i as usize], &path[1..]);
            (before + o, r)
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => {
            let (o, r) = sub_leaf(e, &path[1..]);
            (i as u32 * nleaves(e) + o, r)
        }
        _ => panic!("extractvalue path"),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opd {
    pub s: u32,
    pub c: u64,
}
pub const KONST: u32 = u32::MAX;
pub const BIG: u32 = u32::MAX - 1;
impl Opd {
    pub fn k(c: u64) -> Opd {
        Opd { s: KONST, c }
    }
    pub fn slot(s: u32) -> Opd {
        Opd { s, c: 0 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32, // code index
    pub copies: Box<[(u32, Opd)]>,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Name(String),
    Func(usize),
    Ptr(Opd),
    Asm(String),
}

#[derive(Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Vec<(Opd, u8)>,
    pub d: u32,
    pub ret: Vec<u8>,
    pub normal: Option<Edge>,
    pub argtys: Vec<Ty>,
    pub target: std::cell::Cell<u32>, // resolved target + 1 (filled by the executor)
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u8, d: u32, a: Opd, b: Opd },
    Cmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    FCmp { p: String, w: u8, d: u32, a: Opd, b: Opd },
    FNeg { w: u8, d: u32, a: Opd },
    Sel { d: u32, c: Opd, a: Opd, b: Opd, w: u8 },
    ZExt { d: u32, a: Opd, f: u8, t: u8 },
    SExt { d: u32, a: Opd, f: u8, t: u8 },
    Trunc { d: u32, a: Opd, f: u8, t: u8 },
    Copy { d: u32, a: Opd },
    Pack { d: u32, parts: Box<[Opd]>, w: u8 },
    Unpack { d: u32, n: u32, a: Opd, w: u8 },
    Load { d: u32, p: Opd, lv: Box<[(u32, u8)]> },
    Store { p: Opd, lv: Box<[(u32, u8, Opd)]> },
    Gep { d: u32, base: Opd, off: i64, idx: Box<[(Opd, i64, u8)]> },
    Call(Box<Call>),
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u8, cases: Box<[(u64, u32)]>, edges: Box<[Edge]> }, // edges[0] = default
    Ret(Box<[Opd]>),
    Unreachable,
    Alloca { d: u32, size: u64 },
    Rmw { op: String, w: u8, d: u32, p: Opd, a: Opd },
    CmpXchg { w: u8, d: u32, p: Opd, cmp: Opd, new: Opd },
}

pub struct Func {
    pub name: String,
    pub nslots: u32,
    pub nargs: u32,
    pub code: Vec<I>,
    pub bigs: Vec<(u8, u128)>,
}

// ------------------------------------------------------------------ lexer
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),     // word
    L(&'a str),     // %local
    G(&'a str),     // @global
    N(&'a str),     // number
    S(&'a str),     // "string"
    CS(&'a str),    // c"string"
    Md(&'a str),    // !...
    At(&'a str),    // #0
    P(u8),          // punctuation
    Lab(&'a str),   // label:
    Eof,
}

pub struct Lex<'a> {
    pub t: Vec<T<'a>>,
    pub i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(src: &str) -> Vec<T<'_>> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let mut bol = true;
    while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            bol = true;
            i += 1;
            continue;
        }
        if c == b' ' || c == b'\t' || c == b'\r' {
            i += 1;
            continue;
        }
        if c == b';' || (bol && c == b'#' && b[i..].starts_with(b"#dbg")) {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        let was_bol = bol;
        bol = false;
        match c {
            b'%' | b'@' => {
                let s;
                if b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    s = &src[st..j];
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    s = &src[st..j];
                    i = j;
                }
                out.push(if c == b'%' { T::L(s) } else { T::G(s) });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                i = j + 1;
                if was_bol && i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(T::Lab(&src[st..j]));
                } else {
                    out.push(T::S(&src[st..j]));
                }
            }
            b'!' => {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(T::Md(&src[st..j]));
                i = j;
            }
            b'#' => {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(T::At(&src[st..j]));
                i = j;
            }
            _ if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::CS(&src[st..j]));
                i = j + 1;
            }
            _ if is_id(c) => {
                let st = i;
                let mut j = st;
                while j < b.len() && (is_id(b[j]) || (b[j] == b'+' && (b[j - 1] == b'e') && !was_bol)) {
                    j += 1;
                }
                let s = &src[st..j];
                if was_bol && j < b.len() && b[j] == b':' {
                    out.push(T::Lab(s));
                    i = j + 1;
                    continue;
                }
                i = j;
                if c.is_ascii_digit() || (c == b'-' && s.len() > 1 && b[st + 1].is_ascii_digit()) {
                    out.push(T::N(s));
                } else {
                    out.push(T::W(s));
                }
            }
            _ => {
                out.push(T::P(c));
                i += 1;
            }
        }
    }
    out.push(T::Eof);
    out
}

fn cstring(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

// ------------------------------------------------------------------ module
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub struct FuncDecl {
    pub name: String,
    pub addr: u64,
    /// byte range of the definition in the source; None for declarations
    pub body: Option<(usize, usize)>,
}

pub struct Module {
    pub src: String,
    pub globals: Vec<Global>,
    pub funcs: Vec<FuncDecl>,
    pub func_ix: HashMap<String, usize>,
    pub glob_ix: HashMap<String, usize>,
    pub addr_of: HashMap<String, u64>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 0x0010_0000;

fn name_after(s: &str, at: usize) -> (String, usize) {
    // s[at] == '@'
    let b = s.as_bytes();
    if b[at + 1] == b'"' {
        let st = at + 2;
        let e = st + s[st..].find('"').unwrap();
        (s[st..e].to_string(), e + 1)
    } else {
        let st = at + 1;
        let mut j = st;
        while j < b.len() && is_id(b[j]) {
            j += 1;
        }
        (s[st..j].to_string(), j)
    }
}

impl Module {
    pub fn load(src: String) -> Module {
        let mut m = Module {
            src: String::new(),
            globals: vec![],
            funcs: vec![],
            func_ix: HashMap::new(),
            glob_ix: HashMap::new(),
            addr_of: HashMap::new(),
        };
        // pass 1: find top-level entities
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut pos = 0usize;
        let bytes = src.as_bytes();
        while pos < bytes.len() {
            let eol = src[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &src[pos..eol];
            if line.starts_with('@') {
                glines.push((pos, eol));
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let def = line.starts_with("define ");
                let at = line.find('@').expect("function name");
                let (name, _) = name_after(line, at);
                let ix = m.funcs.len();
                let addr = FUNC_BASE + 16 * (ix as u64 + 1);
                let mut body = None;
                let mut next = eol;
                if def {
                    let e = src[eol..].find("\n}").map(|x| eol + x + 2).expect("end of function");
                    body = Some((pos, e));
                    next = e;
                }
                m.func_ix.insert(name.clone(), ix);
                m.addr_of.insert(name.clone(), addr);
                m.funcs.push(FuncDecl { name, addr, body });
                pos = next + 1;
                continue;
            }
            pos = eol + 1;
        }
        // pass 2: layout of globals
        struct Pend<'a> {
            toks: Vec<T<'a>>,
            i: usize,
            ty: Ty,
        }
        let mut pend: Vec<Pend> = vec![];
        let mut addr = GLOB_BASE;
        for (a, e) in &glines {
            let toks = lex(&src[*a..*e]);
            let name = match toks[0] {
                T::G(n) => n.to_string(),
                _ => panic!("global"),
            };
            let mut i = 2;
            let mut external = false;
            let mut constant = false;
            loop {
                match toks[i] {
                    T::W("external") | T::W("extern_weak") => external = true,
                    T::W("thread_local") => {
                        if toks[i + 1] == T::P(b'(') {
                            i += 3;
                        }
                    }
                    T::W("global") => break,
                    T::W("constant") => {
                        constant = true;
                        break;
                    }
                    T::W("alias") => break,
                    T::Eof => panic!("global {}", name),
                    _ => {}
                }
                i += 1;
            }
            if toks[i] == T::W("alias") {
                // @a = alias TYPE, ptr @b
                if let Some(T::G(t)) = toks[i..].iter().find(|t| matches!(t, T::G(_))) {
                    if let Some(x) = m.addr_of.get(*t).copied() {
                        m.addr_of.insert(name.clone(), x);
                        let ix = m.func_ix[*t];
                        m.func_ix.insert(name, ix);
                    }
                }
                continue;
            }
            let mut lx = Lex { t: toks, i: i + 1 };
            let ty = lx.ty();
            let size = size_of(&ty);
            // alignment
            let mut al = align_of(&ty).max(1);
            for k in lx.i..lx.t.len().saturating_sub(1) {
                if lx.t[k] == T::W("align") {
                    if let T::N(n) = lx.t[k + 1] {
                        al = al.max(n.parse().unwrap());
                    }
                }
            }
            addr = (addr + al - 1) / al * al;
            let weak = src[*a..*e].contains(" extern_weak ");
            m.glob_ix.insert(name.clone(), m.globals.len());
            m.addr_of.insert(name.clone(), if weak { 0 } else { addr });
            m.globals.push(Global { name, addr, size, init: vec![0; size as usize], constant, external });
            addr += size.max(1) + 16;
            pend.push(Pend { i: lx.i, toks: lx.t, ty });
        }
        assert!(addr < FUNC_BASE);
        // pass 3: initialisers
        let mut inits = vec![];
        for (gi, p) in pend.into_iter().enumerate() {
            if m.globals[gi].external {
                inits.push(None);
                continue;
            }
            let mut lx = Lex { t: p.toks, i: p.i };
            let mut buf = vec![0u8; m.globals[gi].size as usize];
            let vals = lx.konst(&p.ty, &m);
            let mut lv = vec![];
            leaves(&p.ty, 0, &mut lv);
            assert_eq!(lv.len(), vals.len(), "initialiser of {}", m.globals[gi].name);
            for ((off, bits), v) in lv.iter().zip(vals) {
                let n = (*bits as usize + 7) / 8;
                let b = v.to_le_bytes();
                buf[*off as usize..*off as usize + n].copy_from_slice(&b[..n]);
            }
            inits.push(Some(buf));
        }
        for (gi, b) in inits.into_iter().enumerate() {
            if let Some(b) = b {
                m.globals[gi].init = b;
            }
        }
        drop(glines);
        m.src = src;
        m
    }

    pub fn compile(&self, ix: usize) -> Func {
        let fd = &self.funcs[ix];
        let (a, e) = fd.body.expect("body");
        let toks = lex(&self.src[a..e]);
        let mut c = Comp {
            m: self,
            lx: Lex { t: toks, i: 0 },
            locals: HashMap::new(),
            nslots: 0,
            code: vec![],
            bigs: vec![],
            cur: String::new(),
            phis: HashMap::new(),
            starts: HashMap::new(),
        };
        c.func(fd.name.clone())
    }
}

const BIN_FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'a> Lex<'a> {
    pub fn peek(&self) -> T<'a> {
        self.t[self.i]
    }
    pub fn next(&mut self) -> T<'a> {
        let t = self.t[self.i];
        self.i += 1;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} got {:?} near {:?}", c as char, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())]);
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.peek() == T::W(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') | T::P(b'[') | T::P(b'{') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => panic!("eof"),
                _ => {}
            }
        }
    }
    fn skip_flags(&mut self) {
        while let T::W(w) = self.peek() {
            if BIN_FLAGS.contains(&w) {
                self.i += 1;
                if self.peek() == T::P(b'(') && w == "inrange" {
                    self.skip_balanced();
                }
            } else if w == "inrange" {
                self.i += 1;
                self.skip_balanced();
            } else {
                break;
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::W(w) if !is_type_word(w) => {
                    if matches!(w, "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "asm" | "bitcast" | "trunc" | "sub" | "add" | "none" | "to" | "unwind") {
                        return;
                    }
                    self.i += 1;
                    if w == "align" {
                        if let T::N(_) = self.peek() {
                            self.i += 1;
                        } else if self.peek() == T::P(b'(') {
                            self.skip_balanced();
                        }
                    } else if self.peek() == T::P(b'(') {
                        self.skip_balanced();
                    }
                }
                T::S(_) => {
                    // "key"="value"
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                T::At(_) => self.i += 1,
                _ => return,
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let mut t = match self.next() {
            T::W("void") => Ty::Void,
            T::W("ptr") => {
                if self.eat_w("addrspace") {
                    self.skip_balanced();
                }
                Ty::Ptr
            }
            T::W("float") => Ty::Float,
            T::W("double") => Ty::Double,
            T::W("metadata") => Ty::Meta,
            T::W("label") => Ty::Meta,
            T::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            T::P(b'{') => Ty::Struct(self.ty_list(b'}'), false),
            T::P(b'[') => {
                let n = self.num();
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.expect(b']');
                Ty::Arr(n as u64, Box::new(e))
            }
            T::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num();
                    assert!(self.eat_w("x"));
                    let e = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Box::new(e))
                }
            }
            x => panic!("type expected, got {:?} near {:?}", x, &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())]),
        };
        // function type
        if self.peek() == T::P(b'(') && matches!(self.t.get(self.i + 1), Some(T::W(w)) if is_type_word(w)) | matches!(self.t.get(self.i + 1), Some(T::P(b')')) | Some(T::P(b'.'))) {
            // only in "call RET (ARGS, ...) @f(...)"
            self.skip_balanced();
            t = Ty::Fn(Box::new(t));
        }
        t
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            T::N(s) => s.parse().unwrap(),
            x => panic!("number expected, got {:?}", x),
        }
    }
    fn float_bits(s: &str, t: &Ty) -> u128 {
        if let Some(h) = s.strip_prefix("f0x") {
            return u128::from_str_radix(h, 16).unwrap();
        }
        let d: u64 = if let Some(h) = s.strip_prefix("0x") {
            u64::from_str_radix(h, 16).unwrap()
        } else {
            s.parse::<f64>().unwrap().to_bits()
        };
        match t {
            Ty::Float => (f64::from_bits(d) as f32).to_bits() as u128,
            _ => d as u128,
        }
    }
    fn float_special(&mut self, neg: bool, w: &str, t: &Ty) -> u128 {
        let (exp, quiet, sign): (u128, u128, u128) = match t {
            Ty::Float => (0x7f80_0000, 0x0040_0000, 0x8000_0000),
            _ => (0x7ff0_0000_0000_0000, 0x0008_0000_0000_0000, 0x8000_0000_0000_0000),
        };
        let payload = if self.eat(b'(') {
            let v = match self.next() {
                T::N(s) | T::W(s) => u128::from_str_radix(s.trim_start_matches("0x"), 16).unwrap(),
                x => panic!("NaN payload expected, got {:?}", x),
            };
            self.expect(b')');
            v
        } else {
            0
        };
        let mantissa = match w {
            "inf" => 0,
            "qnan" | "nan" => quiet | payload,
            "snan" => payload,
            _ => panic!("float constant {}", w),
        };
        exp | mantissa | if neg { sign } else { 0 }
    }
    /// a constant of type `t`, flattened
    pub fn konst(&mut self, t: &Ty, m: &Module) -> Vec<u128> {
        let n = nleaves(t) as usize;
        match self.next() {
            T::N(s) => match t {
                Ty::Float | Ty::Double => vec![Self::float_bits(s, t)],
                Ty::Int(w) => {
                    let v: i128 = s.parse().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128);
                    vec![v as u128 & crate::expr::mask(*w as u8)]
                }
                _ => panic!("number of type {:?}", t),
            },
            // +inf, -inf, +qnan, -qnan, +nan(0x1), +snan(0x1), +1.5
            T::P(b'+') if matches!(t, Ty::Float | Ty::Double) => match self.next() {
                T::N(s) => vec![Self::float_bits(s, t)],
                T::W(w) => vec![self.float_special(false, w, t)],
                x => panic!("float constant expected, got {:?}", x),
            },
            T::W(w) if w.starts_with("f0x") => vec![Self::float_bits(w, t)],
            T::W(w) if w.starts_with('-') && matches!(t, Ty::Float | Ty::Double) => vec![self.float_special(true, &w[1..], t)],
            T::W("true") => vec![1],
            T::W("false") | T::W("null") => vec![0],
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") => vec![0; n],
            T::G(g) => vec![*m.addr_of.get(g).unwrap_or_else(|| panic!("global {}", g)) as u128],
            T::CS(s) => cstring(s).into_iter().map(|b| b as u128).collect(),
            T::W("splat") => {
                self.expect(b'(');
                let et = self.ty();
                let v = self.konst(&et, m);
                self.expect(b')');
                v.iter().cycle().take(n).copied().collect()
            }
            T::P(b'{') => {
                let r = self.konst_list(b'}', m);
                r
            }
            T::P(b'[') => self.konst_list(b']', m),
            T::P(b'<') => {
                if self.eat(b'{') {
                    let r = self.konst_list(b'}', m);
                    self.expect(b'>');
                    r
                } else {
                    self.konst_list(b'>', m)
                }
            }
            T::W("getelementptr") => {
                self.skip_flags();
                self.expect(b'(');
                let st = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.konst(&pt, m)[0];
                let mut idx = vec![];
                while self.eat(b',') {
                    self.skip_flags();
                    let it = self.ty();
                    let v = self.konst(&it, m)[0];
                    idx.push(crate::expr::sext128(v, bits_of(&it) as u8) as i64);
                }
                self.expect(b')');
                let mut off = idx[0] * size_of(&st) as i64;
                let mut cur = st;
                for i in &idx[1..] {
                    match cur {
                        Ty::Struct(fs, p) => {
                            off += field_off(&fs, p, *i as usize) as i64;
                            cur = fs[*i as usize].clone();
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            off += *i * size_of(&e) as i64;
                            cur = *e;
                        }
                        _ => panic!("gep"),
                    }
                }
                vec![(base as u64).wrapping_add(off as u64) as u128]
            }
            T::W("ptrtoint") | T::W("inttoptr") | T::W("bitcast") | T::W("trunc") | T::W("addrspacecast") => {
                self.expect(b'(');
                let ft = self.ty();
                let v = self.konst(&ft, m);
                assert!(self.eat_w("to"));
                let tt = self.ty();
                self.expect(b')');
                vec![v[0] & crate::expr::mask(bits_of(&tt) as u8)]
            }
            T::W(op @ ("sub" | "add" | "xor")) => {
                self.skip_flags();
                self.expect(b'(');
                let at = self.ty();
                let a = self.konst(&at, m)[0];
                self.expect(b',');
                let bt = self.ty();
                let b = self.konst(&bt, m)[0];
                self.expect(b')');
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                };
                vec![r & crate::expr::mask(bits_of(&at) as u8)]
            }
            x => panic!("constant expected, got {:?} near {:?}", x, &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn konst_list(&mut self, end: u8, m: &Module) -> Vec<u128> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.extend(self.konst(&t, m));
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
}

// ------------------------------------------------------------------ function compiler
struct Comp<'a> {
    m: &'a Module,
    lx: Lex<'a>,
    locals: HashMap<String, (u32, u32)>, // first slot, count
    nslots: u32,
    code: Vec<I>,
    bigs: Vec<(u8, u128)>,
    cur: String,
    phis: HashMap<String, Vec<(u32, Vec<(String, Vec<Opd>)>)>>, // block -> [(dst, incoming)]
    starts: HashMap<String, u32>,
}

struct PEdge {
    to: String,
}

impl<'a> Comp<'a> {
    fn local(&mut self, n: &str, cnt: u32) -> u32 {
        if let Some((s, c)) = self.locals.get(n) {
            assert_eq!(*c, cnt, "leaf count of %{}", n);
            return *s;
        }
        let s = self.nslots;
        self.nslots += cnt;
        self.locals.insert(n.to_string(), (s, cnt));
        s
    }
    fn val(&mut self, t: &Ty) -> Vec<Opd> {
        let n = nleaves(t);
        match self.lx.peek() {
            T::L(l) => {
                self.lx.i += 1;
                let s = self.local(l, n);
                (0..n).map(|i| Opd::slot(s + i)).collect()
            }
            T::Md(_) => {
                self.lx.i += 1;
                if self.lx.peek() == T::P(b'(') || self.lx.peek() == T::P(b'{') {
                    self.lx.skip_balanced();
                }
                vec![]
            }
            _ => {
                let vs = self.lx.konst(t, self.m);
                let mut lv = vec![];
                leaves(t, 0, &mut lv);
                vs.into_iter()
                    .zip(lv)
                    .map(|(v, (_, w))| {
                        if w > 64 {
                            self.bigs.push((w, v));
                            Opd { s: BIG, c: self.bigs.len() as u64 - 1 }
                        } else {
                            Opd::k(v as u64)
                        }
                    })
                    .collect()
            }
        }
    }
    fn tval(&mut self) -> (Ty, Vec<Opd>) {
        let t = self.lx.ty();
        self.lx.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self) -> String {
        assert!(self.lx.eat_w("label"));
        match self.lx.next() {
            T::L(l) => l.to_string(),
            x => panic!("label, got {:?}", x),
        }
    }
    fn tail(&mut self) {
        // trailing ", align N", ", !md !N", "#N"
        loop {
            if let T::At(_) = self.lx.peek() {
                self.lx.i += 1;
                continue;
            }
            if self.lx.peek() == T::P(b',') {
                match self.lx.t[self.lx.i + 1] {
                    T::W("align") => {
                        self.lx.i += 3;
                        continue;
                    }
                    T::Md(_) => {
                        self.lx.i += 2;
                        if let T::Md(_) = self.lx.peek() {
                            self.lx.i += 1;
                            if matches!(self.lx.peek(), T::P(b'{') | T::P(b'(')) {
                                self.lx.skip_balanced();
                            }
                        } else if matches!(self.lx.peek(), T::P(b'{') | T::P(b'(')) {
                            self.lx.skip_balanced();
                        }
                        continue;
                    }
                    _ => {}
                }
            }
            break;
        }
    }
    fn edge(&self, to: &str) -> Edge {
        // the target is patched later: remember the label index
        Edge { to: self.label_id(to), copies: Box::new([]) }
    }
    fn label_id(&self, _to: &str) -> u32 {
        0
    }

    fn func(&mut self, name: String) -> Func {
        // header: define ... @name(args) ... {
        while !matches!(self.lx.peek(), T::G(_)) {
            self.lx.i += 1;
        }
        self.lx.i += 1;
        self.lx.expect(b'(');
        let mut nargs = 0;
        let mut unnamed = 0;
        if !self.lx.eat(b')') {
            loop {
                if self.lx.peek() == T::W("...") || self.lx.peek() == T::P(b'.') {
                    panic!("varargs definition");
                }
                let t = self.lx.ty();
                self.lx.skip_attrs();
                let n = nleaves(&t);
                match self.lx.next() {
                    T::L(l) => {
                        if l.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        let s = self.local(l, n);
                        assert_eq!(s, nargs);
                    }
                    x => panic!("arg name {:?} in {}", x, name),
                }
                nargs += n;
                if self.lx.eat(b')') {
                    break;
                }
                self.lx.expect(b',');
            }
        }
        while self.lx.next() != T::P(b'{') {}
        // body
        let mut fix: Vec<(usize, usize, String, String)> = vec![]; // code index, edge number, from block, target
        let mut first = true;
        loop {
            match self.lx.peek() {
                T::P(b'}') | T::Eof => break,
                T::Lab(l) => {
                    self.lx.i += 1;
                    self.cur = l.to_string();
                    self.starts.insert(self.cur.clone(), self.code.len() as u32);
                    first = false;
                    continue;
                }
                _ => {}
            }
            if first {
                self.cur = unnamed.to_string();
                self.starts.insert(self.cur.clone(), 0);
                first = false;
            }
            self.inst(&mut fix);
        }
        // patch edges with phi copies
        for (ci, en, from, to) in fix {
            let start = *self.starts.get(&to).unwrap_or_else(|| panic!("block {} in {}", to, name));
            let mut copies: Vec<(u32, Opd)> = vec![];
            if let Some(ps) = self.phis.get(&to) {
                for (d, inc) in ps {
                    let (_, v) = inc.iter().find(|(b, _)| *b == from).unwrap_or_else(|| panic!("phi {} <- {} in {}", to, from, name));
                    for (i, o) in v.iter().enumerate() {
                        if !(o.s == d + i as u32) {
                            copies.push((d + i as u32, *o));
                        }
                    }
                }
            }
            let e = Edge { to: start, copies: copies.into_boxed_slice() };
            match &mut self.code[ci] {
                I::Br(x) => *x = e,
                I::CondBr { t, f, .. } => {
                    if en == 0 {
                        *t = e
                    } else {
                        *f = e
                    }
                }
                I::Switch { edges, .. } => edges[en] = e,
                I::Call(c) => c.normal = Some(e),
                _ => unreachable!(),
            }
        }
        Func { name, nslots: self.nslots, nargs, code: std::mem::take(&mut self.code), bigs: std::mem::take(&mut self.bigs) }
    }

    fn inst(&mut self, fix: &mut Vec<(usize, usize, String, String)>) {
        let mut dst: Option<String> = None;
        if let T::L(l) = self.lx.peek() {
            dst = Some(l.to_string());
            self.lx.i += 1;
            self.lx.expect(b'=');
        }
        let op = match self.lx.next() {
            T::W(w) => w,
            x => panic!("instruction expected, got {:?} near {:?}", x, &self.lx.t[self.lx.i.saturating_sub(14)..(self.lx.i + 5).min(self.lx.t.len())]),
        };
        let dn = dst.clone().unwrap_or_default();
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.lx.skip_flags();
                let t = self.lx.ty();
                let a = self.val(&t);
                self.lx.expect(b',');
                let b = self.val(&t);
                let bo = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                let mut lv = vec![];
                leaves(&t, 0, &mut lv);
                let d = self.local(&dn, lv.len() as u32);
                for i in 0..lv.len() {
                    self.code.push(I::Bin { op: bo, w: lv[i].1, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "fneg" => {
                self.lx.skip_flags();
                let (t, a) = self.tval();
                let d = self.local(&dn, 1);
                self.code.push(I::FNeg { w: bits_of(&t) as u8, d, a: a[0] });
            }
            "icmp" => {
                self.lx.skip_flags();
                let p = match self.lx.next() {
                    T::W(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        x => panic!("icmp {}", x),
                    },
                    x => panic!("icmp {:?}", x),
                };
                let t = self.lx.ty();
                let a = self.val(&t);
                self.lx.expect(b',');
                let b = self.val(&t);
                let mut lv = vec![];
                leaves(&t, 0, &mut lv);
                let d = self.local(&dn, lv.len() as u32);
                for i in 0..lv.len() {
                    self.code.push(I::Cmp { p, w: lv[i].1, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "fcmp" => {
                self.lx.skip_flags();
                let p = match self.lx.next() {
                    T::W(w) => w.to_string(),
                    x => panic!("fcmp {:?}", x),
                };
                let t = self.lx.ty();
                let a = self.val(&t);
                self.lx.expect(b',');
                let b = self.val(&t);
                let mut lv = vec![];
                leaves(&t, 0, &mut lv);
                let d = self.local(&dn, lv.len() as u32);
                for i in 0..lv.len() {
                    self.code.push(I::FCmp { p: p.clone(), w: lv[i].1, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "select" => {
                self.lx.skip_flags();
                let (ct, c) = self.tval();
                self.lx.expect(b',');
                let (t, a) = self.tval();
                self.lx.expect(b',');
                let (_, b) = self.tval();
                let mut lv = vec![];
                leaves(&t, 0, &mut lv);
                let d = self.local(&dn, lv.len() as u32);
                let vec_c = matches!(ct, Ty::Vec(..));
                for i in 0..lv.len() {
                    let cc = if vec_c { c[i] } else { c[0] };
                    self.code.push(I::Sel { d: d + i as u32, c: cc, a: a[i], b: b[i], w: lv[i].1 });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "freeze" => {
                self.lx.skip_flags();
                let (ft, a) = self.tval();
                let tt = if op == "freeze" {
                    ft.clone()
                } else {
                    assert!(self.lx.eat_w("to"));
                    self.lx.ty()
                };
                let (mut fl, mut tl) = (vec![], vec![]);
                leaves(&ft, 0, &mut fl);
                leaves(&tt, 0, &mut tl);
                let d = self.local(&dn, tl.len() as u32);
                if op == "bitcast" && fl.len() != tl.len() {
                    if tl.len() == 1 {
                        self.code.push(I::Pack { d, parts: a.into_boxed_slice(), w: fl[0].1 });
                    } else if fl.len() == 1 {
                        self.code.push(I::Unpack { d, n: tl.len() as u32, a: a[0], w: tl[0].1 });
                    } else {
                        // via one wide integer
                        let total: u32 = fl.iter().map(|x| x.1 as u32).sum();
                        assert!(total <= 128);
                        let tmp = self.nslots;
                        self.nslots += 1;
                        self.code.push(I::Pack { d: tmp, parts: a.into_boxed_slice(), w: fl[0].1 });
                        self.code.push(I::Unpack { d, n: tl.len() as u32, a: Opd::slot(tmp), w: tl[0].1 });
                    }
                } else {
                    for i in 0..tl.len() {
                        let (f, t) = (fl[i].1, tl[i].1);
                        let d = d + i as u32;
                        let a = a[i];
                        if f == t {
                            self.code.push(I::Copy { d, a });
                        } else if op == "sext" {
                            self.code.push(I::SExt { d, a, f, t });
                        } else if t > f {
                            self.code.push(I::ZExt { d, a, f, t });
                        } else {
                            self.code.push(I::Trunc { d, a, f, t });
                        }
                    }
                }
            }
            "load" => {
                while self.lx.eat_w("atomic") || self.lx.eat_w("volatile") {}
                let t = self.lx.ty();
                self.lx.expect(b',');
                let (_, p) = self.tval();
                self.skip_order();
                let mut lv = vec![];
                leaves(&t, 0, &mut lv);
                let d = self.local(&dn, lv.len() as u32);
                self.code.push(I::Load { d, p: p[0], lv: lv.into_boxed_slice() });
            }
            "store" => {
                while self.lx.eat_w("atomic") || self.lx.eat_w("volatile") {}
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let (_, p) = self.tval();
                self.skip_order();
                let mut lv = vec![];
                leaves(&t, 0, &mut lv);
                let lv: Vec<_> = lv.into_iter().zip(v).map(|((o, w), v)| (o, w, v)).collect();
                self.code.push(I::Store { p: p[0], lv: lv.into_boxed_slice() });
            }
            "getelementptr" => {
                self.lx.skip_flags();
                let st = self.lx.ty();
                self.lx.expect(b',');
                let (_, base) = self.tval();
                let mut off = 0i64;
                let mut idx: Vec<(Opd, i64, u8)> = vec![];
                let mut cur = st.clone();
                let mut firsti = true;
                while self.lx.peek() == T::P(b',') && !matches!(self.lx.t[self.lx.i + 1], T::Md(_)) {
                    self.lx.i += 1;
                    self.lx.skip_flags();
                    let (it, v) = self.tval();
                    let w = bits_of(&it) as u8;
                    let scale;
                    if firsti {
                        scale = size_of(&cur) as i64;
                        firsti = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(fs, p) => {
                                assert!(v[0].s == KONST);
                                off += field_off(&fs, p, v[0].c as usize) as i64;
                                cur = fs[v[0].c as usize].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = size_of(&e) as i64;
                                cur = *e;
                            }
                            x => panic!("gep into {:?}", x),
                        }
                    }
                    if v[0].s == KONST {
                        let k = crate::expr::sext128(v[0].c as u128, w) as i64;
                        off += k * scale;
                    } else {
                        idx.push((v[0], scale, w));
                    }
                }
                let d = self.local(&dn, 1);
                self.code.push(I::Gep { d, base: base[0], off, idx: idx.into_boxed_slice() });
            }
            "extractvalue" => {
                let (t, v) = self.tval();
                let path = self.path();
                let (o, st) = sub_leaf(&t, &path);
                let n = nleaves(&st);
                let d = self.local(&dn, n);
                for i in 0..n {
                    self.code.push(I::Copy { d: d + i, a: v[(o + i) as usize] });
                }
            }
            "insertvalue" => {
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let (et, e) = self.tval();
                let path = self.path();
                let (o, _) = sub_leaf(&t, &path);
                let n = nleaves(&t);
                let k = nleaves(&et);
                let d = self.local(&dn, n);
                for i in 0..n {
                    let a = if i >= o && i < o + k { e[(i - o) as usize] } else { v[i as usize] };
                    self.code.push(I::Copy { d: d + i, a });
                }
            }
            "extractelement" => {
                let (_t, v) = self.tval();
                self.lx.expect(b',');
                let (_, ix) = self.tval();
                assert!(ix[0].s == KONST);
                let d = self.local(&dn, 1);
                self.code.push(I::Copy { d, a: v[ix[0].c as usize] });
            }
            "insertelement" => {
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let (_, e) = self.tval();
                self.lx.expect(b',');
                let (_, ix) = self.tval();
                assert!(ix[0].s == KONST);
                let n = nleaves(&t);
                let d = self.local(&dn, n);
                for i in 0..n {
                    let a = if i as u64 == ix[0].c { e[0] } else { v[i as usize] };
                    self.code.push(I::Copy { d: d + i, a });
                }
            }
            "shufflevector" => {
                let (_t, a) = self.tval();
                self.lx.expect(b',');
                let (_, b) = self.tval();
                self.lx.expect(b',');
                let mt = self.lx.ty();
                let mask = self.lx.konst(&mt, self.m);
                let n = mask.len() as u32;
                let d = self.local(&dn, n);
                for i in 0..n {
                    let k = mask[i as usize] as usize;
                    let o = if k < a.len() { a[k] } else { b[k - a.len()] };
                    self.code.push(I::Copy { d: d + i, a: o });
                }
            }
            "phi" => {
                self.lx.skip_flags();
                let t = self.lx.ty();
                let n = nleaves(&t);
                let d = self.local(&dn, n);
                let mut inc = vec![];
                loop {
                    self.lx.expect(b'[');
                    let v = self.val(&t);
                    self.lx.expect(b',');
                    let b = match self.lx.next() {
                        T::L(l) => l.to_string(),
                        x => panic!("phi {:?}", x),
                    };
                    self.lx.expect(b']');
                    inc.push((b, v));
                    if self.lx.peek() == T::P(b',') && self.lx.t[self.lx.i + 1] == T::P(b'[') {
                        self.lx.i += 1;
                    } else {
                        break;
                    }
                }
                self.phis.entry(self.cur.clone()).or_default().push((d, inc));
            }
            "alloca" => {
                let _ = self.lx.eat_w("inalloca");
                let t = self.lx.ty();
                let mut size = size_of(&t);
                if self.lx.peek() == T::P(b',') && !matches!(self.lx.t[self.lx.i + 1], T::W("align") | T::Md(_)) {
                    self.lx.i += 1;
                    let (_, n) = self.tval();
                    assert!(n[0].s == KONST);
                    size *= n[0].c;
                }
                let d = self.local(&dn, 1);
                self.code.push(I::Alloca { d, size });
            }
            "br" => {
                if self.lx.peek() == T::W("label") {
                    let l = self.label();
                    fix.push((self.code.len(), 0, self.cur.clone(), l.clone()));
                    let e = self.edge(&l);
                    self.code.push(I::Br(e));
                } else {
                    let (_, c) = self.tval();
                    self.lx.expect(b',');
                    let a = self.label();
                    self.lx.expect(b',');
                    let b = self.label();
                    let ci = self.code.len();
                    fix.push((ci, 0, self.cur.clone(), a.clone()));
                    fix.push((ci, 1, self.cur.clone(), b.clone()));
                    let (t, f) = (self.edge(&a), self.edge(&b));
                    self.code.push(I::CondBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let def = self.label();
                self.lx.expect(b'[');
                let ci = self.code.len();
                let mut targets: Vec<String> = vec![def.clone()];
                let mut edges = vec![self.edge(&def)];
                fix.push((ci, 0, self.cur.clone(), def));
                let mut cases = vec![];
                while !self.lx.eat(b']') {
                    let ct = self.lx.ty();
                    let k = self.lx.konst(&ct, self.m)[0] as u64;
                    self.lx.expect(b',');
                    let l = self.label();
                    let en = match targets.iter().position(|x| *x == l) {
                        Some(i) => i,
                        None => {
                            targets.push(l.clone());
                            edges.push(self.edge(&l));
                            fix.push((ci, targets.len() - 1, self.cur.clone(), l));
                            targets.len() - 1
                        }
                    };
                    cases.push((k, en as u32));
                }
                let _ = PEdge { to: String::new() }.to;
                self.code.push(I::Switch { v: v[0], w: bits_of(&t) as u8, cases: cases.into_boxed_slice(), edges: edges.into_boxed_slice() });
            }
            "ret" => {
                let t = self.lx.ty();
                let v = if t == Ty::Void { vec![] } else { self.val(&t) };
                self.code.push(I::Ret(v.into_boxed_slice()));
            }
            "unreachable" => self.code.push(I::Unreachable),
            "resume" => {
                let _ = self.tval();
                self.code.push(I::Unreachable);
            }
            "landingpad" => {
                let t = self.lx.ty();
                loop {
                    if self.lx.eat_w("cleanup") {
                        continue;
                    }
                    if self.lx.eat_w("catch") || self.lx.eat_w("filter") {
                        let _ = self.tval();
                        continue;
                    }
                    break;
                }
                let _ = self.local(&dn, nleaves(&t));
                self.code.push(I::Unreachable);
            }
            "fence" => {
                while let T::W(w) = self.lx.peek() {
                    if matches!(w, "acquire" | "release" | "acq_rel" | "seq_cst" | "syncscope") {
                        self.lx.i += 1;
                    } else {
                        break;
                    }
                }
                if self.lx.peek() == T::P(b'(') {
                    self.lx.skip_balanced();
                    self.lx.i += 1;
                }
            }
            "atomicrmw" => {
                let _ = self.lx.eat_w("volatile");
                let o = match self.lx.next() {
                    T::W(w) => w.to_string(),
                    x => panic!("{:?}", x),
                };
                let (_, p) = self.tval();
                self.lx.expect(b',');
                let (t, a) = self.tval();
                self.skip_order();
                let d = self.local(&dn, 1);
                self.code.push(I::Rmw { op: o, w: bits_of(&t) as u8, d, p: p[0], a: a[0] });
            }
            "cmpxchg" => {
                while self.lx.eat_w("weak") || self.lx.eat_w("volatile") {}
                let (_, p) = self.tval();
                self.lx.expect(b',');
                let (t, c) = self.tval();
                self.lx.expect(b',');
                let (_, n) = self.tval();
                self.skip_order();
                let d = self.local(&dn, 2);
                self.code.push(I::CmpXchg { w: bits_of(&t) as u8, d, p: p[0], cmp: c[0], new: n[0] });
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                if op != "call" && op != "invoke" {
                    assert!(self.lx.eat_w("call"));
                }
                self.lx.skip_flags();
                self.lx.skip_attrs();
                let mut rt = self.lx.ty();
                if let Ty::Fn(r) = rt {
                    rt = *r;
                }
                self.lx.skip_attrs();
                let callee = match self.lx.next() {
                    T::G(g) => match self.m.func_ix.get(g) {
                        Some(ix) => {
                            if self.m.funcs[*ix].body.is_some() {
                                Callee::Func(*ix)
                            } else {
                                Callee::Name(g.to_string())
                            }
                        }
                        None => Callee::Name(g.to_string()),
                    },
                    T::L(l) => {
                        let s = self.local(l, 1);
                        Callee::Ptr(Opd::slot(s))
                    }
                    T::W("asm") => {
                        let mut s = String::new();
                        let mut k = 0;
                        loop {
                            match self.lx.next() {
                                T::S(x) => {
                                    if k > 0 {
                                        s.push('|');
                                    }
                                    s.push_str(x);
                                    k += 1;
                                    if k == 2 {
                                        break;
                                    }
                                }
                                T::W(_) | T::P(b',') => {}
                                x => panic!("asm {:?}", x),
                            }
                        }
                        Callee::Asm(s)
                    }
                    T::W("inttoptr") | T::W("null") => {
                        // call through a constant: cannot be reached
                        if self.lx.peek() == T::P(b'(') {
                            self.lx.skip_balanced();
                        }
                        Callee::Ptr(Opd::k(0))
                    }
                    x => panic!("callee {:?} near {:?}", x, &self.lx.t[self.lx.i.saturating_sub(14)..(self.lx.i + 5).min(self.lx.t.len())]),
                };
                self.lx.expect(b'(');
                let mut args = vec![];
                let mut argtys = vec![];
                if !self.lx.eat(b')') {
                    loop {
                        let (t, v) = self.tval();
                        let mut lv = vec![];
                        leaves(&t, 0, &mut lv);
                        for (i, o) in v.into_iter().enumerate() {
                            args.push((o, lv[i].1));
                        }
                        argtys.push(t);
                        if self.lx.eat(b')') {
                            break;
                        }
                        self.lx.expect(b',');
                    }
                }
                while let T::At(_) = self.lx.peek() {
                    self.lx.i += 1;
                }
                if self.lx.peek() == T::P(b'[') {
                    self.lx.skip_balanced();
                }
                let mut lv = vec![];
                leaves(&rt, 0, &mut lv);
                let d = if dst.is_some() { self.local(&dn, lv.len() as u32) } else {
                    let s = self.nslots;
                    self.nslots += lv.len() as u32;
                    s
                };
                let mut normal = None;
                if op == "invoke" {
                    assert!(self.lx.eat_w("to"));
                    let l = self.label();
                    assert!(self.lx.eat_w("unwind"));
                    let _ = self.label();
                    fix.push((self.code.len(), 0, self.cur.clone(), l.clone()));
                    normal = Some(self.edge(&l));
                }
                let skip = matches!(&callee, Callee::Name(n) if n.starts_with("llvm.lifetime") || n == "llvm.assume" || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg"));
                if !skip {
                    self.code.push(I::Call(Box::new(Call { callee, args, d, ret: lv.iter().map(|x| x.1).collect(), normal, argtys, target: std::cell::Cell::new(0) })));
                }
            }
            x => panic!("unsupported instruction {} near {:?}", x, &self.lx.t[self.lx.i.saturating_sub(14)..(self.lx.i + 5).min(self.lx.t.len())]),
        }
        self.tail();
    }
    fn path(&mut self) -> Vec<u64> {
        let mut v = vec![];
        while self.lx.peek() == T::P(b',') && matches!(self.lx.t[self.lx.i + 1], T::N(_)) {
            self.lx.i += 1;
            v.push(self.lx.num() as u64);
        }
        v
    }
    fn skip_order(&mut self) {
        loop {
            match self.lx.peek() {
                T::W("syncscope") => {
                    self.lx.i += 1;
                    self.lx.skip_balanced();
                }
                T::W("unordered") | T::W("monotonic") | T::W("acquire") | T::W("release") | T::W("acq_rel") | T::W("seq_cst") => self.lx.i += 1,
                _ => return,
            }
        }
    }
}
