//! Reader-side harnesses: C05, C06, C07, C08, C16, C19, C20.

use crate::io::F;
use crate::model::*;
use crate::sym::*;
use netcdf3::*;

// ------------------------------------------------------------------ reference decoder

/// What a header says, according to the format specification.
pub struct Parsed {
    pub v: u8,
    /// None: indeterminate.
    pub numrecs: Option<u32>,
    pub m: Set,
    pub begins: Vec<u64>,
    pub hlen: usize,
    /// One of the library's rules is broken (symbolic).
    pub bad: bool,
}
pub enum Dec {
    /// Violates the header grammar, or is cut short.
    Grammar,
    /// Grammatical, but breaks a rule in a way that leaves nothing to compare.
    Rule,
    Ok(Parsed),
}
struct In<'a> {
    b: &'a [u8],
    p: usize,
    /// Restrict names to ASCII (an assumption, listed among the bounds).
    ascii: bool,
    bad: bool,
}
type R<T> = Result<T, ()>;

impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.p {
            return Err(());
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn u64(&mut self) -> R<u64> {
        let b = self.take(8)?;
        Ok(u64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]))
    }
    /// A length in units of `unit` bytes that must lie within the file.
    fn len(&mut self, unit: usize) -> R<usize> {
        let n = self.u32()?;
        if n > 0x7fff_ffff || n as usize * unit > self.b.len() - self.p {
            return Err(());
        }
        Ok(conc(n as u64) as usize)
    }
    fn zeros(&mut self, n: usize) -> R<()> {
        let mut ok = true;
        for x in self.take(n)? {
            ok &= *x == 0;
        }
        if ok {
            Ok(())
        } else {
            Err(())
        }
    }
    fn name(&mut self) -> R<String> {
        let n = self.len(1)?;
        let b = self.take(n)?;
        if self.ascii {
            let mut ok = true;
            for x in b {
                ok &= *x < 0x80;
            }
            assume(ok);
        } else if std::str::from_utf8(b).is_err() {
            return Err(());
        }
        self.zeros(pad4(n))?;
        self.bad |= name_bad(b);
        Ok(unsafe { String::from_utf8_unchecked(b.to_vec()) })
    }
    /// The number of entries of a list.
    fn list(&mut self, tag: u32) -> R<usize> {
        let t = self.u32()?;
        let n = self.u32()?;
        if t == 0 {
            return if n == 0 { Ok(0) } else { Err(()) };
        }
        if t != tag || n > 0x7fff_ffff {
            return Err(());
        }
        Ok(n as usize)
    }
    fn ty(&mut self) -> R<u8> {
        let t = self.u32()?;
        if t < 1 || t > 6 {
            return Err(());
        }
        Ok(conc(t as u64) as u8)
    }
    fn attrs(&mut self) -> R<Vec<Attr>> {
        let n = self.list(0x0C)?;
        let mut l: Vec<Attr> = vec![];
        for _ in 0..n {
            let nm = self.name()?;
            let t = self.ty()?;
            let k = self.len(SZ[t as usize])?;
            let d = self.take(k * SZ[t as usize])?;
            self.zeros(pad4(d.len()))?;
            for a in l.iter() {
                self.bad |= eq(a.name.as_bytes(), nm.as_bytes());
            }
            l.push(attr(&nm, t, d.to_vec()));
        }
        Ok(l)
    }
    fn all(&mut self) -> R<Option<Parsed>> {
        if !eq(self.take(3)?, b"CDF") {
            return Err(());
        }
        let v = self.take(1)?[0];
        if v != 1 && v != 2 {
            return Err(());
        }
        let v = conc(v as u64) as u8;
        let n = self.u32()?;
        if n > 0x7fff_ffff && n != u32::MAX {
            return Err(());
        }
        let numrecs = if n == u32::MAX { None } else { Some(n) };
        let mut m = Set::new();
        let mut hopeless = false;
        let k = self.list(0x0A)?;
        for _ in 0..k {
            let nm = self.name()?;
            let s = self.u32()?;
            if s > 0x7fff_ffff {
                return Err(());
            }
            self.bad |= s as usize > NC_MAX_DIM_SIZE;
            for d in m.dims.iter() {
                self.bad |= eq(d.name.as_bytes(), nm.as_bytes());
            }
            if s == 0 {
                hopeless |= m.nrec().is_some();
                m.dims.push(unlim(&nm, numrecs.unwrap_or(0) as usize));
            } else {
                m.dims.push(dim(&nm, s as usize));
            }
        }
        m.attrs = self.attrs()?;
        let k = self.list(0x0B)?;
        let mut begins = vec![];
        for _ in 0..k {
            let nm = self.name()?;
            let nd = self.len(4)?;
            let mut ids = vec![];
            for i in 0..nd {
                let d = self.u32()?;
                if d > 0x7fff_ffff {
                    return Err(());
                }
                if d as usize >= m.dims.len() {
                    hopeless = true;
                    continue;
                }
                let d = conc(d as u64) as usize;
                hopeless |= ids.contains(&d) || (m.dims[d].unlim && i > 0);
                ids.push(d);
            }
            hopeless |= nd > NC_MAX_VAR_DIMS;
            let attrs = self.attrs()?;
            let ty = self.ty()?;
            let _vsize = self.u32()?;
            let begin = if v == 1 { self.u32()? as i32 as i64 } else { self.u64()? as i64 };
            if begin < 0 {
                return Err(());
            }
            for x in m.vars.iter() {
                self.bad |= eq(x.name.as_bytes(), nm.as_bytes());
            }
            begins.push(begin as u64);
            m.vars.push(Var { name: nm, ty, dims: ids, attrs });
        }
        if hopeless {
            return Ok(None);
        }
        Ok(Some(Parsed { v, numrecs, m, begins, hlen: self.p, bad: self.bad }))
    }
}
/// The name grammar, without branches. The bytes are valid UTF-8.
pub fn name_bad(b: &[u8]) -> bool {
    if b.is_empty() || b.len() > 256 {
        return true;
    }
    let c = b[0];
    let up = c & 0xDF;
    let mut bad = !(((c >= b'0') & (c <= b'9')) | ((up >= b'A') & (up <= b'Z') & (c < 0x80)) | (c == b'_') | (c >= 0x80));
    for c in b[1..].iter() {
        bad |= (*c < 0x20) | (*c == 0x7F) | (*c == b'/');
    }
    bad
}
pub fn decode(b: &[u8], ascii: bool) -> Dec {
    let mut i = In { b, p: 0, ascii, bad: false };
    match i.all() {
        Err(()) => Dec::Grammar,
        Ok(None) => Dec::Rule,
        Ok(Some(p)) => Dec::Ok(p),
    }
}
fn mul(a: u64, b: u64) -> u64 {
    let (r, o) = a.overflowing_mul(b);
    if o {
        u64::MAX
    } else {
        r
    }
}
fn add(a: u64, b: u64) -> u64 {
    let (r, o) = a.overflowing_add(b);
    if o {
        u64::MAX
    } else {
        r
    }
}
/// Bytes of all the data, saturating.
fn total(m: &Set) -> u64 {
    let mut t = 0;
    for x in m.vars.iter() {
        let mut n = SZ[x.ty as usize] as u64;
        for d in x.dims.iter() {
            if !m.dims[*d].unlim {
                n = mul(n, m.dims[*d].size as u64);
            }
        }
        n = add(n, (4 - (n & 3)) & 3);
        if m.is_rec(x) {
            let r = m.nrec().unwrap() as u64;
            n = mul(n, if r == 0 { 1 } else { r });
        }
        t = add(t, n);
    }
    t
}

/// What a file is, including the number of records of an indeterminate header.
pub enum Ref {
    Malformed,
    Invalid,
    /// The record count cannot be determined.
    NoCount,
    /// Indeterminate count and a sole unaligned record variable: either distance is acceptable.
    Either,
    File(Parsed),
}
pub fn reference(b: &[u8], ascii: bool) -> Ref {
    let mut p = match decode(b, ascii) {
        Dec::Grammar => return Ref::Malformed,
        Dec::Rule => return Ref::Invalid,
        Dec::Ok(p) => p,
    };
    if p.numrecs.is_none() && p.m.nrec().is_some() {
        let mut first = u64::MAX;
        for (i, x) in p.m.vars.iter().enumerate() {
            if p.m.is_rec(x) {
                first = first.min(p.begins[i]);
            }
        }
        if first != u64::MAX && total(&p.m) < 1 << 63 {
            if p.m.special() {
                return Ref::Either;
            }
            if first > b.len() as u64 {
                return if p.bad { Ref::Invalid } else { Ref::NoCount };
            }
            let (all, rs) = (b.len() as u64 - first, p.m.rec_size() as u64);
            if all % rs != 0 {
                return if p.bad { Ref::Invalid } else { Ref::NoCount };
            }
            let n = conc(all / rs) as usize;
            for d in p.m.dims.iter_mut() {
                if d.unlim {
                    d.size = n;
                }
            }
        }
    }
    Ref::File(p)
}

/// The bytes of record `r` of variable `i`, if they are all in the file.
pub fn slice_at(b: &[u8], p: &Parsed, i: usize, r: usize, stride: usize) -> Option<Vec<u8>> {
    let x = &p.m.vars[i];
    let u = p.m.useful(x) as u64;
    let at = add(p.begins[i], if r == 0 { 0 } else { mul(r as u64, stride as u64) });
    if add(at, u) > b.len() as u64 {
        return None;
    }
    let at = conc(at) as usize;
    let u = conc(u) as usize;
    Some(b[at..at + u].to_vec())
}
/// The bytes of the whole variable, if they are all in the file.
pub fn whole_at(b: &[u8], p: &Parsed, i: usize, stride: usize) -> Option<Vec<u8>> {
    let x = &p.m.vars[i];
    let mut o = vec![];
    let n = p.m.chunks(x);
    if n == 0 {
        return Some(o);
    }
    // the last record first: the others lie before it
    let last = slice_at(b, p, i, n - 1, stride)?;
    let n = conc(n as u64) as usize;
    for r in 0..n - 1 {
        o.extend_from_slice(&slice_at(b, p, i, r, stride)?);
    }
    o.extend_from_slice(&last);
    Some(o)
}

/// The memory a reader may ask for: in proportion to the file.
fn limits(n: usize) {
    limit(256 * n as u64 + (1 << 20), 4096 * n as u64 + (64 << 20));
}

/// Opens arbitrary bytes; the result must be what the reference says.
/// `reads`: also read every variable and record.
pub fn judge(b: &[u8], ascii: bool, reads: bool) {
    let r = reference(b, ascii);
    put(F, b);
    limits(b.len());
    let res = FileReader::open(F);
    limit(u64::MAX >> 1, u64::MAX >> 1);
    match r {
        Ref::Malformed => {
            check(res.is_err(), "c08.accepted-malformed");
            reach("malformed");
            emit(b"malformed");
        }
        Ref::Invalid => {
            check(res.is_err(), "c06.accepted-invalid");
            reach("invalid");
            emit(b"invalid");
        }
        Ref::NoCount => {
            check(res.is_err(), "c19.accepted-uncountable");
            reach("uncountable");
            emit(b"uncountable");
        }
        Ref::Either => {}
        Ref::File(p) => {
            let big = total(&p.m) >= 1 << 63;
            match res {
                Err(_) => {
                    check(p.bad | big, "c07.refused-conforming");
                    emit(b"refused");
                }
                Ok(mut f) => {
                    check(!p.bad, "c06.accepted-invalid");
                    assume(!p.bad);
                    if big {
                        // nothing is required of it but to stay usable
                        for x in p.m.vars.iter() {
                            limits(b.len());
                            let _ = f.read_var(&x.name);
                            let _ = f.read_record(&x.name, 0);
                            limit(u64::MAX >> 1, u64::MAX >> 1);
                        }
                        return;
                    }
                    reach("conforming");
                    check(f.version() == ver(p.v), "c07.version");
                    same(f.data_set(), &p.m, "c07.");
                    if reads {
                        read_all(&mut f, b, &p);
                    }
                    emit(b"accepted");
                    emit_u(p.hlen);
                }
            }
        }
    }
}
/// The distances between records that a reader may use: the record size, and in the special case
/// of a sole unaligned record variable also the unpadded size that the specification prescribes
/// (rd_sole decides which one it should be).
pub fn strides(m: &Set, x: &Var) -> Vec<usize> {
    if !m.is_rec(x) {
        return vec![0];
    }
    if m.special() {
        vec![m.rec_size(), m.useful(x)]
    } else {
        vec![m.rec_size()]
    }
}
fn judge_read(wants: &[Option<Vec<u8>>], got: Result<DataVector, netcdf3::error::ReadError>, ty: u8, pre: &str) {
    let missing = wants.iter().any(|w| w.is_none());
    match got {
        Ok(g) => {
            if wants.iter().all(|w| w.is_none()) {
                fail(&cat("c08.beyond-eof-", pre));
            }
            let mut ok = false;
            for w in wants.iter().flatten() {
                ok |= dv_is(&g, ty, w);
            }
            check(ok | missing & wants.iter().all(|w| w.is_none()), &cat("c07.data-", pre));
        }
        Err(_) => {
            check(missing, &cat("c07.refused-", pre));
            reach("beyond-eof");
        }
    }
}
/// Every variable and its first, last and middle records read as the reference says.
pub fn read_all(f: &mut FileReader, b: &[u8], p: &Parsed) {
    for (i, x) in p.m.vars.iter().enumerate() {
        let st = strides(&p.m, x);
        let wants: Vec<_> = st.iter().map(|s| whole_at(b, p, i, *s)).collect();
        limits(b.len());
        let got = f.read_var(&x.name);
        limit(u64::MAX >> 1, u64::MAX >> 1);
        judge_read(&wants, got, x.ty, "var");
        let n = p.m.chunks(x);
        let mut rs = [0, 1, n.wrapping_sub(1)];
        if wants[0].is_some() {
            rs[2] = conc(rs[2] as u64) as usize;
        }
        for r in rs {
            if r >= n {
                continue;
            }
            let wants: Vec<_> = st.iter().map(|s| slice_at(b, p, i, r, *s)).collect();
            limits(b.len());
            let got = f.read_record(&x.name, r);
            limit(u64::MAX >> 1, u64::MAX >> 1);
            judge_read(&wants, got, x.ty, "record");
        }
        check(f.read_record(&x.name, n).is_err(), "c16.index-beyond");
    }
}

// ------------------------------------------------------------------ arbitrary bytes

/// Concrete beginnings after which everything is symbolic.
const RAW: u64 = 10;
fn raw_prefix(k: usize, v: u8) -> Vec<u8> {
    let mut o = vec![];
    let w = |o: &mut Vec<u8>, x: u32| o.extend_from_slice(&x.to_be_bytes());
    if k == 0 {
        return o;
    }
    o.extend_from_slice(&[b'C', b'D', b'F', v]);
    if k == 1 {
        return o;
    }
    w(&mut o, if k == 2 { u32::MAX } else { 1 });
    // dimensions
    match k {
        2 => return o,
        3 => {
            w(&mut o, 0x0A);
            w(&mut o, 2);
            w(&mut o, 1);
            o.extend_from_slice(b"t\0\0\0");
            w(&mut o, 0);
            return o;
        }
        4 => {
            w(&mut o, 0);
            w(&mut o, 0);
            return o;
        }
        5 => {
            w(&mut o, 0);
            w(&mut o, 0);
            w(&mut o, 0x0C);
            w(&mut o, 1);
            return o;
        }
        _ => {}
    }
    w(&mut o, 0x0A);
    w(&mut o, 2);
    for (n, s) in [(b"t\0\0\0", 0), (b"x\0\0\0", 2)] {
        w(&mut o, 1);
        o.extend_from_slice(n);
        w(&mut o, s);
    }
    w(&mut o, 0);
    w(&mut o, 0);
    w(&mut o, 0x0B);
    w(&mut o, 1);
    match k {
        6 => {}
        7 => {
            w(&mut o, 1);
            o.extend_from_slice(b"a\0\0\0");
        }
        8 => {
            w(&mut o, 1);
            o.extend_from_slice(b"a\0\0\0");
            w(&mut o, 2);
            w(&mut o, 0);
            w(&mut o, 1);
        }
        _ => {
            w(&mut o, 1);
            o.extend_from_slice(b"a\0\0\0");
            w(&mut o, 1);
            w(&mut o, 0);
            w(&mut o, 0);
            w(&mut o, 0);
        }
    }
    o
}
/// p: prefix, version, reads?, ASCII names only?, number of symbolic bytes.
pub fn rd_raw(p: u64) {
    let mut p = P(p);
    let k = p.take(RAW);
    let v = 1 + p.take(2) as u8;
    let reads = p.take(2) == 1;
    let ascii = p.take(2) == 1;
    let n = p.take(256);
    let mut b = raw_prefix(k, v);
    b.extend_from_slice(&bytes(n, "file"));
    judge(&b, ascii, reads);
}

// ------------------------------------------------------------------ corrupted headers

const TPL: u64 = 16;
/// Template files for corruption, truncation and buffer boundaries.
fn template(k: usize) -> Set {
    let mut m = Set::new();
    match k {
        0 => {
            m.dims.push(unlim("t", 2));
            m.dims.push(dim("x", 3));
            m.attrs.push(attr("g", 2, b"abc".to_vec()));
            let mut a = var("a", 3, &[0, 1]);
            a.attrs.push(attr("u", 2, b"K".to_vec()));
            m.vars.push(a);
            m.vars.push(var("b", 6, &[0]));
        }
        1 => {
            m.dims.push(dim("x", 2));
            m.dims.push(dim("yy", 3));
            m.dims.push(unlim("time", 3));
            m.vars.push(var("v", 1, &[2]));
        }
        2 => {
            m.vars.push(var("s", 4, &[]));
        }
        3 => {
            m.attrs.push(attr("a", 1, vec![1, 2, 3, 4, 5]));
            m.attrs.push(attr("b", 3, vec![1, 2, 3, 4, 5, 6]));
            m.attrs.push(attr("c", 4, vec![1, 2, 3, 4]));
            m.attrs.push(attr("d", 5, vec![0x7f, 0xc0, 0, 1]));
            m.attrs.push(attr("e", 6, vec![9, 8, 7, 6, 5, 4, 3, 2]));
            m.attrs.push(attr("f", 2, vec![]));
        }
        4 => {}
        5 => {
            m.dims.push(dim("x", 1));
            m.dims.push(dim("y", 2));
            let mut a = var("a", 2, &[1, 0]);
            a.attrs.push(attr("p", 3, vec![0, 7]));
            a.attrs.push(attr("q", 5, vec![1, 2, 3, 4]));
            m.vars.push(a);
            let mut a = var("b", 2, &[0]);
            a.attrs.push(attr("p", 2, b"x".to_vec()));
            m.vars.push(a);
            m.vars.push(var("cde", 5, &[]));
        }
        6 => {
            m.dims.push(unlim("t", 1));
            m.vars.push(var("a", 1, &[0]));
            m.vars.push(var("b", 3, &[]));
            m.vars.push(var("c", 2, &[0]));
        }
        7 => {
            m.dims.push(unlim("t", 0));
            m.dims.push(dim("x", 2));
            m.vars.push(var("a", 4, &[0, 1]));
            m.vars.push(var("b", 4, &[1]));
        }
        // variables of four and five dimensions
        8 => {
            for (n, s) in [("a", 2), ("b", 1), ("c", 2), ("d", 1)] {
                m.dims.push(dim(n, s));
            }
            m.dims.push(unlim("e", 1));
            m.vars.push(var("v", 3, &[4, 0, 3, 1, 2]));
            m.vars.push(var("w", 1, &[3, 2, 1, 0]));
        }
        // many record variables of different sizes
        _ => {
            m.dims.push(unlim("t", 2));
            m.dims.push(dim("x", 3));
            m.vars.push(var("a", 6, &[0]));
            m.vars.push(var("b", 1, &[0, 1]));
            m.vars.push(var("c", 2, &[1]));
            m.vars.push(var("d", 3, &[0]));
            m.vars.push(var("e", 5, &[0, 1]));
            m.vars.push(var("f", 4, &[0]));
        }
    }
    m
}
/// Distinct concrete values for every cell.
fn pattern(m: &Set) -> Data {
    let mut c = 0x11u8;
    m.vars
        .iter()
        .map(|x| {
            (0..m.chunks(x))
                .map(|_| {
                    Some(
                        (0..m.useful(x))
                            .map(|_| {
                                c = c.wrapping_add(1);
                                c
                            })
                            .collect(),
                    )
                })
                .collect()
        })
        .collect()
}
/// One or two symbolic words anywhere in the header of a template.
/// p: template, version, reads?, second word (0: none, 1: next, 2: the one after, ...), part of the header, parts.
pub fn rd_words(p: u64) {
    let mut p = P(p);
    let m = template(p.take(TPL));
    let v = 1 + p.take(2) as u8;
    let reads = p.take(2) == 1;
    let gap = p.take(8);
    let part = p.take(64);
    let parts = p.take(64).max(1);
    let mut b = file(&m, v, 0, &pattern(&m));
    let n = required(&m, v) / 4;
    let (lo, hi) = (n * part / parts, n * (part + 1) / parts);
    if lo >= hi {
        return;
    }
    let w = lo + choice(hi - lo);
    let set = |b: &mut Vec<u8>, w: usize| {
        if w < n {
            let s = bytes(4, "word");
            b[4 * w..4 * w + 4].copy_from_slice(&s);
        }
    };
    set(&mut b, w);
    // record count and dimension sizes are multiplied with each other: of two of them, the second
    // takes one of a few values
    let mut factors = vec![1];
    let mut at = 3;
    for d in m.dims.iter() {
        at += 2 + (d.name.len() + 3) / 4;
        factors.push(at);
    }
    if gap > 0 && factors.contains(&w) && factors.contains(&(w + gap)) {
        let s = [0u32, 1, 3, 0x8000, 0x1_0001, 0x7fff_fffc, 0x7fff_ffff, u32::MAX][choice(8)];
        b[4 * (w + gap)..4 * (w + gap) + 4].copy_from_slice(&s.to_be_bytes());
    } else if gap > 0 {
        set(&mut b, w + gap);
    }
    judge(&b, true, reads);
}
/// Truncation at every byte. p: template, version, long header?, part, parts.
pub fn rd_trunc(p: u64) {
    let mut p = P(p);
    let mut m = template(p.take(TPL));
    let v = 1 + p.take(2) as u8;
    let long = p.take(2) == 1;
    if long {
        // pushes the rest of the header over the boundaries of the reader's buffer
        m.attrs.insert(0, sattr("long", 2, 1000));
    }
    let d = any_pattern(&m);
    let part = p.take(64);
    let parts = p.take(64).max(1);
    let b = file(&m, v, 0, &d);
    // nothing interesting happens within the values of the long attribute, except at the boundary
    let cuts: Vec<usize> = (0..b.len() + 1).filter(|c| c % parts == part && !(long && *c > 100 && *c < 1016)).collect();
    let cut = cuts[choice(cuts.len())];
    expect("malformed");
    if cut >= required(&m, v) {
        // a file cut in its data is still readable where it has data
        judge(&b[..cut], true, true);
    } else {
        put(F, &b[..cut]);
        limits(cut);
        check(FileReader::open(F).is_err(), "c08.accepted-truncated");
        limit(u64::MAX >> 1, u64::MAX >> 1);
        reach("malformed");
    }
}
fn any_pattern(m: &Set) -> Data {
    m.vars.iter().map(|v| (0..m.chunks(v)).map(|_| Some(bytes(m.useful(v), "data"))).collect()).collect()
}
/// A header whose fields fall on every position relative to the reader's buffer boundaries, with a
/// symbolic word at every place. p: template, version, symbolic word?, shift range, ranges.
pub fn rd_shift(p: u64) {
    let mut p = P(p);
    let mut m = template(p.take(TPL));
    let v = 1 + p.take(2) as u8;
    let corrupt = p.take(2) == 1;
    let k = p.take(64);
    let req = required(&m, v) + 20;
    // the boundary at 1024 (k < 32) or at 2048 falls on every word from the end to the beginning
    let n = req / 4 + 2;
    let boundary = if k < 32 { 1024 } else { 2048 };
    let (lo, hi) = (n * (k % 32) / 8, n * (k % 32 + 1) / 8);
    if lo >= hi || k % 32 >= 8 {
        return;
    }
    let back = 4 * (lo + choice(hi - lo));
    let sub = choice(4);
    if boundary + 4 < back + 24 {
        return;
    }
    m.attrs.insert(0, attr("l", 2, vec![b'.'; boundary + 4 - back - sub]));
    let d = pattern(&m);
    let mut b = file(&m, v, 0, &d);
    expect("conforming");
    if corrupt {
        // a symbolic word straddling the boundary or next to it
        let at = boundary - 8 + choice(12);
        if at + 4 <= required(&m, v) {
            let s = bytes(4, "word");
            b[at..at + 4].copy_from_slice(&s);
        }
    }
    judge(&b, true, !corrupt);
}
/// Names of any bytes at every place. p: place, length.
pub fn rd_utf8(p: u64) {
    let mut p = P(p);
    let place = p.take(4);
    let n = p.take(16);
    let mut m = Set::new();
    let s = bytes(n, "name");
    let nm = unsafe { String::from_utf8_unchecked(s) };
    let z = |k: usize, d: &str| if k == place { nm.clone() } else { d.to_string() };
    m.dims.push(dim(&z(0, "x"), 2));
    m.attrs.push(attr(&z(1, "a"), 2, vec![1]));
    let mut x = var(&z(2, "v"), 1, &[0]);
    x.attrs.push(attr(&z(3, "a"), 2, vec![1]));
    m.vars.push(x);
    let b = file(&m, 1, 0, &pattern(&m));
    judge(&b, false, false);
}

// ------------------------------------------------------------------ foreign files

const LAY: u64 = 8;
/// Definitions of the foreign files. `r`: record count, `t`: types.
fn foreign(k: usize, t: [u8; 3], r: usize) -> Set {
    let mut m = Set::new();
    match k {
        0 => {
            m.dims.push(dim("x", 3));
            m.vars.push(var("a", t[0], &[0]));
        }
        1 => {
            m.dims.push(unlim("t", r));
            m.dims.push(dim("x", 2));
            m.vars.push(var("a", t[0], &[0, 1]));
            m.vars.push(var("b", t[1], &[0]));
        }
        2 => {
            m.dims.push(dim("x", 3));
            m.dims.push(unlim("t", r));
            m.vars.push(var("a", t[0], &[1]));
            m.vars.push(var("f", t[2], &[0]));
            m.vars.push(var("b", t[1], &[1, 0]));
        }
        3 => {
            m.dims.push(unlim("t", r));
            m.vars.push(var("f", t[2], &[]));
            m.vars.push(var("a", t[0], &[0]));
            m.vars.push(var("b", t[1], &[0]));
            m.vars.push(var("g", t[1], &[]));
        }
        4 => {
            m.dims.push(unlim("t", r));
            m.dims.push(dim("x", 1));
            m.vars.push(var("a", t[0], &[0, 1]));
            m.vars.push(var("f", t[1], &[1]));
        }
        5 => {
            m.dims.push(unlim("t", r));
            m.vars.push(var("a", t[0], &[0]));
        }
        6 => {
            m.dims.push(unlim("t", r));
            m.dims.push(dim("x", 2));
            m.vars.push(var("f", t[0], &[1]));
        }
        _ => {
            m.dims.push(dim("y", 2));
            m.dims.push(dim("x", 3));
            m.vars.push(var("a", t[0], &[1, 0]));
            m.vars.push(var("b", t[1], &[0]));
            m.vars.push(var("c", t[2], &[]));
        }
    }
    confusable(m, k)
}
pub struct Foreign {
    pub m: Set,
    pub begins: Vec<u64>,
    pub b: Vec<u8>,
    pub v: u8,
}
/// A file as another program may write it: variables in any order, gaps, header space, trailing
/// bytes, meaningless vsize. All the data is symbolic; so is the vsize field.
/// `how`: 0: a chosen order and gaps; 1: one symbolic begin.
pub fn foreign_file(k: usize, t: [u8; 3], r: usize, v: u8, how: usize, numrecs: u32) -> Foreign {
    let m = foreign(k, t, r);
    let h = required(&m, v);
    let n = m.vars.len();
    let space = if how == 0 { 4 * choice(2) } else { 0 };
    let gap = [0, 1, 4][if how == 0 { choice(3) } else { 1 }];
    let order = choice(3);
    let mut begins = vec![0u64; n];
    let mut pos = h + space;
    // fixed-size and record variables: any of the two first, in one of three orders
    for q in 0..n {
        let i = match order {
            0 => q,
            1 => n - 1 - q,
            _ => (q + 1) % n,
        };
        if !m.is_rec(&m.vars[i]) {
            begins[i] = pos as u64;
            pos += m.chunk_size(&m.vars[i]) + gap;
        }
    }
    let mut end = pos;
    for q in 0..n {
        let i = match order {
            0 => q,
            1 => n - 1 - q,
            _ => (q + 1) % n,
        };
        let x = &m.vars[i];
        if m.is_rec(x) {
            begins[i] = pos as u64;
            pos += m.chunk_size(x);
            let last = begins[i] as usize + r.saturating_sub(1) * m.rec_size() + m.chunk_size(x);
            if r > 0 && last > end {
                end = last;
            }
        }
    }
    let size = end + [0, 3][if how == 0 { choice(2) } else { 1 }];
    if how == 1 {
        let i = choice(n);
        begins[i] = if v == 1 { u32v("begin") as u64 } else { u64v("begin") };
        assume((begins[i] >= h as u64) & (begins[i] < size as u64 + 8));
        begins[i] = conc(begins[i]);
    }
    let vs: Vec<u32> = m.vars.iter().map(|_| u32v("vsize")).collect();
    let mut b = header(&m, v, numrecs, &vs, &begins);
    let d = bytes(size - h, "data");
    b.extend_from_slice(&d);
    Foreign { m, begins, b, v }
}
fn types(tset: usize) -> [u8; 3] {
    [[1, 3, 6], [3, 2, 4], [6, 1, 2], [4, 5, 3], [2, 6, 1], [5, 4, 5]][tset]
}
/// p: definition, type set, version, how.
pub fn rd_layout(p: u64) {
    let mut p = P(p);
    let k = p.take(LAY);
    let t = types(p.take(6));
    let v = 1 + p.take(2) as u8;
    let how = p.take(2);
    let r = if foreign(k, t, 0).nrec().is_some() { choice(4) } else { 0 };
    let f = foreign_file(k, t, r, v, how, r as u32);
    expect("conforming");
    judge(&f.b, true, true);
}
/// The special case of the specification: the records of a sole 1- or 2-byte record variable are
/// not padded. p: type (0..3), version.
pub fn rd_sole(p: u64) {
    let mut p = P(p);
    let ty = [1, 2, 3][p.take(3)];
    let v = 1 + p.take(2) as u8;
    let mut m = Set::new();
    let n = 1 + choice(5);
    let r = 2 + choice(2);
    m.dims.push(unlim("t", r));
    m.dims.push(dim("x", n));
    m.vars.push(var("a", ty, &[0, 1]));
    if choice(2) == 1 {
        m.vars.push(var("f", 6, &[]));
    }
    if !m.special() {
        return;
    }
    let h = required(&m, v);
    let u = m.useful(&m.vars[0]);
    let mut begins = vec![h as u64];
    let mut data = vec![];
    if m.vars.len() == 2 {
        begins = vec![h as u64 + 8, h as u64];
        data = bytes(8, "data");
    }
    let rec = bytes(r * u, "data");
    data.extend_from_slice(&rec);
    data.resize(data.len() + pad4(data.len()), 0);
    let mut b = header(&m, v, r as u32, &[0, 8], &begins);
    b.extend_from_slice(&data);
    put(F, &b);
    expect("sole");
    match FileReader::open(F) {
        Err(_) => fail("c07.refused-conforming"),
        Ok(mut f) => {
            reach("sole");
            let l = "c07.sole-record-variable-padding";
            match f.read_var("a") {
                Ok(g) => check(dv_is(&g, ty, &rec), l),
                Err(_) => fail(l),
            }
        }
    }
}

/// Record-wise, whole, typed and untyped reads agree. p: definition, type set, version, how, cut.
pub fn rd_agree(p: u64) {
    let mut p = P(p);
    let k = p.take(LAY);
    let t = types(p.take(6));
    let v = 1 + p.take(2) as u8;
    let how = p.take(2);
    let r = if foreign(k, t, 0).nrec().is_some() { choice(4) } else { 0 };
    let f = foreign_file(k, t, r, v, how, r as u32);
    put(F, &f.b);
    expect("agree");
    let Ok(mut fr) = FileReader::open(F) else { return };
    let mut all_ok = true;
    for x in f.m.vars.iter() {
        let w = fr.read_var(&x.name);
        let wt = read_var_t(&mut fr, &x.name, x.ty);
        let n = f.m.chunks(x);
        let cl = f.m.chunk_len(x);
        let sz = SZ[x.ty as usize];
        match (&w, &wt) {
            (Ok(a), Ok(b)) => check(dv_is(a, x.ty, b), "c16.typed-untyped"),
            (Err(a), Err(b)) => check(a == b, "c16.typed-untyped-error"),
            _ => fail("c16.typed-untyped"),
        }
        all_ok &= w.is_ok();
        for q in 0..n {
            let a = fr.read_record(&x.name, q);
            let b = read_rec_t(&mut fr, &x.name, x.ty, q);
            match (&a, &b) {
                (Ok(a), Ok(b)) => check(dv_is(a, x.ty, b), "c16.record-typed-untyped"),
                (Err(a), Err(b)) => check(a == b, "c16.record-typed-untyped-error"),
                _ => fail("c16.record-typed-untyped"),
            }
            if let Ok(w) = &wt {
                check(w.len() == n * cl * sz, "c16.whole-length");
                match &b {
                    Ok(b) => check(eq(b, &w[q * cl * sz..(q + 1) * cl * sz]), "c16.slice"),
                    Err(_) => fail("c16.record-refused"),
                }
            }
        }
        // any index that is not a record
        let i = u64v("index") as usize;
        assume(i >= n);
        let e = netcdf3::error::ReadError::RecordIndexExceeded { index: i, num_records: n };
        match fr.read_record(&x.name, i) {
            Ok(_) => fail("c16.index-accepted"),
            Err(g) => check(g == e, "c16.index-error"),
        }
        match read_rec_t(&mut fr, &x.name, x.ty, i) {
            Ok(_) => fail("c16.index-accepted"),
            Err(g) => check(g == e, "c16.index-error"),
        }
        // another type
        let o = 1 + x.ty % 6;
        check(read_var_t(&mut fr, &x.name, o).is_err() && read_rec_t(&mut fr, &x.name, o, 0).is_err(), "c16.other-type");
    }
    match fr.read_all_vars() {
        Err(_) => check(!all_ok, "c16.all-refused"),
        Ok(h) => {
            reach("agree");
            check(all_ok, "c16.all-accepted");
            check(h.len() == f.m.vars.len(), "c16.all-count");
            for x in f.m.vars.iter() {
                match (h.get(&x.name), read_var_t(&mut fr, &x.name, x.ty)) {
                    (Some(a), Ok(b)) => {
                        check(dv_is(a, x.ty, &b), "c16.all-value");
                        emit(&b);
                    }
                    _ => fail("c16.all-value"),
                }
            }
        }
    }
}

// ------------------------------------------------------------------ sequences of reads

#[derive(PartialEq)]
enum Out {
    Fail(netcdf3::error::ReadError),
    One(u8, Vec<u8>),
    All(Vec<Option<(u8, Vec<u8>)>>, usize),
}
fn one(r: Result<DataVector, netcdf3::error::ReadError>) -> Out {
    match r {
        Ok(d) => {
            let (t, b) = raw_dv(&d);
            Out::One(t, b)
        }
        Err(e) => Out::Fail(e),
    }
}
fn typed(t: u8, r: Result<Vec<u8>, netcdf3::error::ReadError>) -> Out {
    match r {
        Ok(b) => Out::One(t, b),
        Err(e) => Out::Fail(e),
    }
}
fn out_same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Fail(x), Out::Fail(y)) => x == y,
        (Out::One(t, x), Out::One(u, y)) => t == u && eq(x, y),
        (Out::All(x, n), Out::All(y, k)) => {
            n == k
                && x.len() == y.len()
                && x.iter().zip(y.iter()).all(|(p, q)| match (p, q) {
                    (Some((t, x)), Some((u, y))) => t == u && eq(x, y),
                    (None, None) => true,
                    _ => false,
                })
        }
        _ => false,
    }
}
/// The number of different reads of a file.
fn num_ops(m: &Set) -> usize {
    let mut n = 2;
    for x in m.vars.iter() {
        n += 4 + m.chunks(x);
    }
    n
}
fn do_op(f: &mut FileReader, m: &Set, op: usize) -> Out {
    if op == 0 {
        return match f.read_all_vars() {
            Ok(h) => {
                let n = h.len();
                Out::All(m.vars.iter().map(|x| h.get(&x.name).map(raw_dv)).collect(), n)
            }
            Err(e) => Out::Fail(e),
        };
    }
    if op == 1 {
        return one(f.read_var("nothing"));
    }
    let mut k = op - 2;
    for x in m.vars.iter() {
        let n = m.chunks(x);
        if k >= 4 + n {
            k -= 4 + n;
            continue;
        }
        return match k {
            0 => one(f.read_var(&x.name)),
            1 => typed(x.ty, read_var_t(f, &x.name, x.ty)),
            2 => typed(x.ty % 6 + 1, read_var_t(f, &x.name, x.ty % 6 + 1)),
            3 => one(f.read_record(&x.name, n)),
            _ if k % 2 == 0 => one(f.read_record(&x.name, k - 4)),
            _ => typed(x.ty, read_rec_t(f, &x.name, x.ty, k - 4)),
        };
    }
    Out::Fail(netcdf3::error::ReadError::Unexpected)
}
/// p: definition, type set, version, cut, number of reads.
pub fn rd_seq(p: u64) {
    let mut p = P(p);
    let k = p.take(LAY);
    let t = types(p.take(6));
    let v = 1 + p.take(2) as u8;
    let cut = p.take(4);
    let len = p.take(8);
    let r = if foreign(k, t, 0).nrec().is_some() { 2 } else { 0 };
    let m = foreign(k, t, r);
    let h = required(&m, v);
    let l = layout(&m, v, 0);
    let mut b = header(&m, v, r as u32, &l.vsizes, &l.begins);
    let d = bytes(l.size - h, "data");
    b.extend_from_slice(&d);
    if cut > 0 {
        // somewhere in the data
        let at = h + [(l.size - h) * 3 / 4, (l.size - h) / 2, 1][cut - 1];
        b.truncate(at);
    }
    put(F, &b);
    expect("sequence");
    let Ok(mut f) = FileReader::open(F) else {
        fail("c20.open");
        return;
    };
    let ops: Vec<usize> = (0..len).map(|_| choice(num_ops(&m))).collect();
    for op in ops.iter() {
        // the same read by a new reader
        let Ok(mut g) = FileReader::open(F) else {
            fail("c20.reopen");
            return;
        };
        let want = do_op(&mut g, &m, *op);
        let got = do_op(&mut f, &m, *op);
        check(out_same(&want, &got), "c20.changed-result");
        if let Out::One(_, b) = &got {
            emit(b);
        }
    }
    reach("sequence");
    same(f.data_set(), &m, "c20.data-set.");
    check(f.version() == ver(v), "c20.version");
    let after = get(F);
    check(after.len() == b.len() && eq(&after, &b), "c20.file-changed");
}

// ------------------------------------------------------------------ record counts

/// p: definition, type set, version, how (0: layouts, 1: one symbolic begin of any value,
/// 2: symbolic determinate count, 3: every file size).
pub fn rd_count(p: u64) {
    let mut p = P(p);
    let k = p.take(LAY);
    let t = types(p.take(6));
    let v = 1 + p.take(2) as u8;
    let how = p.take(4);
    let r = choice(3);
    if how == 2 {
        // a determinate count is used as it is, whatever the file size
        let f = foreign_file(k, t, r, v, 0, r as u32);
        let mut b = f.b.clone();
        let n = u32v("numrecs");
        assume(n <= 0x7fff_ffff);
        b[4..8].copy_from_slice(&n.to_be_bytes());
        put(F, &b);
        expect("determinate");
        match FileReader::open(F) {
            Err(_) => fail("c19.refused-determinate"),
            Ok(g) => {
                reach("determinate");
                match g.data_set().num_records() {
                    None => check(f.m.nrec().is_none(), "c19.determinate"),
                    Some(q) => check((q == n as usize) & f.m.nrec().is_some(), "c19.determinate"),
                }
            }
        }
        return;
    }
    let mut f = foreign_file(k, t, r, v, if how == 1 { 2 } else { 0 }, u32::MAX);
    if how == 1 {
        // the begin of one variable is any value at all
        let i = choice(f.m.vars.len());
        let l = header(&Set { vars: f.m.vars[..i + 1].to_vec(), ..f.m.clone() }, v, 0, &vec![0; i + 1], &f.begins[..i + 1]).len();
        let w = if v == 1 { 4 } else { 8 };
        let s = bytes(w, "begin");
        f.b[l - w..l].copy_from_slice(&s);
    }
    if how == 3 {
        let h = required(&f.m, v);
        let n = choice(f.b.len() - h + 9);
        f.b.resize(h + n, 7);
    }
    let b = f.b;
    let rf = reference(&b, true);
    put(F, &b);
    limits(b.len());
    let res = FileReader::open(F);
    limit(u64::MAX >> 1, u64::MAX >> 1);
    match rf {
        Ref::Malformed => check(res.is_err(), "c08.accepted-malformed"),
        Ref::NoCount => {
            reach("uncountable");
            match res {
                Ok(_) => fail("c19.accepted-uncountable"),
                Err(e) => check(e == netcdf3::error::ReadError::ComputationNumberOfRecords, "c19.error"),
            }
        }
        Ref::File(q) => match res {
            Err(_) => fail("c19.refused"),
            Ok(mut g) => {
                reach("counted");
                expect("counted");
                check(g.data_set().num_records() == q.m.nrec(), "c19.count");
                if let Some(n) = q.m.nrec() {
                    emit_u(n);
                }
                read_all(&mut g, &b, &q);
            }
        },
        _ => {}
    }
}

// ------------------------------------------------------------------ limits

/// Names of 255..257 bytes at every place, variables of 1023..1025 dimensions, many list entries.
/// p: what.
pub fn rd_limits(p: u64) {
    let mut m = Set::new();
    let long = |n: usize| {
        let mut s = String::from("n");
        while s.len() < n {
            s.push('k');
        }
        s
    };
    expect("conforming");
    match p {
        0..=3 => {
            let s = long(250 + choice(12));
            let z = |k: u64, d: &str| if k == p { s.clone() } else { d.to_string() };
            m.dims.push(dim(&z(0, "x"), 2));
            m.attrs.push(attr(&z(1, "a"), 2, vec![1]));
            let mut x = var(&z(2, "v"), 1, &[0]);
            x.attrs.push(attr(&z(3, "a"), 2, vec![1]));
            m.vars.push(x);
        }
        4 => {
            let n = [1023, 1024, 1025][choice(3)];
            let mut ids = vec![];
            for i in 0..n {
                let mut s = String::from("d");
                s.push((b'0' + (i / 1000) as u8) as char);
                s.push((b'0' + (i / 100 % 10) as u8) as char);
                s.push((b'0' + (i / 10 % 10) as u8) as char);
                s.push((b'0' + (i % 10) as u8) as char);
                m.dims.push(dim(&s, 1));
                ids.push(i);
            }
            m.vars.push(var("v", 1, &ids));
        }
        _ => {
            // more entries than fit in one buffer
            for i in 0..40u8 {
                let mut s = String::from("k");
                s.push((b'a' + i / 26) as char);
                s.push((b'a' + i % 26) as char);
                m.dims.push(dim(&s, 1 + i as usize % 3));
                m.attrs.push(attr(&s, 1 + i % 6, bytes(SZ[1 + i as usize % 6] * 2, "attr")));
                let mut x = var(&s, 1 + i % 6, &[i as usize]);
                if i % 5 == 0 {
                    x.attrs.push(attr("u", 2, bytes(i as usize, "attr")));
                }
                m.vars.push(x);
            }
        }
    }
    let v = 1 + choice(2) as u8;
    let b = file(&m, v, 0, &pattern(&m));
    if p == 4 {
        // the queries are compared elsewhere
        put(F, &b);
        match FileReader::open(F) {
            Ok(mut f) => {
                reach("conforming");
                check(m.dims.len() <= 1024, "c06.accepted-invalid");
                check(f.data_set().num_dims() == m.dims.len(), "c07.dim-count");
                check(f.data_set().get_var("v").map(|x| x.num_dims()) == Some(m.dims.len()), "c07.var-dims");
                check(f.read_var("v").map(|d| dv_is(&d, 1, &[0x12])) == Ok(true), "c07.data-var");
            }
            Err(_) => check(m.dims.len() > 1024, "c07.refused-conforming"),
        }
        return;
    }
    judge(&b, true, true);
}
