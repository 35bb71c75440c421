//! Writer-side harnesses: C01, C02, C03, C04, C09, C15, C16, C17, C18.

use crate::model::*;
use crate::sym::*;
use netcdf3::error::{ReadError, WriteError};
use netcdf3::*;

pub const F: &str = "f.nc";

/// Data-set shapes.  `ta`, `tb` are the types, `nx` the size of the fixed dimension x.
pub fn shape(k: usize, ta: u8, tb: u8, nx: usize, nr: usize) -> Set {
    let mut m = Set::new();
    match k {
        0 => m.vars.push(var("a", ta, &[])),
        1 => {
            m.dims.push(dim("x", nx));
            m.vars.push(var("a", ta, &[0]));
        }
        2 => {
            m.dims.push(unlim("t", nr));
            m.vars.push(var("a", ta, &[0]));
        }
        3 => {
            m.dims.push(unlim("t", nr));
            m.dims.push(dim("x", nx));
            m.vars.push(var("a", ta, &[0, 1]));
        }
        4 => {
            m.dims.push(dim("x", nx));
            m.dims.push(unlim("t", nr));
            m.vars.push(var("a", ta, &[1, 0]));
            m.vars.push(var("b", tb, &[1]));
        }
        5 => {
            m.dims.push(unlim("t", nr));
            m.dims.push(dim("x", nx));
            m.vars.push(var("b", tb, &[0]));
            m.vars.push(var("c", tb, &[1]));
            m.vars.push(var("a", ta, &[0, 1]));
        }
        6 => {
            m.dims.push(unlim("t", nr));
            m.dims.push(dim("x", nx));
            m.dims.push(dim("y", 2));
            m.vars.push(var("a", ta, &[0]));
            m.vars.push(var("s", tb, &[]));
            m.vars.push(var("b", tb, &[0, 2, 1]));
            m.vars.push(var("d", ta, &[1, 2]));
        }
        7 => {
            m.dims.push(unlim("t", nr));
            m.dims.push(dim("x", nx));
            m.vars.push(var("a", ta, &[1]));
            m.vars.push(var("b", tb, &[]));
        }
        _ => {
            m.dims.push(dim("x", nx));
            m.dims.push(dim("y", 2));
            m.dims.push(dim("z", 3));
            m.vars.push(var("a", ta, &[0, 1, 2]));
            m.vars.push(var("b", tb, &[2, 0]));
        }
    }
    confusable(m, k)
}
pub const SHAPES: u64 = 9;
/// Does the shape use the second type / the x size / the record count?
pub fn shape_uses(k: usize) -> (bool, bool, bool) {
    match k {
        0 => (false, false, false),
        1 => (false, true, false),
        2 => (false, false, true),
        3 => (false, true, true),
        8 => (true, true, false),
        _ => (true, true, true),
    }
}
/// A shape with every choice of the parameters it uses.
pub fn any_shape(k: usize, ta: u8, max_x: usize, max_r: usize) -> Set {
    let (ub, ux, ur) = shape_uses(k);
    let tb = if ub { 1 + choice(6) as u8 } else { 1 };
    let nx = if ux { 1 + choice(max_x) } else { 1 };
    let nr = if ur { choice(max_r + 1) } else { 0 };
    shape(k, ta, tb, nx, nr)
}
/// Symbolic values for every cell.
pub fn any_data(m: &Set) -> Data {
    m.vars.iter().map(|v| (0..m.chunks(v)).map(|_| Some(bytes(m.useful(v), "data"))).collect()).collect()
}
pub fn whole(d: &[Option<Vec<u8>>]) -> Vec<u8> {
    let mut o = vec![];
    for r in d {
        o.extend_from_slice(r.as_ref().unwrap());
    }
    o
}

/// Writes all the data. mode 0: whole variables; 1: last variable first, whole; otherwise by
/// record, in some order (2: ascending, 3: descending, 4: rotated), variable by variable for even
/// ones and interleaved over the variables in mode 5.
fn write_data(w: &mut FileWriter, m: &Set, d: &Data, mode: usize) {
    let n = m.vars.len();
    if mode == 5 {
        let most = m.nrec().unwrap_or(1).max(1);
        for r in 0..most {
            for (i, v) in m.vars.iter().enumerate() {
                if r < m.chunks(v) {
                    check(write_rec(w, &v.name, v.ty, r, d[i][r].as_ref().unwrap()).is_ok(), "write.record");
                }
            }
        }
        return;
    }
    for j in 0..n {
        let i = if mode == 1 { n - 1 - j } else { j };
        let v = &m.vars[i];
        if mode < 2 {
            check(write_var(w, &v.name, v.ty, &whole(&d[i])).is_ok(), "write.var");
        } else {
            let c = m.chunks(v);
            for q in 0..c {
                let r = match mode {
                    2 => q,
                    3 => c - 1 - q,
                    _ => (q + 1) % c,
                };
                check(write_rec(w, &v.name, v.ty, r, d[i][r].as_ref().unwrap()).is_ok(), "write.record");
            }
        }
    }
}

/// Every way of reading returns exactly the data.
pub fn read_back(r: &mut FileReader, m: &Set, d: &Data) {
    for (i, v) in m.vars.iter().enumerate() {
        let all = whole(&d[i]);
        match read_var_t(r, &v.name, v.ty) {
            Ok(b) => check(eq(&b, &all), "read.var-typed"),
            Err(_) => fail("read.var-typed"),
        }
        match r.read_var(&v.name) {
            Ok(x) => check(dv_is(&x, v.ty, &all), "read.var"),
            Err(_) => fail("read.var"),
        }
        for k in 0..m.chunks(v) {
            let b = d[i][k].as_ref().unwrap();
            match read_rec_t(r, &v.name, v.ty, k) {
                Ok(x) => check(eq(&x, b), "read.record-typed"),
                Err(_) => fail("read.record-typed"),
            }
            match r.read_record(&v.name, k) {
                Ok(x) => check(dv_is(&x, v.ty, b), "read.record"),
                Err(_) => fail("read.record"),
            }
        }
    }
    match r.read_all_vars() {
        Ok(h) => {
            check(h.len() == m.vars.len(), "read.all-count");
            for (i, v) in m.vars.iter().enumerate() {
                match h.get(&v.name) {
                    Some(x) => check(dv_is(x, v.ty, &whole(&d[i])), "read.all"),
                    None => fail("read.all"),
                }
            }
        }
        Err(_) => fail("read.all"),
    }
}

pub fn open(path: &str) -> Option<FileReader> {
    match FileReader::open(path) {
        Ok(r) => Some(r),
        Err(_) => {
            fail("open");
            None
        }
    }
}

/// C01: p = version, shape, type a.
pub fn c01_roundtrip(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(SHAPES);
    let ta = 1 + p.take(6) as u8;
    let (mx, mr) = if p.take(2) == 0 { (3, 2) } else { (5, 4) };
    let m = any_shape(k, ta, mx, mr);
    let mode = choice(6);
    let d = any_data(&m);
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), 0).is_ok(), "set_def");
    write_data(&mut w, &m, &d, mode);
    check(w.close().is_ok(), "close");
    expect("c01.read");
    if let Some(mut r) = open(F) {
        check(r.version() == ver(v), "version");
        reach("c01.read");
        read_back(&mut r, &m, &d);
    }
    emit(&get(F));
}

/// C03 for data: the file equals the reference encoding. p as C01.
pub fn c03_data(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(SHAPES);
    let ta = 1 + p.take(6) as u8;
    let (mx, mr) = if p.take(2) == 0 { (3, 2) } else { (5, 3) };
    let m = any_shape(k, ta, mx, mr);
    let l = layout(&m, v, 0);
    let hmin = match choice(4) {
        0 => 0,
        1 => l.required + 1,
        2 => l.required + 6,
        _ => 300,
    };
    let mut d = any_data(&m);
    let mode = choice(3);
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), hmin).is_ok(), "set_def");
    match mode {
        0 => write_data(&mut w, &m, &d, 0),
        1 => write_data(&mut w, &m, &d, 3),
        _ => d = no_data(&m),
    }
    check(w.close().is_ok(), "close");
    conforms(&m, v, hmin, &d);
}

/// The file is byte for byte what the specification prescribes.
pub fn conforms(m: &Set, v: u8, hmin: usize, d: &Data) {
    let got = get(F);
    let want = file(m, v, hmin, d);
    check(got.len() == want.len(), "c03.size");
    let h = layout(m, v, hmin).header;
    check(got.len() >= h && eq(&got[..h], &want[..h]), "c03.header");
    check(eq(&got, &want), "c03.data");
    expect("c03.file");
    reach("c03.file");
    emit(&got);
    if m.special() && m.nrec().unwrap_or(0) > 0 {
        // the specification stores the records of a sole 1- or 2-byte record variable unpadded
        let x = m.vars.iter().position(|x| m.is_rec(x)).unwrap();
        let (u, c) = (m.useful(&m.vars[x]), m.chunk_size(&m.vars[x]));
        let lack = m.nrec().unwrap() * (c - u);
        check(got.len() == want.len() - lack, "c03.sole-record-variable-padding");
    }
}

// ------------------------------------------------------------------ definitions

/// A name of `n` bytes: a fixed first letter, then symbolic lower-case letters.
pub fn any_name(first: char, n: usize) -> String {
    let mut b = vec![first as u8];
    let s = bytes(n - 1, "name");
    let mut ok = true;
    for x in s.iter() {
        ok &= (*x >= b'a') & (*x <= b'z');
    }
    assume(ok);
    b.extend_from_slice(&s);
    unsafe { String::from_utf8_unchecked(b) }
}

pub const DEFS: u64 = 9;
/// Definitions that exercise every part of the header.
pub fn any_def(k: usize, sub: usize, deep: bool) -> Set {
    let mut m = Set::new();
    match k {
        // nothing at all
        0 => {}
        // dimensions only: 1..=3 dimensions of any size, the unlimited one anywhere or nowhere
        1 => {
            let n = 1 + choice(3);
            let u = choice(n + 1);
            let long = choice(n);
            for i in 0..n {
                let len = if deep || i == long { 1 + choice(5) } else { 1 };
                let nm = any_name((b'a' + i as u8) as char, len);
                let size = u32v("size") as usize;
                if i == u {
                    assume(size <= 0x7fff_ffff);
                    m.dims.push(unlim(&nm, size));
                } else {
                    assume((size >= 1) & (size <= NC_MAX_DIM_SIZE));
                    m.dims.push(dim(&nm, size));
                }
            }
        }
        // one global attribute, any type and 0..=9 elements
        2 => {
            let t = 1 + sub as u8;
            let n = choice(10);
            let nm = any_name('a', 1 + choice(5));
            m.attrs.push(sattr(&nm, t, n));
        }
        // several global attributes
        3 => {
            let t = 1 + sub as u8;
            let n = choice(4);
            m.attrs.push(sattr("q", 1 + choice(6) as u8, n));
            m.attrs.push(sattr("rr", t, 1 + choice(3)));
            m.attrs.push(sattr("p", 1 + ((t as usize + n) % 6) as u8, 2));
        }
        // a variable with every list of dimensions, and attributes
        4 => {
            m.dims.push(dim("x", 2));
            m.dims.push(unlim("t", 1));
            m.dims.push(dim("y", 3));
            let l: &[&[usize]] = &[&[], &[0], &[1], &[2], &[0, 2], &[2, 0], &[1, 0], &[1, 2], &[1, 0, 2], &[1, 2, 0]];
            let nm = any_name('v', if deep { 1 + choice(5) } else { 1 + 3 * choice(2) });
            let mut v = var(&nm, 1 + sub as u8, l[choice(l.len())]);
            if choice(2) == 1 {
                let t = if deep { choice(6) } else { (sub + 1) % 6 };
                v.attrs.push(sattr("u", 1 + t as u8, choice(4)));
            }
            m.vars.push(v);
        }
        // two variables sharing attribute names, plus a global attribute of the same name
        5 => {
            m.dims.push(unlim("t", 2));
            m.attrs.push(sattr("u", 2, 3));
            let t = 1 + sub as u8;
            let mut a = var("va", t, &[0]);
            a.attrs.push(sattr("u", t, 1 + choice(3)));
            a.attrs.push(sattr("w", 1 + choice(6) as u8, 2));
            let mut b = var("b", 1 + if deep { choice(6) } else { 3 * choice(2) } as u8, &[]);
            b.attrs.push(sattr("w", t, if deep { choice(3) } else { 2 * choice(2) }));
            b.attrs.push(sattr("u", 2, 5));
            m.vars.push(b);
            m.vars.push(a);
        }
        // long names and non-ASCII names
        6 => {
            let l = [5, 252, 253, 254, 255, 256][sub];
            let mut s = any_name('n', 3);
            while s.len() + 2 <= l {
                s.push('é');
            }
            while s.len() < l {
                s.push('.');
            }
            m.dims.push(dim(&s, 2));
            m.dims.push(dim("€", 1));
            m.attrs.push(attr(&s, 2, bytes(choice(5), "u")));
            let mut v = var(&s, 3, &[1, 0]);
            v.attrs.push(attr(&s, 4, bytes(4, "w")));
            m.vars.push(v);
        }
        // headers larger than one or two read buffers
        7 => {
            m.dims.push(dim("x", 1));
            m.attrs.push(sattr("g", 2, [980, 1003, 1010, 1990, 2040, 3100][sub] + choice(12)));
            let mut v = var("v", 6, &[0]);
            v.attrs.push(sattr("w", 6, 2));
            m.vars.push(v);
            m.vars.push(var("w", 3, &[]));
        }
        // many variables
        _ => {
            m.dims.push(dim("x", 3));
            m.dims.push(unlim("t", 2));
            for i in 0..(3 + 2 * sub) {
                let mut v = var(&cat("v", &((b'a' + i as u8) as char).to_string()), 1 + (i % 6) as u8, if i % 3 == 0 { &[0] } else { &[1, 0] });
                if i % 2 == 0 {
                    v.attrs.push(sattr("a", 1 + ((i + sub) % 6) as u8, 1 + i % 4));
                }
                m.vars.push(v);
            }
        }
    }
    m
}
fn any_hmin(req: usize) -> usize {
    match choice(6) {
        0 => 0,
        1 => req,
        2 => req + 1,
        3 => req + 5,
        4 => 1030,
        _ => req - 1,
    }
}

/// C02: p = version, definition kind, sub.
pub fn c02_definition(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(DEFS);
    let sub = p.take(6);
    let m = any_def(k, sub, p.take(2) == 1);
    let hmin = any_hmin(required(&m, v));
    let ds = build(&m);
    same(&ds, &m, "built.");
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), hmin).is_ok(), "set_def");
    // closing would fill huge fixed-size variables: none is defined by these kinds
    check(w.close().is_ok(), "close");
    expect("c02.read");
    if let Some(r) = open(F) {
        reach("c02.read");
        check(r.version() == ver(v), "version");
        check(r.file_path() == std::path::Path::new(F), "path");
        same(r.data_set(), &m, "read.");
        let (d2, v2) = r.close();
        check(v2 == ver(v), "version");
        check(d2.num_vars() == m.vars.len() && d2.num_dims() == m.dims.len(), "read.released");
    }
    emit(&get(F));
}

/// C03 for definitions: p as C02.
pub fn c03_definition(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(DEFS);
    let sub = p.take(6);
    let m = any_def(k, sub, p.take(2) == 1);
    let hmin = any_hmin(required(&m, v));
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), hmin).is_ok(), "set_def");
    check(w.close().is_ok(), "close");
    conforms(&m, v, hmin, &no_data(&m));
}

// ------------------------------------------------------------------ histories of writes

/// One operation of a history, applied to the writer and to the model.
fn any_write(w: &mut FileWriter, m: &Set, d: &mut Data, fails: bool) {
    let mut n = 0;
    for v in m.vars.iter() {
        n += 1 + m.chunks(v);
    }
    let mut o = choice(n + if fails { 4 } else { 0 });
    if o >= n {
        // refused writes: they must leave no trace
        let v = &m.vars[choice(m.vars.len())];
        let u = m.useful(v);
        let r = match o - n {
            0 => write_var(w, &v.name, v.ty, &bytes(m.chunks(v) * u + SZ[v.ty as usize], "bad")),
            1 => write_rec(w, &v.name, v.ty, m.chunks(v), &bytes(u, "bad")),
            2 => write_rec(w, &v.name, v.ty, 0, &bytes(u - SZ[v.ty as usize], "bad")),
            _ => write_var(w, &v.name, v.ty % 6 + 1, &bytes(m.chunks(v) * m.chunk_len(v) * SZ[(v.ty % 6 + 1) as usize], "bad")),
        };
        check(r.is_err(), "refused");
        return;
    }
    for (i, v) in m.vars.iter().enumerate() {
        let c = m.chunks(v);
        if o == 0 {
            for r in 0..c {
                d[i][r] = Some(bytes(m.useful(v), "data"));
            }
            check(write_var(w, &v.name, v.ty, &whole(&d[i])).is_ok(), "write.var");
            return;
        }
        o -= 1;
        if o < c {
            let b = bytes(m.useful(v), "data");
            check(write_rec(w, &v.name, v.ty, o, &b).is_ok(), "write.record");
            d[i][o] = Some(b);
            return;
        }
        o -= c;
    }
}

pub const HIST: u64 = 8;
fn hist_shape(k: usize) -> Set {
    let mut m = Set::new();
    m.dims.push(unlim("t", [2, 2, 3, 1, 0, 2, 2, 3][k]));
    m.dims.push(dim("x", [3, 1, 1, 2, 3, 2, 3, 5][k]));
    let (a, b, c) = [(1, 3, 4), (3, 6, 2), (2, 5, 3), (4, 1, 1), (3, 2, 5), (6, 1, 3), (5, 3, 2), (1, 2, 6)][k];
    match k {
        1 | 5 => {
            m.vars.push(var("f", c, &[1]));
            m.vars.push(var("a", a, &[0, 1]));
            m.vars.push(var("b", b, &[0]));
        }
        2 => {
            m.vars.push(var("a", a, &[0]));
        }
        3 => {
            m.vars.push(var("a", a, &[0, 1]));
            m.vars.push(var("f", c, &[]));
            m.vars.push(var("g", b, &[1]));
        }
        7 => {
            m.vars.push(var("a", a, &[0, 1]));
            m.vars.push(var("b", b, &[0]));
        }
        _ => {
            m.vars.push(var("a", a, &[0, 1]));
            m.vars.push(var("f", c, &[1]));
            m.vars.push(var("b", b, &[0]));
        }
    }
    confusable(m, k)
}
/// C04: p = shape, version, failing writes?, number of writes.
pub fn c04_history(p: u64) {
    let mut p = P(p);
    let m = hist_shape(p.take(HIST));
    let v = 1 + p.take(2) as u8;
    let fails = p.take(2) == 1;
    let n = p.take(8);
    let mut d = no_data(&m);
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), 0).is_ok(), "set_def");
    for _ in 0..n {
        any_write(&mut w, &m, &mut d, fails);
    }
    check(w.close().is_ok(), "close");
    expect("c04.file");
    reach("c04.file");
    let want = file(&m, v, 0, &d);
    let got = get(F);
    check(got.len() == want.len(), "c04.size");
    check(eq(&got, &want), "c04.cells");
    // and through the reader
    let full: Data = d
        .iter()
        .zip(m.vars.iter())
        .map(|(l, v)| l.iter().map(|c| Some(c.clone().unwrap_or_else(|| fill_bytes(v.ty, m.useful(v))))).collect())
        .collect();
    if let Some(mut r) = open(F) {
        for (i, v) in m.vars.iter().enumerate() {
            match r.read_var(&v.name) {
                Ok(x) => check(dv_is(&x, v.ty, &whole(&full[i])), "c04.read"),
                Err(_) => fail("c04.read"),
            }
        }
    }
    emit(&got);
}

// ------------------------------------------------------------------ refused accesses

/// Which error a write must produce, in the order the library documents.
fn ctx_unchanged(before: &[u8]) {
    let after = get(F);
    check(after.len() == before.len() && eq(&after, before), "c15.file-changed");
}
/// Writes with any type, length and record index. p = shape, access type, version, x.
pub fn c15_write(p: u64) {
    let mut p = P(p);
    let k = p.take(SHAPES);
    let t = 1 + p.take(6) as u8;
    let v = 1 + p.take(2) as u8;
    let m = shape(k, 1 + choice(6) as u8, 1 + choice(6) as u8, 1 + choice(2), choice(3));
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), 0).is_ok(), "set_def");
    let i = choice(m.vars.len());
    let x = &m.vars[i];
    let sz = SZ[t as usize];
    let before = get(F);
    expect("c15.accepted");
    expect("c15.refused");
    if choice(2) == 0 {
        let total = m.chunks(x) * m.chunk_len(x);
        let n = match choice(5) {
            0 => total,
            1 => total + 1,
            2 => total.wrapping_sub(1).min(9),
            3 => 0,
            _ => m.chunk_len(x),
        };
        let b = bytes(n * sz, "d");
        match write_var(&mut w, &x.name, t, &b) {
            Ok(()) => {
                check(t == x.ty && n == total, "c15.var-accepted");
                reach("c15.accepted");
            }
            Err(e) => {
                check(!(t == x.ty && n == total), "c15.var-refused");
                reach("c15.refused");
                if t != x.ty {
                    check(e == WriteError::VariableMismatchDataType { var_name: x.name.clone(), req: dtype(x.ty), get: dtype(t) }, "c15.var-type-error");
                } else {
                    check(e == WriteError::VariableMismatchDataLength { var_name: x.name.clone(), req: total, get: n }, "c15.var-length-error");
                }
                ctx_unchanged(&before);
            }
        }
    } else {
        let cl = m.chunk_len(x);
        let n = match choice(4) {
            0 => cl,
            1 => cl + 1,
            2 => cl - 1,
            _ => cl * 2,
        };
        let idx = u64v("index") as usize;
        let b = bytes(n * sz, "d");
        let good = t == x.ty && n == cl && idx < m.chunks(x);
        match write_rec(&mut w, &x.name, t, idx, &b) {
            Ok(()) => {
                check(good, "c15.record-accepted");
                reach("c15.accepted");
            }
            Err(e) => {
                check(!good, "c15.record-refused");
                reach("c15.refused");
                match e {
                    WriteError::VariableMismatchDataType { var_name, req, get } => {
                        check(t != x.ty && var_name == x.name && tnum(&req) == x.ty && tnum(&get) == t, "c15.record-type-error")
                    }
                    WriteError::RecordIndexExceeded { index, num_records } => check((idx >= m.chunks(x)) & (index == idx) & (num_records == m.chunks(x)), "c15.record-index-error"),
                    WriteError::RecordMismatchDataLength { var_name, req, get } => check(n != cl && var_name == x.name && req == cl && get == n, "c15.record-length-error"),
                    _ => fail("c15.record-error"),
                }
                ctx_unchanged(&before);
            }
        }
    }
    emit(&get(F));
}
/// Undefined names are refused. p = shape, version.
pub fn c15_name(p: u64) {
    let mut p = P(p);
    let k = p.take(SHAPES);
    let v = 1 + p.take(2) as u8;
    let t = 1 + choice(6) as u8;
    let m = shape(k, t, t, 1, 1);
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), 0).is_ok(), "set_def");
    let before = get(F);
    let nb = bytes(choice(3), "name");
    let mut ok = true;
    for b in nb.iter() {
        ok &= *b < 0x80;
    }
    assume(ok);
    let name = unsafe { String::from_utf8_unchecked(nb) };
    let mut known = None;
    for (i, x) in m.vars.iter().enumerate() {
        if x.name == name {
            known = Some(i);
        }
    }
    let data = bytes(SZ[t as usize], "d");
    expect("c15.unknown");
    let e = if choice(2) == 0 { write_var(&mut w, &name, t, &data) } else { write_rec(&mut w, &name, t, 0, &data) };
    match known {
        None => {
            reach("c15.unknown");
            check(e == Err(WriteError::VariableNotDefined(name.clone())), "c15.unknown-name");
            ctx_unchanged(&before);
        }
        Some(i) => {
            let x = &m.vars[i];
            if m.chunk_len(x) == 1 {
                check(e.is_ok(), "c15.known-name");
            }
            return;
        }
    }
    check(w.close().is_ok(), "close");
    if let Some(mut r) = open(F) {
        check(r.read_var(&name) == Err(ReadError::VariableNotDefined(name.clone())), "c15.unknown-read");
        check(r.read_record(&name, 0) == Err(ReadError::VariableNotDefined(name.clone())), "c15.unknown-read");
        check(read_var_t(&mut r, &name, t) == Err(ReadError::VariableNotDefined(name.clone())), "c15.unknown-read");
        check(read_rec_t(&mut r, &name, t, 0) == Err(ReadError::VariableNotDefined(name.clone())), "c15.unknown-read");
    }
    emit(&get(F));
}
/// Reads with any type and any record index. p = shape, access type, version.
pub fn c15_read(p: u64) {
    let mut p = P(p);
    let k = p.take(SHAPES);
    let t = 1 + p.take(6) as u8;
    let v = 1 + p.take(2) as u8;
    let m = shape(k, 1 + choice(6) as u8, 1 + choice(6) as u8, 1 + choice(2), choice(3));
    let d = any_data(&m);
    put(F, &file(&m, v, 0, &d));
    let Some(mut r) = open(F) else { return };
    let i = choice(m.vars.len());
    let x = &m.vars[i];
    let n = m.chunks(x);
    expect("c15.read-accepted");
    expect("c15.read-refused");
    let mism = ReadError::VariableMismatchDataType { var_name: x.name.clone(), req: dtype(x.ty), get: dtype(t) };
    match choice(3) {
        0 => match read_var_t(&mut r, &x.name, t) {
            Ok(b) => {
                check(t == x.ty && eq(&b, &whole(&d[i])), "c15.read-var");
                reach("c15.read-accepted");
            }
            Err(e) => {
                check(t != x.ty && e == mism, "c15.read-var-error");
                reach("c15.read-refused");
            }
        },
        c => {
            let idx = u64v("index") as usize;
            let res = if c == 1 {
                read_rec_t(&mut r, &x.name, t, idx)
            } else {
                r.read_record(&x.name, idx).map(|q| {
                    let (ty, b) = raw_dv(&q);
                    check(ty == x.ty, "c15.read-record-type");
                    b
                })
            };
            let typed = c == 1 && t != x.ty;
            match res {
                Ok(b) => {
                    reach("c15.read-accepted");
                    check(!typed && idx < n, "c15.read-record");
                    let q = conc(idx as u64) as usize;
                    check(q < n && eq(&b, d[i][q].as_ref().unwrap()), "c15.read-record-value");
                }
                Err(e) => {
                    reach("c15.read-refused");
                    match e {
                        ReadError::RecordIndexExceeded { index, num_records } => check((idx >= n) & (index == idx) & (num_records == n), "c15.read-index-error"),
                        e => check(typed && e == mism, "c15.read-record-error"),
                    }
                }
            }
        }
    }
}
