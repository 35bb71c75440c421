//! Names (C13), the writer's life cycle (C17), large sizes (C18), conversions (C21).

use crate::io::{any_data, any_shape, open, read_back, shape, whole, F};
use crate::model::*;
use crate::rd::name_bad;
use crate::sym::*;
use netcdf3::error::{ReadError, WriteError};
use netcdf3::*;
use std::convert::TryFrom;
use InvalidDataSet as E;

// ------------------------------------------------------------------ C13

/// The definition of well-formed UTF-8 (RFC 3629), without branches.
pub fn utf8_ok(b: &[u8]) -> bool {
    let n = b.len();
    let mut ok = vec![false; n + 1];
    ok[n] = true;
    let tail = |i: usize| i < n && true;
    for i in (0..n).rev() {
        let c = b[i];
        let at = |j: usize| if tail(j) { b[j] } else { 0 };
        let cont = |j: usize| (at(j) & 0xC0) == 0x80;
        let next = |j: usize| j <= n && ok[j.min(n)];
        let second = at(i + 1);
        let two = (c >= 0xC2) & (c <= 0xDF) & cont(i + 1) & next(i + 2);
        let low3 = if_else(c == 0xE0, 0xA0, 0x80);
        let high3 = if_else(c == 0xED, 0x9F, 0xBF);
        let three = (c >= 0xE0) & (c <= 0xEF) & (second >= low3) & (second <= high3) & cont(i + 2) & next(i + 3);
        let low4 = if_else(c == 0xF0, 0x90, 0x80);
        let high4 = if_else(c == 0xF4, 0x8F, 0xBF);
        let four = (c >= 0xF0) & (c <= 0xF4) & (second >= low4) & (second <= high4) & cont(i + 2) & cont(i + 3) & next(i + 4);
        ok[i] = ((c < 0x80) & next(i + 1)) | two | three | four;
    }
    ok[0]
}
fn if_else(c: bool, a: u8, b: u8) -> u8 {
    let m = (c as u8).wrapping_neg();
    (a & m) | (b & !m)
}
fn text(b: Vec<u8>) -> String {
    assume(utf8_ok(&b));
    unsafe { String::from_utf8_unchecked(b) }
}

/// is_valid_name on every string of n bytes. p = n.
pub fn c13_valid(p: u64) {
    let s = text(bytes(p as usize, "name"));
    let ok = is_valid_name(&s);
    check(ok == !name_bad(s.as_bytes()), "c13.is-valid-name");
    for l in ["c13.valid", "c13.not-valid"] {
        if p > 0 || l == "c13.not-valid" {
            expect(l);
        }
    }
    reach(if ok { "c13.valid" } else { "c13.not-valid" });
    emit(&[ok as u8]);
}
/// Names around the maximum length: p = length - 253, then which character stands last.
pub fn c13_long(p: u64) {
    let mut p = P(p);
    let n = 253 + p.take(6);
    let last = [vec![], vec![0xC3, 0xA9], vec![0xE2, 0x82, 0xAC], vec![0xF0, 0x9F, 0x92, 0x96]][p.take(4)].clone();
    let mut b = vec![b'n'; n - last.len()];
    let q = [0, 1, 100, b.len() - 2][choice(4)];
    b[q] = u8v("byte");
    assume(b[q] < 0x80);
    b.extend_from_slice(&last);
    let s = unsafe { String::from_utf8_unchecked(b) };
    let ok = is_valid_name(&s);
    check(ok == !name_bad(s.as_bytes()), "c13.is-valid-name");
    // and in the definition
    let mut d = DataSet::new();
    check(d.add_fixed_dim(&s, 1).is_ok() == ok, "c13.dim");
    check(d.add_var_i8::<&str>(&s, &[]).is_ok() == ok, "c13.var");
    check(d.add_global_attr_u8(&s, vec![]).is_ok() == ok, "c13.gattr");
    emit(&[ok as u8]);
}
/// Every operation that introduces a name. p = operation, number of symbolic bytes.
pub fn c13_entry(p: u64) {
    let mut p = P(p);
    let k = p.take(32);
    let n = p.take(8);
    let b = if n < 5 {
        bytes(n, "name")
    } else {
        // a longest name and one that is too long, with one character that may be bad
        let mut b = vec![b'm'; 251 + n];
        b[if choice(2) == 0 { 0 } else { 200 }] = u8v("byte");
        b
    };
    let s = text(b);
    let bad = name_bad(s.as_bytes());
    // names in use are the business of C10 to C12
    for x in ["Dim", "Tim", "Var", "Att", "Vat"] {
        assume(!eq(s.as_bytes(), x.as_bytes()));
    }
    let mut m = Set::new();
    m.dims.push(dim("Dim", 2));
    m.dims.push(unlim("Tim", 1));
    m.attrs.push(attr("Att", 1, vec![7]));
    let mut v = var("Var", 4, &[1, 0]);
    v.attrs.push(attr("Vat", 3, vec![0, 1]));
    m.vars.push(v);
    if k == 1 {
        m.dims.pop();
        m.vars[0].dims = vec![0];
    }
    let mut d = build(&m);
    let ty = |k: usize| 1 + (k % 6) as u8;
    let a = |k: usize| attr(&s, ty(k), vec![0; SZ[ty(k) as usize]]);
    let (r, e, lab): (Result<(), E>, E, &str) = match k {
        0 => (d.add_fixed_dim(&s, 3), E::DimensionNameNotValid(s.clone()), "c13.add-fixed-dim"),
        1 => (d.set_unlimited_dim(&s, 3), E::DimensionNameNotValid(s.clone()), "c13.set-unlimited-dim"),
        2 => (d.rename_dim("Dim", &s), E::DimensionNameNotValid(s.clone()), "c13.rename-dim"),
        3 => (d.rename_var("Var", &s), E::VariableNameNotValid(s.clone()), "c13.rename-var"),
        4 => (d.rename_global_attr("Att", &s), E::GlobalAttributeNameNotValid(s.clone()), "c13.rename-global-attr"),
        5 => (d.rename_var_attr("Var", "Vat", &s), E::VariableAttributeNameNotValid { var_name: "Var".into(), attr_name: s.clone() }, "c13.rename-var-attr"),
        6 => (d.add_global_attr_string(&s, "x"), E::GlobalAttributeNameNotValid(s.clone()), "c13.add-global-attr"),
        7 => (d.add_var_attr_string("Var", &s, "x"), E::VariableAttributeNameNotValid { var_name: "Var".into(), attr_name: s.clone() }, "c13.add-var-attr"),
        8 => (d.get_var_mut("Var").unwrap().add_attr_string(&s, "x"), E::VariableAttributeNameNotValid { var_name: "Var".into(), attr_name: s.clone() }, "c13.add-var-attr"),
        9..=14 => (add_gattr(&mut d, &a(k)), E::GlobalAttributeNameNotValid(s.clone()), "c13.add-global-attr"),
        15..=20 => (add_vattr(&mut d, "Var", &a(k)), E::VariableAttributeNameNotValid { var_name: "Var".into(), attr_name: s.clone() }, "c13.add-var-attr"),
        21..=26 => {
            let v = Var { name: s.clone(), ty: ty(k), dims: vec![0], attrs: vec![] };
            (add_var(&mut d, &m, &v), E::VariableNameNotValid(s.clone()), "c13.add-var")
        }
        _ => (d.add_var(&s, &["Dim"], dtype(ty(k))), E::VariableNameNotValid(s.clone()), "c13.add-var"),
    };
    expect(lab);
    match r {
        Ok(()) => {
            reach(lab);
            check(!bad, &cat(lab, ".accepted"));
            let has = match k {
                0 | 1 | 2 => d.has_dim(&s),
                3 | 21..=31 => d.has_var(&s),
                4 | 6 | 9..=14 => d.has_global_attr(&s),
                _ => d.has_var_attr("Var", &s) == Some(true),
            };
            check(has, &cat(lab, ".effect"));
            if n < 4 {
                // and it is also written and read
                let ds = &d;
                let mut w = FileWriter::create_new(F).unwrap();
                check(w.set_def(ds, Version::Classic, 0).is_ok(), "c13.set_def");
                check(w.close().is_ok(), "c13.close");
                if let Some(r) = open(F) {
                    let d = r.data_set();
                    let has = match k {
                        0 | 1 | 2 => d.has_dim(&s),
                        3 | 21..=31 => d.has_var(&s),
                        4 | 6 | 9..=14 => d.has_global_attr(&s),
                        _ => d.has_var_attr("Var", &s) == Some(true),
                    };
                    check(has, "c13.read");
                }
            }
        }
        Err(x) => {
            check(bad, &cat(lab, ".refused"));
            check(x == e, &cat(lab, ".error"));
            same(&d, &m, "c13.");
        }
    }
    emit(s.as_bytes());
}

// ------------------------------------------------------------------ C17

/// Any of the twelve writes, with any of a few names, indices and lengths.
fn some_write(w: &mut FileWriter) -> Result<(), WriteError> {
    let t = 1 + choice(6) as u8;
    let b = vec![1u8; SZ[t as usize] * 2];
    let name = ["a", "q", ""][choice(3)];
    if choice(2) == 0 {
        write_var(w, name, t, &b)
    } else {
        write_rec(w, name, t, choice(2), &b)
    }
}
fn not_defined(w: &FileWriter) {
    check(!w.header_is_defined() && w.data_set().is_none() && w.version().is_none() && w.header_min_size().is_none(), "c17.accessors");
    check(w.file_path() == std::path::Path::new(F), "c17.path");
}
fn defined(w: &FileWriter, d: &DataSet, v: u8, hmin: usize) {
    check(w.header_is_defined(), "c17.accessors");
    check(w.data_set().map(|x| std::ptr::eq(x, d)) == Some(true), "c17.accessors");
    check(w.version() == Some(ver(v)) && w.header_min_size() == Some(hmin), "c17.accessors");
    check(w.file_path() == std::path::Path::new(F), "c17.path");
}

/// p = scenario, version, shape.
pub fn c17_life(p: u64) {
    let mut p = P(p);
    let k = p.take(8);
    let v = 1 + p.take(2) as u8;
    let sh = p.take(9);
    let other = bytes(9, "other");
    put("g.nc", &other);
    let hmin = [0, 77, 2000][choice(3)];
    match k {
        // an existing file: create_new refuses it and leaves it alone
        0 => {
            let old = bytes(choice(4) * 3, "old");
            put(F, &old);
            match FileWriter::create_new(F) {
                Ok(_) => fail("c17.create-new-exists"),
                Err(e) => check(e == WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists), "c17.create-new-error"),
            }
            check(eq(&get(F), &old), "c17.create-new-changed");
        }
        // before the definition: nothing is accepted, nothing is written
        1 => {
            let how = choice(3);
            if how == 2 {
                put(F, &bytes(5, "old"));
            }
            let mut w = if how == 0 { FileWriter::create_new(F).unwrap() } else { FileWriter::open(F).unwrap() };
            check(fsize(F) == Some(0), "c17.open-truncates");
            for _ in 0..choice(3) {
                not_defined(&w);
                check(some_write(&mut w) == Err(WriteError::HeaderNotDefined), "c17.header-not-defined");
                check(fsize(F) == Some(0), "c17.header-not-defined-changed");
            }
            not_defined(&w);
            if choice(2) == 0 {
                check(w.close().is_ok(), "c17.close-undefined");
            } else {
                drop(w);
            }
            check(fsize(F) == Some(0), "c17.close-undefined-changed");
        }
        // a definition is set once
        2 | 3 => {
            let m = if k == 2 { shape(sh, 1 + choice(6) as u8, 3, 2, 2) } else { any_shape(sh, 3, 2, 1) };
            let ds = build(&m);
            let mut m2 = Set::new();
            m2.dims.push(dim("k", 3));
            m2.vars.push(var("a", 6, &[0]));
            let ds2 = build(&m2);
            let mut w = FileWriter::open(F).unwrap();
            not_defined(&w);
            check(w.set_def(&ds, ver(v), hmin).is_ok(), "c17.set_def");
            defined(&w, &ds, v, hmin);
            let l = layout(&m, v, hmin);
            let h = header(&m, v, numrecs(&m), &l.vsizes, &l.begins);
            check(fsize(F) == Some(l.header as u64) && eq(&get(F)[..h.len()], &h), "c17.set_def-file");
            let d = any_data(&m);
            let n = m.vars.len();
            let when = choice(n + 1);
            for i in 0..=n {
                if i == when {
                    let before = get(F);
                    let (x, y, z) = match choice(4) {
                        0 => (&ds, v, hmin),
                        1 => (&ds2, v, hmin),
                        2 => (&ds, 3 - v, hmin),
                        _ => (&ds2, v, 500),
                    };
                    check(w.set_def(x, ver(y), z) == Err(WriteError::HeaderAlreadyDefined), "c17.header-already-defined");
                    check(eq(&get(F), &before), "c17.second-set_def-changed");
                    defined(&w, &ds, v, hmin);
                }
                if i < n {
                    let x = &m.vars[i];
                    check(write_var(&mut w, &x.name, x.ty, &whole(&d[i])).is_ok(), "c17.write");
                    defined(&w, &ds, v, hmin);
                }
            }
            if choice(2) == 0 {
                check(w.close().is_ok(), "c17.close");
                check(eq(&get(F), &file(&m, v, hmin, &d)), "c17.file");
                if let Some(mut r) = open(F) {
                    check(r.version() == ver(v), "c17.version");
                    check(r.file_path() == std::path::Path::new(F), "c17.path");
                    read_back(&mut r, &m, &d);
                }
            } else {
                // everything was written: nothing is missing even if the writer is dropped
                drop(w);
                check(eq(&get(F), &file(&m, v, hmin, &d)), "c17.file");
            }
        }
        // a definition that the classic version cannot hold leaves the writer as it was
        4 => {
            let mut m = Set::new();
            m.dims.push(dim("x", 2147483644));
            m.vars.push(var("a", 1, &[0]));
            m.vars.push(var("b", 1, &[]));
            let ds = build(&m);
            let mut w = FileWriter::create_new(F).unwrap();
            check(w.set_def(&ds, Version::Classic, hmin) == Err(WriteError::ClassicVersionNotPossible), "c17.classic");
            check(fsize(F) == Some(0), "c17.classic-changed");
            not_defined(&w);
            check(some_write(&mut w) == Err(WriteError::HeaderNotDefined), "c17.header-not-defined");
            let m2 = shape(sh, 3, 1, 2, 1);
            let ds2 = build(&m2);
            let d = any_data(&m2);
            if choice(2) == 0 {
                check(w.set_def(&ds2, ver(v), hmin).is_ok(), "c17.set_def");
                defined(&w, &ds2, v, hmin);
                for (x, y) in m2.vars.iter().zip(d.iter()) {
                    check(write_var(&mut w, &x.name, x.ty, &whole(y)).is_ok(), "c17.write");
                }
                check(w.close().is_ok(), "c17.close");
                check(eq(&get(F), &file(&m2, v, hmin, &d)), "c17.file");
            } else {
                check(w.set_def(&ds, Version::Offset64Bit, 0).is_ok(), "c17.set_def");
                defined(&w, &ds, 2, 0);
                let l = layout(&m, 2, 0);
                check(eq(&get(F), &header(&m, 2, 0, &l.vsizes, &l.begins)), "c17.set_def-file");
                drop(w);
            }
        }
        // two writers and a reader at the same time
        5 => {
            let m = shape(sh, 3, 2, 2, 1);
            let d = any_data(&m);
            let content = file(&m, v, 0, &d);
            put("h.nc", &content);
            let mut r = FileReader::open("h.nc").unwrap();
            let m1 = shape((sh + 1) % 9, 4, 2, 2, 2);
            let d1 = any_data(&m1);
            let (ds, ds1) = (build(&m), build(&m1));
            let mut w = FileWriter::create_new(F).unwrap();
            let mut w1 = FileWriter::create_new("k.nc").unwrap();
            check(w1.set_def(&ds1, ver(v), 0).is_ok() && w.set_def(&ds, ver(3 - v), hmin).is_ok(), "c17.set_def");
            read_back(&mut r, &m, &d);
            for i in 0..4 {
                if i < m.vars.len() {
                    let x = &m.vars[i];
                    check(write_var(&mut w, &x.name, x.ty, &whole(&d[i])).is_ok(), "c17.write");
                }
                if i < m1.vars.len() {
                    let x = &m1.vars[i];
                    check(write_var(&mut w1, &x.name, x.ty, &whole(&d1[i])).is_ok(), "c17.write");
                }
            }
            check(w.close().is_ok() && w1.close().is_ok(), "c17.close");
            check(eq(&get(F), &file(&m, 3 - v, hmin, &d)) && eq(&get("k.nc"), &file(&m1, v, 0, &d1)), "c17.file");
            check(eq(&get("h.nc"), &content), "c17.other-file");
            read_back(&mut r, &m, &d);
        }
        // files that do not exist
        6 => {
            match FileReader::open(F) {
                Ok(_) => fail("c17.open-missing"),
                Err(e) => check(matches!(e, ReadError::IOErrorKind(std::io::ErrorKind::NotFound)), "c17.open-missing"),
            }
            check(fsize(F).is_none(), "c17.open-missing");
            let w = if choice(2) == 0 { FileWriter::open(F) } else { FileWriter::create_new(F) };
            match w {
                Ok(w) => {
                    check(fsize(F) == Some(0), "c17.created");
                    not_defined(&w);
                }
                Err(_) => fail("c17.created"),
            }
        }
        // some of the data, then dropped: exactly what was written is there
        _ => {
            let m = shape(sh, 3, 1, 2, 2);
            let d = any_data(&m);
            let ds = build(&m);
            put(F, &vec![0xEE; 700]);
            let mut w = FileWriter::open(F).unwrap();
            check(w.set_def(&ds, ver(v), hmin).is_ok(), "c17.set_def");
            let i = choice(m.vars.len());
            let x = &m.vars[i];
            let r = choice(m.chunks(x));
            check(write_rec(&mut w, &x.name, x.ty, r, d[i][r].as_ref().unwrap()).is_ok(), "c17.write");
            drop(w);
            let l = layout(&m, v, hmin);
            let at = l.begins[i] as usize + r * l.rec_size * (m.is_rec(x) as usize);
            let u = m.useful(x);
            let got = get(F);
            check(got.len() == at + u + pad4(u), "c17.dropped");
            let h = header(&m, v, numrecs(&m), &l.vsizes, &l.begins);
            check(eq(&got[..h.len()], &h) & eq(&got[at..at + u], d[i][r].as_ref().unwrap()), "c17.dropped");
            let mut zero = true;
            for b in got[h.len()..at].iter() {
                zero &= *b == 0;
            }
            check(zero, "c17.dropped");
        }
    }
    check(eq(&get("g.nc"), &other), "c17.other-file");
    expect("c17.end");
    reach("c17.end");
    if let Some(n) = fsize(F) {
        emit_u(n as usize);
    }
}

// ------------------------------------------------------------------ C18

const SPLITS: [[u32; 3]; 8] = [[31, 2, 24], [20, 9, 30], [8, 4, 47], [29, 29, 1], [31, 26, 2], [2, 2, 55], [24, 6, 28], [31, 0, 27]];
fn big_set(k: usize, ta: u8, bits: [u32; 3]) -> Set {
    let size = |bits: u32, min: u64| {
        let s = u64v("size") & ((1u64 << bits) - 1);
        let s = s | (bits == 0) as u64;
        assume((s >= min) & (s <= 2147483644 || bits > 31));
        s as usize
    };
    let mut m = Set::new();
    let (sx, sy, st) = (size(bits[0], 1), size(bits[1], 1), size(bits[2], 0));
    m.dims.push(dim("x", sx));
    m.dims.push(unlim("t", st));
    m.dims.push(dim("y", sy));
    let l: [&[usize]; 4] = match k {
        0 => [&[0], &[1, 0], &[2], &[1]],
        1 => [&[1, 0, 2], &[0, 2], &[], &[1]],
        2 => [&[0], &[2], &[0], &[2]],
        3 => [&[1, 2], &[1, 0], &[1], &[0]],
        4 => [&[2, 0], &[0, 2], &[1], &[1, 2]],
        _ => [&[1, 2, 0], &[1, 0, 2], &[1, 0], &[]],
    };
    let tys = [ta, ta % 6 + 1, (ta + 2) % 6 + 1, (ta + 4) % 6 + 1];
    for (i, l) in l.iter().enumerate() {
        m.vars.push(var(["a", "b", "c", "d"][i], tys[i], l));
    }
    m
}

/// Headers of data sets of any size. p = version, shape, type, split of the bits, header_min_size.
pub fn c18_header(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(6);
    let ta = 1 + p.take(6) as u8;
    let bits = SPLITS[p.take(8)];
    let hmin = [0, 301][p.take(2)];
    let m = big_set(k, ta, bits);
    let ds = build(&m);
    let l = layout(&m, v, hmin);
    let mut far = false;
    for b in l.begins.iter() {
        far |= *b > 0x7fff_ffff;
    }
    let mut w = FileWriter::create_new(F).unwrap();
    match w.set_def(&ds, ver(v), hmin) {
        Ok(()) => {
            check(!(far & (v == 1)), "c18.accepted");
            expect("c18.ok");
            reach("c18.ok");
            let h = header(&m, v, numrecs(&m), &l.vsizes, &l.begins);
            let got = get(F);
            check(got.len() == l.header, "c18.header-size");
            check(eq(&got[..8], &h[..8]), "c18.numrecs");
            check(eq(&got[..h.len()], &h), "c18.header");
            same_sizes(&ds, &m, "c18.");
        }
        Err(e) => {
            check(e == WriteError::ClassicVersionNotPossible, "c18.error");
            check(far & (v == 1), "c18.refused");
            expect("c18.classic-not-possible");
            reach("c18.classic-not-possible");
            check(fsize(F) == Some(0) && !w.header_is_defined(), "c18.refused-changed");
        }
    }
    emit_u(fsize(F).unwrap() as usize);
}
fn same_sizes(d: &DataSet, m: &Set, pre: &str) {
    check(d.record_size() == Some(m.rec_size()), &cat(pre, "record-size"));
    check(d.num_records() == m.nrec(), &cat(pre, "num-records"));
}

/// Sizes that no file can have are refused, not wrapped. p = version, shape, type.
pub fn c18_refused(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(4);
    let ta = 1 + p.take(6) as u8;
    let mut m = Set::new();
    // one size of any value, the others powers of two
    let s = |n: &str, min: u64, max: u64| {
        let s = u64v(n);
        assume((s >= min) & (s <= max));
        s as usize
    };
    let e = [1usize << 28, 1 << 30, 2147483644][choice(3)];
    match k {
        0 => {
            m.dims.push(unlim("t", s("t", 0, u64::MAX)));
            m.dims.push(dim("x", [4, 1 << 16, 1 << 30][choice(3)]));
            m.vars.push(var("a", ta, &[0, 1]));
            m.vars.push(var("b", 1, &[]));
        }
        1 => {
            m.dims.push(dim("x", e));
            m.dims.push(dim("y", e));
            m.dims.push(dim("z", s("z", 1, 64)));
            m.vars.push(var("b", 2, &[]));
            m.vars.push(var("a", ta, &[0, 1, 2]));
        }
        2 => {
            m.dims.push(dim("x", s("x", 1, 2147483644)));
            m.dims.push(dim("y", e));
            m.dims.push(dim("z", 1 << 3));
            m.vars.push(var("a", ta, &[0, 1]));
            m.vars.push(var("b", 6, &[2, 1]));
            m.vars.push(var("c", ta, &[1, 0]));
        }
        _ => {
            m.dims.push(unlim("t", s("t", 0, u64::MAX)));
            m.vars.push(var("a", ta, &[0]));
            m.vars.push(var("b", 6, &[0]));
        }
    }
    // the size of the data grows with the symbolic size: the largest one that fits
    let h = required(&m, v) as u128;
    let q = [0, 2, 0, 0][k];
    let total = |s: u128| {
        let mut total = 0u128;
        for x in m.vars.iter() {
            let mut n = SZ[x.ty as usize] as u128;
            let mut rec = false;
            for d in x.dims.iter() {
                if m.dims[*d].unlim {
                    rec = true;
                } else {
                    n *= if *d == q { s } else { m.dims[*d].size as u128 };
                }
            }
            n = (n + 3) & !3;
            if rec {
                n *= s.max(1);
            }
            total += n;
        }
        total
    };
    let largest = |max: u128| {
        let (mut a, mut b) = (0u128, 1u128 << if k % 3 == 0 { 64 } else { 32 });
        while b - a > 1 {
            let c = (a + b) / 2;
            if total(c) <= max { a = c } else { b = c }
        }
        a.min(u64::MAX as u128) as usize
    };
    let max = i64::MAX as u128;
    let (must, may) = (largest(max - h - 4), largest(max - h));
    let fits_none = total(1) > max;
    let size = m.dims[q].size;
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    expect("c18.accepted-size");
    expect("c18.refused-size");
    match w.set_def(&ds, ver(v), 0) {
        Ok(()) => {
            check(!fits_none && size <= may, "c18.accepted-too-large");
            reach("c18.accepted-size");
            let l = layout(&m, v, 0);
            let got = get(F);
            check(eq(&got, &header(&m, v, numrecs(&m), &l.vsizes, &l.begins)), "c18.header");
        }
        Err(e) => {
            reach("c18.refused-size");
            check(fsize(F) == Some(0) && !w.header_is_defined(), "c18.refused-changed");
            if e == WriteError::ClassicVersionNotPossible {
                check(v == 1, "c18.error");
            } else {
                check(fits_none || size > must, "c18.refused");
            }
        }
    }
    emit_u(fsize(F).unwrap() as usize);
}

fn sparse(path: &str, head: &[u8], size: u64) {
    put(path, head);
    let f = std::fs::OpenOptions::new().write(true).open(path).unwrap();
    f.set_len(size).unwrap();
}
/// Access to data beyond 2 and 4 GiB in sparse files. p = kind, version, type.
pub fn c18_far(p: u64) {
    let mut p = P(p);
    let k = p.take(4);
    let v = 1 + p.take(2) as u8;
    let t = 1 + p.take(6) as u8;
    let mut m = Set::new();
    let big = [2147483644usize, 1 << 30, (1 << 29) + 4, 2147483640][choice(4)];
    expect("c18.far");
    match k {
        // a small fixed-size variable behind huge ones (64-bit version)
        0 => {
            m.dims.push(dim("x", big));
            m.dims.push(dim("y", 3));
            m.vars.push(var("a", 1 + choice(4) as u8, &[0]));
            m.vars.push(var("b", t, &[1]));
            m.vars.push(var("c", 2, &[0]));
            m.vars.push(var("d", 4, &[]));
        }
        // small record variables next to huge ones
        1 | 2 => {
            m.dims.push(unlim("t", 8));
            m.dims.push(dim("x", big));
            m.dims.push(dim("y", 3));
            m.vars.push(var("b", t, &[0, 2]));
            m.vars.push(var("a", [1, 4][choice(2)], &[0, 1]));
            if k == 2 {
                m.vars.push(var("d", 4, &[0]));
                m.vars.push(var("e", 3, &[2]));
            }
        }
        // the record count is taken from the file size
        _ => {
            m.dims.push(unlim("t", 0));
            m.dims.push(dim("x", big));
            m.dims.push(dim("y", 3));
            m.vars.push(var("b", t, &[0, 2]));
            m.vars.push(var("a", [1, 4][choice(2)], &[0, 1]));
            let l = layout(&m, v, 0);
            let h = header(&m, v, u32::MAX, &l.vsizes, &l.begins);
            let n = choice(6);
            m.dims[0].size = n;
            let size = l.begins[0] + (n * l.rec_size) as u64;
            let off = choice(3);
            if off == 1 && n == 0 {
                return;
            }
            sparse(F, &h, [size, size - (off == 1) as u64, size + 4][off]);
            match FileReader::open(F) {
                Ok(mut r) => {
                    check(off == 0, "c18.count-accepted");
                    check(r.data_set().num_records() == Some(n) && r.data_set().record_size() == Some(l.rec_size), "c18.count");
                    reach("c18.far");
                    let b = vec![0u8; m.useful(&m.vars[0])];
                    for i in 0..n {
                        match read_rec_t(&mut r, "b", t, i) {
                            Ok(x) => check(eq(&x, &b), "c18.far-record"),
                            Err(_) => fail("c18.far-record"),
                        }
                    }
                    check(read_rec_t(&mut r, "b", t, n).is_err(), "c18.far-beyond");
                }
                Err(e) => {
                    check(off != 0, "c18.count-refused");
                    check(matches!(e, ReadError::ComputationNumberOfRecords), "c18.count-error");
                }
            }
            emit_u(n);
            return;
        }
    }
    let l = layout(&m, v, 0);
    let far = l.begins.iter().any(|b| *b > 0x7fff_ffff);
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    let r = w.set_def(&ds, ver(v), 0);
    if v == 1 && far {
        check(r == Err(WriteError::ClassicVersionNotPossible), "c18.accepted");
        return;
    }
    check(r.is_ok(), "c18.refused");
    reach("c18.far");
    // the small ones, whole or by record; the last one last so that everything lies in the file
    let small: Vec<usize> = (0..m.vars.len()).filter(|i| m.useful(&m.vars[*i]) < 100).collect();
    let mut d = no_data(&m);
    for i in small.iter() {
        let x = &m.vars[*i];
        let c = m.chunks(x);
        for r in 0..c {
            d[*i][r] = Some(bytes(m.useful(x), "data"));
        }
        if choice(2) == 0 {
            check(write_var(&mut w, &x.name, x.ty, &whole(&d[*i])).is_ok(), "c18.write-var");
        } else {
            for q in 0..c {
                let r = (q + 3) % c;
                check(write_rec(&mut w, &x.name, x.ty, r, d[*i][r].as_ref().unwrap()).is_ok(), "c18.write-record");
            }
        }
    }
    drop(w);
    let mut end = l.header as u64;
    for i in small.iter() {
        for (r, b) in d[*i].iter().enumerate() {
            let b = b.as_ref().unwrap();
            let at = l.begins[*i] + (r * l.rec_size * (m.is_rec(&m.vars[*i]) as usize)) as u64;
            check(eq(&get_at(F, at, b.len()), b), "c18.far-bytes");
            end = end.max(at + (b.len() + pad4(b.len())) as u64);
        }
    }
    check(fsize(F) == Some(end), "c18.far-size");
    if let Some(mut r) = open(F) {
        for i in small.iter() {
            let x = &m.vars[*i];
            match read_var_t(&mut r, &x.name, x.ty) {
                Ok(b) => check(eq(&b, &whole(&d[*i])), "c18.far-read"),
                Err(_) => fail("c18.far-read"),
            }
            for q in 0..m.chunks(x) {
                match read_rec_t(&mut r, &x.name, x.ty, q) {
                    Ok(b) => check(eq(&b, d[*i][q].as_ref().unwrap()), "c18.far-record"),
                    Err(_) => fail("c18.far-record"),
                }
            }
        }
    }
    emit_u(end as usize);
}

// ------------------------------------------------------------------ C21

const C_NAMES: [&str; 7] = ["", "NC_BYTE", "NC_CHAR", "NC_SHORT", "NC_INT", "NC_FLOAT", "NC_DOUBLE"];
const SHOWN: [&str; 7] = ["", "DataType::I8", "DataType::U8", "DataType::I16", "DataType::I32", "DataType::F32", "DataType::F64"];
fn dv(t: u8, b: &[u8]) -> DataVector {
    match t {
        1 => DataVector::I8(v_i8(b)),
        2 => DataVector::U8(b.to_vec()),
        3 => DataVector::I16(v_i16(b)),
        4 => DataVector::I32(v_i32(b)),
        5 => DataVector::F32(v_f32(b)),
        _ => DataVector::F64(v_f64(b)),
    }
}
fn some(t: u8, got: Option<Vec<u8>>, want: u8, b: &[u8], lab: &str) {
    match got {
        None => check(t != want, lab),
        Some(x) => check((t == want) && eq(&x, b), lab),
    }
}
fn into<T>(v: &DataVector, r: Result<Vec<T>, DataVector>, f: impl Fn(&[T]) -> Vec<u8>, t: u8, want: u8, b: &[u8]) {
    match r {
        Ok(x) => check(t == want && eq(&f(&x), b), "c21.into"),
        Err(d) => {
            let (u, c) = raw_dv(&d);
            check(t != want && u == t && eq(&c, b) && d.len() == v.len(), "c21.into-refused");
        }
    }
}
/// p = 0: numbers; otherwise type and number of elements of a vector.
pub fn c21(p: u64) {
    let mut p = P(p);
    let t = p.take(7) as u8;
    if t == 0 {
        let n = u32v("number");
        match DataType::try_from(n) {
            Ok(x) => {
                check((n >= 1) & (n <= 6), "c21.type-accepted");
                let n = conc(n as u64) as u8;
                check(tnum(&x) == n && x.clone() as u32 == n as u32, "c21.type");
                check(x.size_of() == SZ[n as usize], "c21.size-of");
                check(x.c_api_name() == C_NAMES[n as usize], "c21.c-api-name");
                check(format!("{}", x) == SHOWN[n as usize], "c21.display");
                check(x == dtype(n), "c21.type");
                expect("c21.types");
                reach("c21.types");
            }
            Err(_) => check((n < 1) | (n > 6), "c21.type-refused"),
        }
        let n = u8v("number");
        match Version::try_from(n) {
            Ok(x) => {
                check((n == 1) | (n == 2), "c21.version-accepted");
                check(x.clone() as u8 == n && x == ver(n), "c21.version");
                expect("c21.versions");
                reach("c21.versions");
            }
            Err(_) => check((n < 1) | (n > 2), "c21.version-refused"),
        }
        return;
    }
    let n = p.take(8);
    let b = bytes(n * SZ[t as usize], "value");
    let v = dv(t, &b);
    check(tnum(&v.data_type()) == t, "c21.data-type");
    check(v.len() == n, "c21.len");
    some(t, v.get_i8().map(r_i8), 1, &b, "c21.get");
    some(t, v.get_u8().map(|x| x.to_vec()), 2, &b, "c21.get");
    some(t, v.get_i16().map(r_i16), 3, &b, "c21.get");
    some(t, v.get_i32().map(r_i32), 4, &b, "c21.get");
    some(t, v.get_f32().map(r_f32), 5, &b, "c21.get");
    some(t, v.get_f64().map(r_f64), 6, &b, "c21.get");
    into(&v, dv(t, &b).get_i8_into(), r_i8, t, 1, &b);
    into(&v, dv(t, &b).get_u8_into(), |x: &[u8]| x.to_vec(), t, 2, &b);
    into(&v, dv(t, &b).get_i16_into(), r_i16, t, 3, &b);
    into(&v, dv(t, &b).get_i32_into(), r_i32, t, 4, &b);
    into(&v, dv(t, &b).get_f32_into(), r_f32, t, 5, &b);
    into(&v, dv(t, &b).get_f64_into(), r_f64, t, 6, &b);
    // as text, from each place an attribute can be
    let a = attr("s", t, b.clone());
    let mut m = Set::new();
    m.attrs.push(a.clone());
    m.vars.push(Var { name: "v".into(), ty: 1, dims: vec![], attrs: vec![a] });
    let mut d = build(&m);
    let l = [
        d.get_global_attr_as_string("s"),
        d.get_var_attr_as_string("v", "s"),
        d.get_var("v").unwrap().get_attr_as_string("s"),
        d.get_global_attr("s").unwrap().get_as_string(),
        d.get_var("v").unwrap().get_attr("s").unwrap().get_as_string(),
    ];
    let valid = t == 2 && utf8_ok(&b);
    for s in l.iter() {
        match s {
            Some(s) => check(valid && eq(s.as_bytes(), &b), "c21.as-string"),
            None => check(!valid, "c21.as-string-refused"),
        }
    }
    if t == 2 && l[0].is_some() {
        expect("c21.text");
        reach("c21.text");
        // attributes made from text
        let s = l[0].clone().unwrap();
        check(d.add_global_attr_string("g", &s).is_ok() && d.add_var_attr_string("v", "g", s.as_str()).is_ok(), "c21.string-attr");
        check(d.get_var_mut("v").unwrap().add_attr_string("h", &s).is_ok(), "c21.string-attr");
        let l = [d.get_global_attr_u8("g"), d.get_var_attr_u8("v", "g"), d.get_var("v").unwrap().get_attr_u8("h")];
        for x in l.iter() {
            check(x.map(|x| eq(x, &b)) == Some(true), "c21.string-attr");
        }
        check(d.get_global_attr_data_type("g") == Some(DataType::U8) && d.get_var_attr_data_type("v", "g") == Some(DataType::U8), "c21.string-attr");
    }
    emit(&b);
}
