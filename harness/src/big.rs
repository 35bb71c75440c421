//! Large variables, many records, many entries: values are concrete except at places where an
//! implementation's blocks are likely to begin and end.

use crate::io::*;
use crate::model::*;
use crate::sym::*;
use netcdf3::*;

pub const SIZES: [usize; 16] = [255, 256, 257, 511, 1000, 1024, 1025, 2049, 4096, 4097, 8192, 8193, 16385, 32769, 65536, 65537];

/// `n` bytes, symbolic around the multiples of the usual block sizes, in bytes and in elements.
fn mixed(n: usize, sz: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut x = 0x2545_f491u32;
    for _ in 0..n {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        v.push((x >> 11) as u8);
    }
    let mut at = vec![0, n.saturating_sub(2)];
    for b in [256usize, 512, 1024, 4096, 8192, 16384, 32768, 65536] {
        for m in [b, b * sz] {
            at.push(m.saturating_sub(2));
            at.push(m);
            if m < n {
                at.push(n / m * m);
            }
        }
    }
    for a in at {
        if a + 2 <= n {
            let s = bytes(2, "data");
            v[a..a + 2].copy_from_slice(&s);
        }
    }
    v
}
fn big_data(m: &Set) -> Data {
    m.vars
        .iter()
        .map(|v| {
            let u = m.useful(v);
            let all = mixed(u * m.chunks(v), SZ[v.ty as usize]);
            (0..m.chunks(v)).map(|r| Some(all[r * u..(r + 1) * u].to_vec())).collect()
        })
        .collect()
}
pub const BIGS: u64 = 4;
fn big_set(k: usize, n: usize, t: u8) -> Set {
    let mut m = Set::new();
    let tb = 1 + t % 6;
    match k {
        // fixed-size variables
        0 => {
            m.dims.push(dim("x", n));
            m.vars.push(var("s", 1, &[]));
            m.vars.push(var("a", t, &[0]));
            m.vars.push(var("b", tb, &[]));
        }
        // two records of many values
        1 => {
            m.dims.push(unlim("t", 2));
            m.dims.push(dim("x", n));
            m.vars.push(var("a", t, &[0, 1]));
            m.vars.push(var("b", tb, &[0]));
        }
        // many records
        2 => {
            m.dims.push(unlim("t", n));
            m.vars.push(var("a", t, &[0]));
            m.vars.push(var("b", tb, &[0]));
        }
        // many dimensions
        _ => {
            for (i, s) in [3usize, 2, 1, 5, n / 60 + 1, 2].iter().enumerate() {
                m.dims.push(dim(&cat("d", ["0", "1", "2", "3", "4", "5"][i]), *s));
            }
            m.vars.push(var("a", t, &[4, 0, 5, 1, 3, 2]));
            m.vars.push(var("b", tb, &[1, 2, 0]));
        }
    }
    m
}
/// What was not written holds fill values, what was written stays.
fn unwritten(m: &Set, d: &Data, v: u8) {
    let ds = build(m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), 0).is_ok(), "set_def");
    let mut z = no_data(m);
    let how = choice(4);
    for (i, x) in m.vars.iter().enumerate() {
        let c = m.chunks(x);
        match how {
            0 => {}
            1 | 2 => {
                if (i == 0) == (how == 1) {
                    check(write_var(&mut w, &x.name, x.ty, &whole(&d[i])).is_ok(), "write.var");
                    z[i] = d[i].clone();
                }
            }
            _ => {
                for r in [0usize, 2, 3, 127, 129, 255, 257, 1023, 4095, 32768, 65535, c - 1] {
                    if r < c && (r + i) % 5 != 4 {
                        check(write_rec(&mut w, &x.name, x.ty, r, d[i][r].as_ref().unwrap()).is_ok(), "write.record");
                        z[i][r] = d[i][r].clone();
                    }
                }
            }
        }
    }
    check(w.close().is_ok(), "close");
    let want = file(m, v, 0, &z);
    let got = get(F);
    check(got.len() == want.len(), "c04.size");
    check(eq(&got, &want), "c04.cells");
    reach("big");
}
/// p: what to check (0: round trip, 1: bytes, 2: reader, 3: fill values), kind, size, type, version.
pub fn big(p: u64) {
    let mut p = P(p);
    let what = p.take(4);
    let k = p.take(BIGS);
    let n = SIZES[p.take(16)];
    let t = 1 + p.take(6) as u8;
    let v = 1 + p.take(2) as u8;
    let m = big_set(k, n, t);
    let d = big_data(&m);
    expect("big");
    if what == 3 {
        return unwritten(&m, &d, v);
    }
    if what == 2 {
        put(F, &file(&m, v, 0, &d));
    } else {
        let ds = build(&m);
        let mut w = FileWriter::create_new(F).unwrap();
        check(w.set_def(&ds, ver(v), 0).is_ok(), "set_def");
        match choice(2) {
            0 => {
                for (i, x) in m.vars.iter().enumerate() {
                    check(write_var(&mut w, &x.name, x.ty, &whole(&d[i])).is_ok(), "write.var");
                }
            }
            _ => {
                for (i, x) in m.vars.iter().enumerate() {
                    let c = m.chunks(x);
                    if c > 3000 {
                        // the whole variable, wrong in a few records which are then written again
                        let mut wrong = whole(&d[i]);
                        let u = m.useful(x);
                        let few: Vec<usize> = [0usize, 1, 127, 128, 255, 256, 257, 4096, 32767, 32768, 65535, c - 2, c - 1].iter().copied().filter(|r| *r < c).collect();
                        for r in few.iter() {
                            for b in 0..u {
                                wrong[r * u + b] ^= 0x55;
                            }
                        }
                        check(write_var(&mut w, &x.name, x.ty, &wrong).is_ok(), "write.var");
                        for r in few.iter().rev() {
                            check(write_rec(&mut w, &x.name, x.ty, *r, d[i][*r].as_ref().unwrap()).is_ok(), "write.record");
                        }
                        continue;
                    }
                    for r in 0..c {
                        check(write_rec(&mut w, &x.name, x.ty, r, d[i][r].as_ref().unwrap()).is_ok(), "write.record");
                    }
                }
            }
        }
        check(w.close().is_ok(), "close");
    }
    reach("big");
    if what == 1 {
        conforms(&m, v, 0, &d);
        return;
    }
    if let Some(mut r) = open(F) {
        same(r.data_set(), &m, "c07.");
        for (i, x) in m.vars.iter().enumerate() {
            let all = whole(&d[i]);
            match r.read_var(&x.name) {
                Ok(b) => check(dv_is(&b, x.ty, &all), "read.var"),
                Err(_) => fail("read.var"),
            }
            let c = m.chunks(x);
            let few: Vec<usize> = if c < 20 { (0..c).collect() } else { vec![0, 1, 127, 128, c / 2, c - 2, c - 1] };
            for q in few {
                match r.read_record(&x.name, q) {
                    Ok(b) => check(dv_is(&b, x.ty, d[i][q].as_ref().unwrap()), "read.record"),
                    Err(_) => fail("read.record"),
                }
            }
            check(r.read_record(&x.name, c).is_err(), "read.record-beyond");
        }
        match r.read_all_vars() {
            Ok(h) => {
                check(h.len() == m.vars.len(), "read.all-count");
                for (i, x) in m.vars.iter().enumerate() {
                    check(h.get(&x.name).map(|b| dv_is(b, x.ty, &whole(&d[i]))) == Some(true), "read.all");
                }
            }
            Err(_) => fail("read.all"),
        }
    }
}

/// Many entries of one kind. p: which list, how many (index), version.
pub const COUNTS: [usize; 8] = [17, 64, 127, 128, 255, 256, 257, 300];
pub fn big_lists(p: u64) {
    let mut p = P(p);
    let k = p.take(8);
    let n = COUNTS[p.take(8)];
    let v = 1 + p.take(2) as u8;
    let nm = |i: usize| {
        let b = vec![b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'0' + (i % 10) as u8];
        unsafe { String::from_utf8_unchecked(b) }
    };
    let mut m = Set::new();
    m.dims.push(unlim("T", 1));
    m.dims.push(dim("X", 2));
    match k {
        0 => {
            for i in 0..n {
                m.dims.push(dim(&nm(i), 1 + i % 3));
            }
            m.vars.push(var("v", 3, &[n - 1, n + 1, 1]));
            m.vars.push(var("w", 4, &[0, n + 1]));
        }
        1 => {
            for i in 0..n {
                m.attrs.push(attr(&nm(i), 1 + (i % 6) as u8, vec![i as u8; SZ[1 + i % 6] * (i % 3)]));
            }
        }
        2 => {
            let mut x = var("v", 4, &[0]);
            for i in 0..n {
                x.attrs.push(attr(&nm(i), 1 + (i % 6) as u8, vec![i as u8; SZ[1 + i % 6] * (i % 3)]));
            }
            m.vars.push(x);
            let mut x = var("w", 1, &[1]);
            x.attrs.push(sattr("u", 3, 1));
            m.vars.push(x);
        }
        3 => {
            for i in 0..n {
                let l: [&[usize]; 4] = [&[0], &[], &[1], &[0, 1]];
                m.vars.push(var(&nm(i), 1 + (i % 6) as u8, l[i % 4]));
            }
        }
        // one attribute of many values
        4 => m.attrs.push(attr("l", 2, mixed(SIZES[n % 16], 1))),
        5 => m.attrs.push(attr("l", 6, mixed(8 * SIZES[n % 16], 8))),
        6 => {
            let mut x = var("v", 4, &[0]);
            x.attrs.push(attr("l", 3, mixed(2 * SIZES[n % 16], 2)));
            m.vars.push(x);
        }
        // many dimensions of one variable
        _ => {
            for i in 0..n {
                m.dims.push(dim(&nm(i), 1 + (i == n - 1) as usize));
            }
            let l: Vec<usize> = (2..n + 2).rev().collect();
            m.vars.push(var("v", 3, &l));
        }
    }
    expect("c03.file");
    let d = any_data(&m);
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    check(w.set_def(&ds, ver(v), 0).is_ok(), "set_def");
    for (i, x) in m.vars.iter().enumerate() {
        check(write_var(&mut w, &x.name, x.ty, &whole(&d[i])).is_ok(), "write.var");
    }
    check(w.close().is_ok(), "close");
    conforms(&m, v, 0, &d);
    if let Some(mut r) = open(F) {
        same(r.data_set(), &m, "c07.");
        for (i, x) in m.vars.iter().enumerate() {
            match r.read_var(&x.name) {
                Ok(b) => check(dv_is(&b, x.ty, &whole(&d[i])), "read.var"),
                Err(_) => fail("read.var"),
            }
        }
    }
}
