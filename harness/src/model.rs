//! The oracle: an independent description of a data set, and an encoder written from the
//! NetCDF-3 format specification.  Values are kept as big-endian bytes.

use crate::sym::*;
use netcdf3::*;

pub const SZ: [usize; 7] = [0, 1, 1, 2, 4, 4, 8];

pub fn pad4(n: usize) -> usize {
    (4 - n % 4) % 4
}
pub fn dtype(t: u8) -> DataType {
    match t {
        1 => DataType::I8,
        2 => DataType::U8,
        3 => DataType::I16,
        4 => DataType::I32,
        5 => DataType::F32,
        _ => DataType::F64,
    }
}
pub fn tnum(t: &DataType) -> u8 {
    match t {
        DataType::I8 => 1,
        DataType::U8 => 2,
        DataType::I16 => 3,
        DataType::I32 => 4,
        DataType::F32 => 5,
        DataType::F64 => 6,
    }
}
pub fn ver(v: u8) -> Version {
    if v == 1 {
        Version::Classic
    } else {
        Version::Offset64Bit
    }
}
/// The fill value of each type, as written in the specification.
pub fn fill(t: u8) -> Vec<u8> {
    match t {
        1 => vec![0x81],
        2 => vec![0x00],
        3 => vec![0x80, 0x01],
        4 => vec![0x80, 0x00, 0x00, 0x01],
        5 => vec![0x7C, 0xF0, 0x00, 0x00],
        _ => vec![0x47, 0x9E, 0, 0, 0, 0, 0, 0],
    }
}

#[derive(Clone, PartialEq)]
pub struct Dim {
    pub name: String,
    pub size: usize,
    pub unlim: bool,
}
#[derive(Clone, PartialEq)]
pub struct Attr {
    pub name: String,
    pub ty: u8,
    pub data: Vec<u8>,
}
#[derive(Clone, PartialEq)]
pub struct Var {
    pub name: String,
    pub ty: u8,
    pub dims: Vec<usize>,
    pub attrs: Vec<Attr>,
}
#[derive(Clone, PartialEq)]
pub struct Set {
    pub dims: Vec<Dim>,
    pub attrs: Vec<Attr>,
    pub vars: Vec<Var>,
}

pub fn dim(name: &str, size: usize) -> Dim {
    Dim { name: name.into(), size, unlim: false }
}
pub fn unlim(name: &str, size: usize) -> Dim {
    Dim { name: name.into(), size, unlim: true }
}
pub fn attr(name: &str, ty: u8, data: Vec<u8>) -> Attr {
    Attr { name: name.into(), ty, data }
}
pub fn var(name: &str, ty: u8, dims: &[usize]) -> Var {
    Var { name: name.into(), ty, dims: dims.to_vec(), attrs: vec![] }
}
/// An attribute with `n` symbolic elements.
/// Names that differ in their case, their length or a space only, shared by dimensions and variables.
pub fn confusable(mut m: Set, k: usize) -> Set {
    let l = [["aa", "a", "A", "a ", "ab"], ["a", "A", "a ", "aa", "aA"], ["a ", "a", "aa", "A", "a_"]];
    for (i, v) in m.vars.iter_mut().enumerate() {
        v.name = l[k % 3][i].into();
    }
    for (i, d) in m.dims.iter_mut().enumerate() {
        d.name = l[(k + 1) % 3][i].into();
    }
    m
}
pub fn sattr(name: &str, ty: u8, n: usize) -> Attr {
    attr(name, ty, bytes(n * SZ[ty as usize], "attr"))
}

impl Set {
    pub fn new() -> Set {
        Set { dims: vec![], attrs: vec![], vars: vec![] }
    }
    pub fn is_rec(&self, v: &Var) -> bool {
        match v.dims.first() {
            Some(d) => self.dims[*d].unlim,
            None => false,
        }
    }
    pub fn nrec(&self) -> Option<usize> {
        for d in self.dims.iter() {
            if d.unlim {
                return Some(d.size);
            }
        }
        None
    }
    pub fn chunks(&self, v: &Var) -> usize {
        if self.is_rec(v) {
            self.dims[v.dims[0]].size
        } else {
            1
        }
    }
    pub fn chunk_len(&self, v: &Var) -> usize {
        let mut n = 1;
        for d in v.dims.iter() {
            if !self.dims[*d].unlim {
                n *= self.dims[*d].size;
            }
        }
        n
    }
    /// Useful bytes of one record.
    pub fn useful(&self, v: &Var) -> usize {
        self.chunk_len(v) * SZ[v.ty as usize]
    }
    pub fn chunk_size(&self, v: &Var) -> usize {
        let n = self.useful(v);
        n + pad4(n)
    }
    pub fn rec_size(&self) -> usize {
        let mut s = 0;
        for v in self.vars.iter() {
            if self.is_rec(v) {
                s += self.chunk_size(v);
            }
        }
        s
    }
    /// The special case of the specification: one single record variable of a 1- or 2-byte
    /// type is stored without record padding (only matters if a record is not a multiple of 4).
    pub fn special(&self) -> bool {
        let mut n = 0;
        let mut odd = false;
        for v in self.vars.iter() {
            if self.is_rec(v) {
                n += 1;
                odd = self.useful(v) % 4 != 0;
            }
        }
        n == 1 && odd
    }
}

pub struct Layout {
    pub required: usize,
    pub header: usize,
    pub begins: Vec<u64>,
    pub vsizes: Vec<u32>,
    pub rec_size: usize,
    pub size: usize,
}

fn name_size(n: &str) -> usize {
    4 + n.len() + pad4(n.len())
}
fn attrs_size(l: &[Attr]) -> usize {
    let mut n = 8;
    for a in l {
        n += name_size(&a.name) + 8 + a.data.len() + pad4(a.data.len());
    }
    n
}
pub fn required(m: &Set, v: u8) -> usize {
    let mut n = 4 + 4 + 8 + 8;
    for d in m.dims.iter() {
        n += name_size(&d.name) + 4;
    }
    n += attrs_size(&m.attrs);
    for x in m.vars.iter() {
        n += name_size(&x.name) + 4 + 4 * x.dims.len() + attrs_size(&x.attrs) + 4 + 4 + if v == 1 { 4 } else { 8 };
    }
    n
}
pub fn layout(m: &Set, v: u8, hmin: usize) -> Layout {
    let req = required(m, v);
    let h = if hmin > req { hmin } else { req };
    let h = h + pad4(h);
    let mut begins = vec![0u64; m.vars.len()];
    let mut vsizes = vec![0u32; m.vars.len()];
    let mut pos = h;
    for pass in 0..2 {
        for (i, x) in m.vars.iter().enumerate() {
            if m.is_rec(x) == (pass == 1) {
                begins[i] = pos as u64;
                let c = m.chunk_size(x);
                vsizes[i] = if c > 0x7fff_ffff { u32::MAX } else { c as u32 };
                pos += c;
            }
        }
    }
    let rs = m.rec_size();
    let end = match m.nrec() {
        Some(n) if rs > 0 => pos.wrapping_sub(rs).wrapping_add(n.wrapping_mul(rs)),
        _ => pos,
    };
    Layout { required: req, header: h, begins, vsizes, rec_size: rs, size: end }
}

pub fn be32(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_be_bytes())
}
fn put_name(o: &mut Vec<u8>, n: &str) {
    be32(o, n.len() as u32);
    o.extend_from_slice(n.as_bytes());
    for _ in 0..pad4(n.len()) {
        o.push(0)
    }
}
fn put_attrs(o: &mut Vec<u8>, l: &[Attr]) {
    if l.is_empty() {
        o.extend_from_slice(&[0; 8]);
        return;
    }
    be32(o, 0x0C);
    be32(o, l.len() as u32);
    for a in l {
        put_name(o, &a.name);
        be32(o, a.ty as u32);
        be32(o, (a.data.len() / SZ[a.ty as usize]) as u32);
        o.extend_from_slice(&a.data);
        for _ in 0..pad4(a.data.len()) {
            o.push(0)
        }
    }
}
/// The header prescribed by the specification, for any record count field, vsizes and begins.
pub fn header(m: &Set, v: u8, numrecs: u32, vsizes: &[u32], begins: &[u64]) -> Vec<u8> {
    let mut o = vec![b'C', b'D', b'F', v];
    be32(&mut o, numrecs);
    if m.dims.is_empty() {
        o.extend_from_slice(&[0; 8]);
    } else {
        be32(&mut o, 0x0A);
        be32(&mut o, m.dims.len() as u32);
        for d in m.dims.iter() {
            put_name(&mut o, &d.name);
            be32(&mut o, if d.unlim { 0 } else { d.size as u32 });
        }
    }
    put_attrs(&mut o, &m.attrs);
    if m.vars.is_empty() {
        o.extend_from_slice(&[0; 8]);
    } else {
        be32(&mut o, 0x0B);
        be32(&mut o, m.vars.len() as u32);
        for (i, x) in m.vars.iter().enumerate() {
            put_name(&mut o, &x.name);
            be32(&mut o, x.dims.len() as u32);
            for d in x.dims.iter() {
                be32(&mut o, *d as u32);
            }
            put_attrs(&mut o, &x.attrs);
            be32(&mut o, x.ty as u32);
            be32(&mut o, vsizes[i]);
            if v == 1 {
                be32(&mut o, begins[i] as u32);
            } else {
                o.extend_from_slice(&begins[i].to_be_bytes());
            }
        }
    }
    o
}
/// The record count field of a data set.
pub fn numrecs(m: &Set) -> u32 {
    match m.nrec() {
        None => 0,
        Some(n) => {
            if n > 0x7fff_ffff {
                u32::MAX
            } else {
                n as u32
            }
        }
    }
}
/// Values of the cells: `data[v][r]` is the useful bytes of record `r` of variable `v`
/// (None: never written).
pub type Data = Vec<Vec<Option<Vec<u8>>>>;

pub fn no_data(m: &Set) -> Data {
    m.vars.iter().map(|v| vec![None; m.chunks(v)]).collect()
}
pub fn fill_bytes(t: u8, n: usize) -> Vec<u8> {
    let f = fill(t);
    let mut o = Vec::with_capacity(n);
    for i in 0..n {
        o.push(f[i % f.len()]);
    }
    o
}
/// The whole file after close.
pub fn file(m: &Set, v: u8, hmin: usize, data: &Data) -> Vec<u8> {
    let l = layout(m, v, hmin);
    let mut o = header(m, v, numrecs(m), &l.vsizes, &l.begins);
    o.resize(l.size.max(l.header), 0);
    for (i, x) in m.vars.iter().enumerate() {
        for r in 0..m.chunks(x) {
            let at = l.begins[i] as usize + r * l.rec_size * (m.is_rec(x) as usize);
            let u = m.useful(x);
            let b = match &data[i][r] {
                Some(b) => b.clone(),
                None => fill_bytes(x.ty, u),
            };
            o[at..at + u].copy_from_slice(&b);
            let p = pad4(u);
            o[at + u..at + u + p].copy_from_slice(&fill_bytes(x.ty, p));
        }
    }
    o
}

// ------------------------------------------------------------------ typed values <-> bytes

pub fn v_i8(b: &[u8]) -> Vec<i8> {
    b.iter().map(|x| *x as i8).collect()
}
pub fn v_i16(b: &[u8]) -> Vec<i16> {
    b.chunks_exact(2).map(|x| i16::from_be_bytes([x[0], x[1]])).collect()
}
pub fn v_i32(b: &[u8]) -> Vec<i32> {
    b.chunks_exact(4).map(|x| i32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect()
}
pub fn v_f32(b: &[u8]) -> Vec<f32> {
    b.chunks_exact(4).map(|x| f32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect()
}
pub fn v_f64(b: &[u8]) -> Vec<f64> {
    b.chunks_exact(8).map(|x| f64::from_be_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]])).collect()
}
macro_rules! raw {
    ($n:ident, $t:ty) => {
        pub fn $n(v: &[$t]) -> Vec<u8> {
            let mut o = Vec::with_capacity(v.len() * std::mem::size_of::<$t>());
            for x in v {
                o.extend_from_slice(&x.to_be_bytes());
            }
            o
        }
    };
}
raw!(r_i8, i8);
raw!(r_u8, u8);
raw!(r_i16, i16);
raw!(r_i32, i32);
raw!(r_f32, f32);
raw!(r_f64, f64);
/// Type and bytes of a data vector, by matching on the variants themselves.
pub fn raw_dv(d: &DataVector) -> (u8, Vec<u8>) {
    match d {
        DataVector::I8(v) => (1, r_i8(v)),
        DataVector::U8(v) => (2, r_u8(v)),
        DataVector::I16(v) => (3, r_i16(v)),
        DataVector::I32(v) => (4, r_i32(v)),
        DataVector::F32(v) => (5, r_f32(v)),
        DataVector::F64(v) => (6, r_f64(v)),
    }
}

// ------------------------------------------------------------------ through the public API

pub fn add_gattr(d: &mut DataSet, a: &Attr) -> Result<(), InvalidDataSet> {
    match a.ty {
        1 => d.add_global_attr_i8(&a.name, v_i8(&a.data)),
        2 => d.add_global_attr_u8(&a.name, a.data.clone()),
        3 => d.add_global_attr_i16(&a.name, v_i16(&a.data)),
        4 => d.add_global_attr_i32(&a.name, v_i32(&a.data)),
        5 => d.add_global_attr_f32(&a.name, v_f32(&a.data)),
        _ => d.add_global_attr_f64(&a.name, v_f64(&a.data)),
    }
}
pub fn add_vattr(d: &mut DataSet, v: &str, a: &Attr) -> Result<(), InvalidDataSet> {
    match a.ty {
        1 => d.add_var_attr_i8(v, &a.name, v_i8(&a.data)),
        2 => d.add_var_attr_u8(v, &a.name, a.data.clone()),
        3 => d.add_var_attr_i16(v, &a.name, v_i16(&a.data)),
        4 => d.add_var_attr_i32(v, &a.name, v_i32(&a.data)),
        5 => d.add_var_attr_f32(v, &a.name, v_f32(&a.data)),
        _ => d.add_var_attr_f64(v, &a.name, v_f64(&a.data)),
    }
}
pub fn add_var(d: &mut DataSet, m: &Set, v: &Var) -> Result<(), InvalidDataSet> {
    let names: Vec<&str> = v.dims.iter().map(|i| m.dims[*i].name.as_str()).collect();
    match v.ty {
        1 => d.add_var_i8(&v.name, &names),
        2 => d.add_var_u8(&v.name, &names),
        3 => d.add_var_i16(&v.name, &names),
        4 => d.add_var_i32(&v.name, &names),
        5 => d.add_var_f32(&v.name, &names),
        _ => d.add_var_f64(&v.name, &names),
    }
}
/// The library's data set for a model; every call must succeed.
pub fn build(m: &Set) -> DataSet {
    let mut d = DataSet::new();
    for x in m.dims.iter() {
        let r = if x.unlim { d.set_unlimited_dim(&x.name, x.size) } else { d.add_fixed_dim(&x.name, x.size) };
        check(r.is_ok(), "build.dim");
    }
    for a in m.attrs.iter() {
        check(add_gattr(&mut d, a).is_ok(), "build.gattr");
    }
    for v in m.vars.iter() {
        check(add_var(&mut d, m, v).is_ok(), "build.var");
        for a in v.attrs.iter() {
            check(add_vattr(&mut d, &v.name, a).is_ok(), "build.vattr");
        }
    }
    d
}
pub fn write_var(w: &mut FileWriter, name: &str, ty: u8, b: &[u8]) -> Result<(), error::WriteError> {
    match ty {
        1 => w.write_var_i8(name, &v_i8(b)),
        2 => w.write_var_u8(name, b),
        3 => w.write_var_i16(name, &v_i16(b)),
        4 => w.write_var_i32(name, &v_i32(b)),
        5 => w.write_var_f32(name, &v_f32(b)),
        _ => w.write_var_f64(name, &v_f64(b)),
    }
}
pub fn write_rec(w: &mut FileWriter, name: &str, ty: u8, i: usize, b: &[u8]) -> Result<(), error::WriteError> {
    match ty {
        1 => w.write_record_i8(name, i, &v_i8(b)),
        2 => w.write_record_u8(name, i, b),
        3 => w.write_record_i16(name, i, &v_i16(b)),
        4 => w.write_record_i32(name, i, &v_i32(b)),
        5 => w.write_record_f32(name, i, &v_f32(b)),
        _ => w.write_record_f64(name, i, &v_f64(b)),
    }
}
pub fn read_var_t(r: &mut FileReader, name: &str, ty: u8) -> Result<Vec<u8>, error::ReadError> {
    Ok(match ty {
        1 => r_i8(&r.read_var_i8(name)?),
        2 => r.read_var_u8(name)?,
        3 => r_i16(&r.read_var_i16(name)?),
        4 => r_i32(&r.read_var_i32(name)?),
        5 => r_f32(&r.read_var_f32(name)?),
        _ => r_f64(&r.read_var_f64(name)?),
    })
}
pub fn read_rec_t(r: &mut FileReader, name: &str, ty: u8, i: usize) -> Result<Vec<u8>, error::ReadError> {
    Ok(match ty {
        1 => r_i8(&r.read_record_i8(name, i)?),
        2 => r.read_record_u8(name, i)?,
        3 => r_i16(&r.read_record_i16(name, i)?),
        4 => r_i32(&r.read_record_i32(name, i)?),
        5 => r_f32(&r.read_record_f32(name, i)?),
        _ => r_f64(&r.read_record_f64(name, i)?),
    })
}
/// A data vector has this type and these bytes (no branch on symbolic bytes).
pub fn dv_is(d: &DataVector, ty: u8, b: &[u8]) -> bool {
    let (t, v) = raw_dv(d);
    t == ty && eq(&v, b)
}

// ------------------------------------------------------------------ comparing a data set with a model

fn attr_is(a: &Attribute, x: &Attr) -> bool {
    let n = x.data.len() / SZ[x.ty as usize];
    let b = match x.ty {
        1 => a.get_i8().map(r_i8),
        2 => a.get_u8().map(r_u8),
        3 => a.get_i16().map(r_i16),
        4 => a.get_i32().map(r_i32),
        5 => a.get_f32().map(r_f32),
        _ => a.get_f64().map(r_f64),
    };
    let mut some = 0;
    some += a.get_i8().is_some() as u8;
    some += a.get_u8().is_some() as u8;
    some += a.get_i16().is_some() as u8;
    some += a.get_i32().is_some() as u8;
    some += a.get_f32().is_some() as u8;
    some += a.get_f64().is_some() as u8;
    let same = match b {
        Some(b) => eq(&b, &x.data),
        None => false,
    };
    some == 1 && tnum(&a.data_type()) == x.ty && a.len() == n && same
}
fn name_is(a: &str, b: &str) -> bool {
    eq(a.as_bytes(), b.as_bytes())
}
fn names_are(a: &[String], b: &[&str]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| name_is(x, y))
}

/// Cheap concatenation (labels are built on every symbolic path).
pub fn cat(a: &str, b: &str) -> String {
    let mut s = String::with_capacity(a.len() + b.len());
    s.push_str(a);
    s.push_str(b);
    s
}

/// Every query of the public API on a data set agrees with the model.
/// Labels are `pre` + the part that differs.
pub fn same(d: &DataSet, m: &Set, pre: &str) {
    let l = |s: &str| cat(pre, s);
    same_dims(d, m, pre);
    // global attributes
    check(d.num_global_attrs() == m.attrs.len(), &l("gattr-count"));
    let an: Vec<&str> = m.attrs.iter().map(|x| x.name.as_str()).collect();
    check(names_are(&d.get_global_attr_names(), &an), &l("gattr-names"));
    for (i, x) in m.attrs.iter().enumerate() {
        let a = d.get_global_attrs();
        check(a.len() == m.attrs.len() && name_is(a[i].name(), &x.name), &l("gattr-order"));
        check(attr_is(a[i], x), &l("gattr-value"));
        check(d.has_global_attr(&x.name), &l("gattr-has"));
        check(d.get_global_attr_len(&x.name) == Some(x.data.len() / SZ[x.ty as usize]), &l("gattr-len"));
        check(d.get_global_attr_data_type(&x.name).map(|t| tnum(&t)) == Some(x.ty), &l("gattr-type"));
        check(d.get_global_attr(&x.name).map(|a| attr_is(a, x)) == Some(true), &l("gattr-get"));
        let n = &x.name;
        let g = match x.ty {
            1 => d.get_global_attr_i8(n).map(r_i8),
            2 => d.get_global_attr_u8(n).map(r_u8),
            3 => d.get_global_attr_i16(n).map(r_i16),
            4 => d.get_global_attr_i32(n).map(r_i32),
            5 => d.get_global_attr_f32(n).map(r_f32),
            _ => d.get_global_attr_f64(n).map(r_f64),
        };
        check(g.map(|b| eq(&b, &x.data)) == Some(true), &l("gattr-typed"));
        let mut some = 0;
        some += d.get_global_attr_i8(n).is_some() as u8;
        some += d.get_global_attr_u8(n).is_some() as u8;
        some += d.get_global_attr_i16(n).is_some() as u8;
        some += d.get_global_attr_i32(n).is_some() as u8;
        some += d.get_global_attr_f32(n).is_some() as u8;
        some += d.get_global_attr_f64(n).is_some() as u8;
        check(some == 1, &l("gattr-one-type"));
        if x.ty != 2 {
            check(d.get_global_attr_as_string(n).is_none(), &l("gattr-string"));
        }
    }
    // variables
    check(d.num_vars() == m.vars.len(), &l("var-count"));
    let vn: Vec<&str> = m.vars.iter().map(|x| x.name.as_str()).collect();
    check(names_are(&d.get_var_names(), &vn), &l("var-names"));
    check(d.get_vars().len() == m.vars.len(), &l("var-list"));
    for (i, x) in m.vars.iter().enumerate() {
        let vs = d.get_vars();
        check(name_is(vs[i].name(), &x.name), &l("var-order"));
        check(d.has_var(&x.name), &l("var-has"));
        check(d.var_data_type(&x.name).map(|t| tnum(&t)) == Some(x.ty), &l("var-type"));
        check(d.is_record_var(&x.name) == Some(m.is_rec(x)), &l("var-record"));
        check(d.var_len(&x.name) == Some(m.chunk_len(x) * m.chunks(x)), &l("var-len"));
        check(d.num_var_attrs(&x.name) == Some(x.attrs.len()), &l("vattr-count"));
        match d.get_var(&x.name) {
            None => fail(&l("var-get")),
            Some(v) => {
                check(std::ptr::eq(v, vs[i]), &l("var-get"));
                check(tnum(&v.data_type()) == x.ty, &l("var-type"));
                check(v.num_dims() == x.dims.len(), &l("var-dims"));
                let dn: Vec<&str> = x.dims.iter().map(|i| m.dims[*i].name.as_str()).collect();
                check(names_are(&v.dim_names(), &dn), &l("var-dims"));
                for (k, rc) in v.get_dims().iter().enumerate() {
                    check(rc.size() == m.dims[x.dims[k]].size, &l("var-dim-size"));
                    check(rc.is_unlimited() == m.dims[x.dims[k]].unlim, &l("var-dim-kind"));
                }
                for (k, md) in m.dims.iter().enumerate() {
                    check(v.use_dim(&md.name) == x.dims.contains(&k), &l("var-use-dim"));
                }
                check(v.is_record_var() == m.is_rec(x), &l("var-record"));
                check(v.len() == m.chunk_len(x) * m.chunks(x), &l("var-len"));
                check(v.chunk_len() == m.chunk_len(x), &l("var-chunk-len"));
                check(v.chunk_size() == m.chunk_size(x), &l("var-chunk-size"));
                check(v.num_chunks() == m.chunks(x), &l("var-chunks"));
                check(v.num_attrs() == x.attrs.len(), &l("vattr-count"));
                let an: Vec<&str> = x.attrs.iter().map(|a| a.name.as_str()).collect();
                check(names_are(&v.get_attr_names(), &an), &l("vattr-names"));
                let list = v.get_attrs();
                check(list.len() == x.attrs.len(), &l("vattr-list"));
                for (k, a) in x.attrs.iter().enumerate() {
                    check(name_is(list[k].name(), &a.name) && attr_is(list[k], a), &l("vattr-value"));
                    check(v.has_attr(&a.name), &l("vattr-has"));
                    check(d.has_var_attr(&x.name, &a.name) == Some(true), &l("vattr-has"));
                    check(d.get_var_attr(&x.name, &a.name).map(|q| attr_is(q, a)) == Some(true), &l("vattr-get"));
                    check(v.get_attr(&a.name).map(|q| attr_is(q, a)) == Some(true), &l("vattr-get"));
                    check(d.get_var_attr_len(&x.name, &a.name) == Some(a.data.len() / SZ[a.ty as usize]), &l("vattr-len"));
                    check(d.get_var_attr_data_type(&x.name, &a.name).map(|t| tnum(&t)) == Some(a.ty), &l("vattr-type"));
                    let (vn, n) = (&x.name, &a.name);
                    let g = match a.ty {
                        1 => d.get_var_attr_i8(vn, n).map(r_i8),
                        2 => d.get_var_attr_u8(vn, n).map(r_u8),
                        3 => d.get_var_attr_i16(vn, n).map(r_i16),
                        4 => d.get_var_attr_i32(vn, n).map(r_i32),
                        5 => d.get_var_attr_f32(vn, n).map(r_f32),
                        _ => d.get_var_attr_f64(vn, n).map(r_f64),
                    };
                    check(g.map(|b| eq(&b, &a.data)) == Some(true), &l("vattr-typed"));
                    let g = match a.ty {
                        1 => v.get_attr_i8(n).map(r_i8),
                        2 => v.get_attr_u8(n).map(r_u8),
                        3 => v.get_attr_i16(n).map(r_i16),
                        4 => v.get_attr_i32(n).map(r_i32),
                        5 => v.get_attr_f32(n).map(r_f32),
                        _ => v.get_attr_f64(n).map(r_f64),
                    };
                    check(g.map(|b| eq(&b, &a.data)) == Some(true), &l("vattr-typed"));
                    let mut some = 0;
                    some += d.get_var_attr_i8(vn, n).is_some() as u8;
                    some += d.get_var_attr_u8(vn, n).is_some() as u8;
                    some += d.get_var_attr_i16(vn, n).is_some() as u8;
                    some += d.get_var_attr_i32(vn, n).is_some() as u8;
                    some += d.get_var_attr_f32(vn, n).is_some() as u8;
                    some += d.get_var_attr_f64(vn, n).is_some() as u8;
                    check(some == 1, &l("vattr-one-type"));
                    some = 0;
                    some += v.get_attr_i8(n).is_some() as u8;
                    some += v.get_attr_u8(n).is_some() as u8;
                    some += v.get_attr_i16(n).is_some() as u8;
                    some += v.get_attr_i32(n).is_some() as u8;
                    some += v.get_attr_f32(n).is_some() as u8;
                    some += v.get_attr_f64(n).is_some() as u8;
                    check(some == 1, &l("vattr-one-type"));
                    if a.ty != 2 {
                        check(d.get_var_attr_as_string(vn, n).is_none(), &l("vattr-string"));
                        check(v.get_attr_as_string(n).is_none(), &l("vattr-string"));
                    }
                }
                check(d.get_var_attrs(&x.name).map(|q| q.len()) == Some(x.attrs.len()), &l("vattr-list"));
            }
        }
    }
    match d.record_size() {
        None => check(m.nrec().is_none(), &l("record-size")),
        Some(n) => check(m.nrec().is_some() && n == m.rec_size(), &l("record-size")),
    }
}

pub fn same_dims(d: &DataSet, m: &Set, pre: &str) {
    let l = |s: &str| cat(pre, s);
    check(d.num_dims() == m.dims.len(), &l("dim-count"));
    let dn: Vec<&str> = m.dims.iter().map(|x| x.name.as_str()).collect();
    check(names_are(&d.dim_names(), &dn), &l("dim-names"));
    let ds = d.get_dims();
    check(ds.len() == m.dims.len(), &l("dim-list"));
    let mut u = None;
    for (i, x) in m.dims.iter().enumerate() {
        let t = if x.unlim { DimensionType::UnlimitedSize } else { DimensionType::FixedSize };
        check(name_is(&ds[i].name(), &x.name), &l("dim-order"));
        check(ds[i].size() == x.size, &l("dim-size"));
        check(ds[i].is_unlimited() == x.unlim && ds[i].is_fixed() != x.unlim && ds[i].dim_type() == t, &l("dim-kind"));
        check(d.has_dim(&x.name), &l("dim-has"));
        check(d.dim_size(&x.name) == Some(x.size), &l("dim-size"));
        check(d.dim_type(&x.name) == Some(t), &l("dim-kind"));
        check(d.get_dim(&x.name).map(|r| std::rc::Rc::ptr_eq(&r, &ds[i])) == Some(true), &l("dim-get"));
        match d.get_dims_from_dim_ids(&[i]) {
            Ok(v) => check(v.len() == 1 && std::rc::Rc::ptr_eq(&v[0], &ds[i]), &l("dim-id")),
            Err(_) => fail(&l("dim-id")),
        }
        if x.unlim {
            u = Some(i);
        }
    }
    check(d.get_dims_from_dim_ids(&[m.dims.len()]).is_err(), &l("dim-id-beyond"));
    check(d.has_unlimited_dim() == u.is_some(), &l("unlimited-has"));
    match d.get_unlimited_dim() {
        None => check(u.is_none(), &l("unlimited-get")),
        Some(r) => check(u.map(|i| std::rc::Rc::ptr_eq(&r, &ds[i])) == Some(true), &l("unlimited-get")),
    }
    check(d.num_records() == m.nrec(), &l("num-records"));
}
