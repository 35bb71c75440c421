//! Histories of definition operations against the model: C10, C11, C12, C14.

use crate::model::*;
use crate::rd::name_bad;
use crate::sym::*;
use netcdf3::*;
use InvalidDataSet as E;

/// A name of 0..=max symbolic ASCII bytes.
fn ascii(max: usize) -> String {
    let b = bytes(choice(max + 1), "name");
    let mut ok = true;
    for x in b.iter() {
        ok &= *x < 0x80;
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}
fn same_name(a: &str, b: &str) -> bool {
    eq(a.as_bytes(), b.as_bytes())
}
/// Position of a name (a branch per entry).
fn at<'a>(mut l: impl Iterator<Item = &'a String>, n: &str) -> Option<usize> {
    l.position(|x| same_name(x, n))
}
impl Set {
    fn dim_at(&self, n: &str) -> Option<usize> {
        at(self.dims.iter().map(|x| &x.name), n)
    }
    fn var_at(&self, n: &str) -> Option<usize> {
        at(self.vars.iter().map(|x| &x.name), n)
    }
    fn attr_at(&self, n: &str) -> Option<usize> {
        at(self.attrs.iter().map(|x| &x.name), n)
    }
}

pub const STARTS: u64 = 8;
pub fn start(k: usize) -> Set {
    let mut m = Set::new();
    match k {
        0 => {}
        1 => {
            m.dims.push(dim("a", 2));
            m.dims.push(unlim("t", 3));
            m.dims.push(dim("ab", 1));
            m.attrs.push(attr("a", 3, vec![1, 2, 3, 4]));
            m.attrs.push(attr("ab", 1, vec![5]));
            let mut v = var("a", 3, &[1, 0]);
            v.attrs.push(attr("u", 5, vec![1, 2, 3, 4, 5, 6, 7, 8]));
            v.attrs.push(attr("uu", 1, vec![9]));
            let mut w = var("A", 6, &[2]);
            w.attrs.push(attr("u", 4, vec![1, 2, 3, 4]));
            m.vars.push(v);
            m.vars.push(w);
        }
        2 => {
            m.dims.push(unlim("t", 0));
            m.dims.push(dim("x", 2));
            m.attrs.push(attr("x", 6, vec![0; 16]));
        }
        // variables of three to five dimensions
        4 => {
            m.dims.push(dim("a", 2));
            m.dims.push(dim("b", 3));
            m.dims.push(unlim("t", 1));
            m.dims.push(dim("c", 1));
            m.dims.push(dim("d", 2));
            m.vars.push(var("p", 1, &[2, 3, 0]));
            m.vars.push(var("q", 3, &[0, 1, 4, 3]));
            m.vars.push(var("r", 6, &[2, 4, 3, 1, 0]));
            m.vars.push(var("s", 5, &[3, 4]));
        }
        _ => {
            m.dims.push(dim("x", 3));
            m.dims.push(dim("X", 1));
            m.vars.push(var("v", 2, &[0]));
            m.vars.push(var("w", 6, &[]));
            m.vars.push(var("vv", 1, &[0, 1]));
        }
    }
    m
}

/// Ok exactly when no error applies; otherwise one of the errors that apply.
fn outcome<T>(r: Result<T, E>, errs: &[E], label: &str) -> Option<T> {
    match r {
        Ok(x) => {
            reach("ops.ok");
            check(errs.is_empty(), &cat(label, ".accepted"));
            if errs.is_empty() {
                Some(x)
            } else {
                None
            }
        }
        Err(e) => {
            reach("ops.err");
            if errs.is_empty() {
                fail(&cat(label, ".refused"));
            } else {
                check(errs.iter().any(|x| *x == e), &cat(label, ".error"));
            }
            None
        }
    }
}

/// A name for a light operation: an existing one or a new one.
fn pick(l: Vec<&str>, new: &str) -> String {
    let i = choice(l.len() + 1);
    if i < l.len() {
        l[i].into()
    } else {
        new.into()
    }
}
fn old_new(l: Vec<&str>, rich: bool, fresh: &str) -> (String, String) {
    let (old, new);
    if rich {
        if choice(2) == 0 {
            old = pick(l, "q");
            new = ascii(2);
        } else {
            old = ascii(2);
            new = pick(l, fresh);
        }
    } else {
        // light: a defined name to a new one, or the first one to the last one
        let i = choice(l.len() + 1);
        if i < l.len() {
            old = l[i].into();
            new = fresh.into();
        } else {
            old = l.first().unwrap_or(&"q").to_string();
            new = l.last().unwrap_or(&fresh).to_string();
        }
    }
    (old, new)
}
fn any_attr(name: String, rich: bool, k: usize) -> Attr {
    if rich {
        // one- and two-byte names with one type only, the others with every type
        let t = if name.len() > 1 { 1 + (k % 6) as u8 } else { 1 + choice(6) as u8 };
        sattr(&name, t, if name.len() == 1 { choice(3) } else { 1 })
    } else {
        let t = 1 + (k % 6) as u8;
        sattr(&name, t, 1 + k % 2)
    }
}
fn add_attr_mut(v: &mut Variable, a: &Attr) -> Result<(), E> {
    match a.ty {
        1 => v.add_attr_i8(&a.name, v_i8(&a.data)),
        2 => v.add_attr_u8(&a.name, a.data.clone()),
        3 => v.add_attr_i16(&a.name, v_i16(&a.data)),
        4 => v.add_attr_i32(&a.name, v_i32(&a.data)),
        5 => v.add_attr_f32(&a.name, v_f32(&a.data)),
        _ => v.add_attr_f64(&a.name, v_f64(&a.data)),
    }
}
fn dim_names(m: &Set) -> Vec<&str> {
    m.dims.iter().map(|x| x.name.as_str()).collect()
}
fn var_names(m: &Set) -> Vec<&str> {
    m.vars.iter().map(|x| x.name.as_str()).collect()
}
fn attr_names(l: &[Attr]) -> Vec<&str> {
    l.iter().map(|x| x.name.as_str()).collect()
}
fn attr_ok(a: &Attribute, x: &Attr) -> bool {
    let s = a.get_i8().map(r_i8).or_else(|| a.get_u8().map(|q| q.to_vec())).or_else(|| a.get_i16().map(r_i16)).or_else(|| a.get_i32().map(r_i32)).or_else(|| a.get_f32().map(r_f32)).or_else(|| a.get_f64().map(r_f64));
    same_name(a.name(), &x.name) && tnum(&a.data_type()) == x.ty && a.len() == x.data.len() / SZ[x.ty as usize] && s.map(|b| eq(&b, &x.data)) == Some(true)
}
/// The lists of dimensions that add_var may be called with.
fn any_dims(m: &Set, max: usize) -> Vec<String> {
    let n = choice(max + 1);
    (0..n).map(|_| pick(dim_names(m), "q")).collect()
}

pub const KINDS: u64 = 16;
/// One operation; `k` varies the parameters of light operations.
pub fn op(kind: usize, rich: bool, k: usize, d: &mut DataSet, m: &mut Set) {
    match kind {
        0 | 1 => {
            let u = kind == 1;
            let (name, size);
            if rich {
                name = ascii(2);
                size = u64v("size") as usize;
            } else {
                name = if k % 2 == 0 { "n" } else { "a" }.into();
                size = 1 + k;
            }
            let mut e = vec![];
            if u {
                for x in m.dims.iter() {
                    if x.unlim {
                        e.push(E::UnlimitedDimensionAlreadyExists(x.name.clone()));
                    }
                }
            }
            if m.dim_at(&name).is_some() {
                e.push(E::DimensionAlreadyExists(name.clone()));
            }
            if name_bad(name.as_bytes()) {
                e.push(E::DimensionNameNotValid(name.clone()));
            }
            if !u && size == 0 {
                e.push(E::FixedDimensionWithZeroSize(name.clone()));
            }
            if !u && size > 2147483644 {
                e.push(E::MaximumFixedDimensionSizeExceeded { dim_name: name.clone(), get: size });
            }
            let r = if u { d.set_unlimited_dim(&name, size) } else { d.add_fixed_dim(&name, size) };
            if outcome(r, &e, if u { "set_unlimited_dim" } else { "add_fixed_dim" }).is_some() {
                m.dims.push(Dim { name, size, unlim: u });
            }
        }
        2 => {
            let (old, new) = old_new(dim_names(m), rich, "n");
            let i = m.dim_at(&old);
            let j = m.dim_at(&new);
            let mut e = vec![];
            if i.is_none() {
                assume(!same_name(&old, &new));
                e.push(E::DimensionNotDefined(old.clone()));
            }
            if j.is_some() && i != j {
                e.push(E::DimensionAlreadyExists(new.clone()));
            }
            if name_bad(new.as_bytes()) && i != j {
                e.push(E::DimensionNameNotValid(new.clone()));
            }
            if i.is_none() && name_bad(new.as_bytes()) {
                e.push(E::DimensionNameNotValid(new.clone()));
            }
            if outcome(d.rename_dim(&old, &new), &e, "rename_dim").is_some() {
                m.dims[i.unwrap()].name = new;
            }
        }
        3 => {
            let name = if rich { ascii(2) } else { pick(dim_names(m), "q") };
            let i = m.dim_at(&name);
            let mut e = vec![];
            match i {
                None => e.push(E::DimensionNotDefined(name.clone())),
                Some(i) => {
                    let l: Vec<String> = m.vars.iter().filter(|v| v.dims.contains(&i)).map(|v| v.name.clone()).collect();
                    if !l.is_empty() {
                        e.push(E::DimensionYetUsed { var_names: l, dim_name: name.clone() });
                    }
                }
            }
            if let Some(rc) = outcome(d.remove_dim(&name), &e, "remove_dim") {
                let i = i.unwrap();
                let x = m.dims.remove(i);
                check(same_name(&rc.name(), &x.name) && rc.size() == x.size && rc.is_unlimited() == x.unlim, "remove_dim.returned");
                for v in m.vars.iter_mut() {
                    for q in v.dims.iter_mut() {
                        if *q > i {
                            *q -= 1;
                        }
                    }
                }
            }
        }
        4 => {
            let (name, names);
            let mut t = 1 + (k % 6) as u8;
            if rich && m.dims.len() >= 4 {
                // four existing dimensions, or five of which the middle ones are the first ones
                name = "n".to_string();
                let d = dim_names(m);
                names = if choice(2) == 0 {
                    (0..4).map(|_| d[choice(d.len())].to_string()).collect()
                } else {
                    let mut l: Vec<String> = vec![d[choice(d.len())].into(), d[0].into(), d[choice(d.len())].into(), d[1].into()];
                    l.push(d[choice(d.len())].into());
                    l
                };
            } else if rich {
                match choice(3) {
                    0 => {
                        name = ascii(2);
                        names = any_dims(m, 1);
                    }
                    1 => {
                        names = any_dims(m, 3);
                        name = if names.len() < 2 { pick(var_names(m), "n") } else { "n".into() };
                        t = 1 + ((k + names.len()) % 6) as u8;
                    }
                    _ => {
                        name = "n".into();
                        names = vec![ascii(2)];
                        t = 1 + choice(6) as u8;
                    }
                }
            } else {
                name = if k % 2 == 0 { "n" } else { "b" }.into();
                let mut l: Vec<Vec<usize>> = vec![vec![]];
                for i in 0..m.dims.len() {
                    l.push(vec![i]);
                    if m.dims[i].unlim {
                        for j in 0..m.dims.len() {
                            l.push(vec![i, j]);
                        }
                    }
                }
                names = l[choice(l.len())].iter().map(|i| m.dims[*i].name.clone()).collect();
            }
            let ids: Vec<Option<usize>> = names.iter().map(|n| m.dim_at(n)).collect();
            let undef: Vec<String> = names.iter().zip(ids.iter()).filter(|(_, i)| i.is_none()).map(|(n, _)| n.clone()).collect();
            let mut e = vec![];
            if !undef.is_empty() {
                e.push(E::DimensionsNotDefined { var_name: name.clone(), undef_dim_names: undef });
            } else {
                let u = ids.iter().skip(1).position(|i| m.dims[i.unwrap()].unlim);
                if let Some(q) = u {
                    e.push(E::UnlimitedDimensionMustBeDefinedFirst { var_name: name.clone(), unlim_dim_name: names[q + 1].clone(), get_dim_names: names.clone() });
                }
                let twice = (0..ids.len()).any(|a| (0..a).any(|b| ids[a] == ids[b]));
                if twice {
                    e.push(E::DimensionsUsedMultipleTimes { var_name: name.clone(), get_dim_names: names.clone() });
                }
            }
            if m.var_at(&name).is_some() {
                e.push(E::VariableAlreadyExists(name.clone()));
            }
            if name_bad(name.as_bytes()) {
                e.push(E::VariableNameNotValid(name.clone()));
            }
            let r = if k % 2 == 0 {
                d.add_var(&name, &names, dtype(t))
            } else {
                match t {
                    1 => d.add_var_i8(&name, &names),
                    2 => d.add_var_u8(&name, &names),
                    3 => d.add_var_i16(&name, &names),
                    4 => d.add_var_i32(&name, &names),
                    5 => d.add_var_f32(&name, &names),
                    _ => d.add_var_f64(&name, &names),
                }
            };
            if outcome(r, &e, "add_var").is_some() {
                m.vars.push(Var { name, ty: t, dims: ids.into_iter().map(|i| i.unwrap()).collect(), attrs: vec![] });
            }
        }
        5 => {
            let (old, new) = old_new(var_names(m), rich, "n");
            let (i, j) = (m.var_at(&old), m.var_at(&new));
            let mut e = vec![];
            if i.is_none() {
                assume(!same_name(&old, &new));
                e.push(E::VariableNotDefined(old.clone()));
            }
            if j.is_some() && i != j {
                e.push(E::VariableAlreadyExists(new.clone()));
            }
            if name_bad(new.as_bytes()) {
                e.push(E::VariableNameNotValid(new.clone()));
            }
            if outcome(d.rename_var(&old, &new), &e, "rename_var").is_some() {
                m.vars[i.unwrap()].name = new;
            }
        }
        6 => {
            let name = if rich { ascii(2) } else { pick(var_names(m), "q") };
            let i = m.var_at(&name);
            let e = if i.is_none() { vec![E::VariableNotDefined(name.clone())] } else { vec![] };
            if let Some(v) = outcome(d.remove_var(&name), &e, "remove_var") {
                let x = m.vars.remove(i.unwrap());
                let l = v.get_attrs();
                let dn = v.dim_names();
                check(same_name(v.name(), &x.name) && tnum(&v.data_type()) == x.ty && l.len() == x.attrs.len() && dn.len() == x.dims.len(), "remove_var.returned");
                for (a, b) in l.iter().zip(x.attrs.iter()) {
                    check(attr_ok(a, b), "remove_var.returned");
                }
                for (a, b) in dn.iter().zip(x.dims.iter()) {
                    check(same_name(a, &m.dims[*b].name), "remove_var.returned");
                }
            }
        }
        7 => {
            let name = if rich { ascii(2) } else { pick(attr_names(&m.attrs), "n") };
            let a = any_attr(name.clone(), rich, k);
            let mut e = vec![];
            if m.attr_at(&name).is_some() {
                e.push(E::GlobalAttributeAlreadyExists(name.clone()));
            }
            if name_bad(name.as_bytes()) {
                e.push(E::GlobalAttributeNameNotValid(name));
            }
            if outcome(add_gattr(d, &a), &e, "add_global_attr").is_some() {
                m.attrs.push(a);
            }
        }
        8 => {
            let (old, new) = old_new(attr_names(&m.attrs), rich, "n");
            let (i, j) = (m.attr_at(&old), m.attr_at(&new));
            let mut e = vec![];
            if i.is_none() {
                assume(!same_name(&old, &new));
                e.push(E::GlobalAttributeNotDefined(old.clone()));
            }
            if j.is_some() && i != j {
                e.push(E::GlobalAttributeAlreadyExists(new.clone()));
            }
            if name_bad(new.as_bytes()) {
                e.push(E::GlobalAttributeNameNotValid(new.clone()));
            }
            if outcome(d.rename_global_attr(&old, &new), &e, "rename_global_attr").is_some() {
                m.attrs[i.unwrap()].name = new;
            }
        }
        9 => {
            let name = if rich { ascii(2) } else { pick(attr_names(&m.attrs), "q") };
            let i = m.attr_at(&name);
            let e = if i.is_none() { vec![E::GlobalAttributeNotDefined(name.clone())] } else { vec![] };
            if let Some(a) = outcome(d.remove_global_attr(&name), &e, "remove_global_attr") {
                let x = m.attrs.remove(i.unwrap());
                check(attr_ok(&a, &x), "remove_global_attr.returned");
            }
        }
        10..=14 => {
            let by_var = kind >= 13;
            let vn = if rich && choice(4) == 0 { ascii(1) } else { pick(var_names(m), "q") };
            let vi = m.var_at(&vn);
            let none = vec![];
            let l: Vec<String> = attr_names(vi.map(|i| &m.vars[i].attrs).unwrap_or(&none)).iter().map(|x| x.to_string()).collect();
            let l: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
            let mut e = vec![];
            if vi.is_none() {
                e.push(E::VariableNotDefined(vn.clone()));
                if by_var {
                    check(d.get_var_mut(&vn).is_none(), "get_var_mut.absent");
                    return;
                }
            }
            let pos = |n: &str| vi.and_then(|i| at(m.vars[i].attrs.iter().map(|x| &x.name), n));
            match kind {
                10 | 13 => {
                    let name = if rich { ascii(2) } else { pick(l, "n") };
                    let a = any_attr(name.clone(), rich, k);
                    if pos(&name).is_some() {
                        e.push(E::VariableAttributeAlreadyExists { var_name: vn.clone(), attr_name: name.clone() });
                    }
                    if name_bad(name.as_bytes()) {
                        e.push(E::VariableAttributeNameNotValid { var_name: vn.clone(), attr_name: name });
                    }
                    let r = if by_var { add_attr_mut(d.get_var_mut(&vn).unwrap(), &a) } else { add_vattr(d, &vn, &a) };
                    if outcome(r, &e, "add_var_attr").is_some() {
                        m.vars[vi.unwrap()].attrs.push(a);
                    }
                }
                11 => {
                    let (old, new) = old_new(l, rich, "n");
                    let (i, j) = (pos(&old), pos(&new));
                    if i.is_none() && vi.is_some() {
                        assume(!same_name(&old, &new));
                        e.push(E::VariableAttributeNotDefined { var_name: vn.clone(), attr_name: old.clone() });
                    }
                    if j.is_some() && i != j {
                        e.push(E::VariableAttributeAlreadyExists { var_name: vn.clone(), attr_name: new.clone() });
                    }
                    if name_bad(new.as_bytes()) {
                        e.push(E::VariableAttributeNameNotValid { var_name: vn.clone(), attr_name: new.clone() });
                    }
                    if outcome(d.rename_var_attr(&vn, &old, &new), &e, "rename_var_attr").is_some() {
                        m.vars[vi.unwrap()].attrs[i.unwrap()].name = new;
                    }
                }
                _ => {
                    let name = if rich { ascii(2) } else { pick(l, "q") };
                    let i = pos(&name);
                    if i.is_none() && vi.is_some() {
                        e.push(E::VariableAttributeNotDefined { var_name: vn.clone(), attr_name: name.clone() });
                    }
                    let r = if by_var { d.get_var_mut(&vn).unwrap().remove_attr(&name) } else { d.remove_var_attr(&vn, &name) };
                    if let Some(a) = outcome(r, &e, "remove_var_attr") {
                        let x = m.vars[vi.unwrap()].attrs.remove(i.unwrap());
                        check(attr_ok(&a, &x), "remove_var_attr.returned");
                    }
                }
            }
        }
        // queries about any name, defined or not
        _ => {
            let n = if rich { ascii(2) } else { pick(vec!["q", "", "t", "aba", "a "], "B") };
            query(d, m, &n);
        }
    }
}

fn some_typed(l: [bool; 6]) -> u8 {
    l.iter().map(|x| *x as u8).sum()
}
/// Every query by name, for a name that may or may not be defined.
fn query(d: &DataSet, m: &Set, n: &str) {
    let i = m.dim_at(n);
    check(d.has_dim(n) == i.is_some(), "query.has-dim");
    check(d.dim_size(n) == i.map(|i| m.dims[i].size), "query.dim-size");
    check(d.dim_type(n) == i.map(|i| if m.dims[i].unlim { DimensionType::UnlimitedSize } else { DimensionType::FixedSize }), "query.dim-type");
    match d.get_dim(n) {
        None => check(i.is_none(), "query.get-dim"),
        Some(rc) => check(i.map(|i| std::rc::Rc::ptr_eq(&rc, &d.get_dims()[i])) == Some(true), "query.get-dim"),
    }
    for (k, v) in d.get_vars().iter().enumerate() {
        check(v.use_dim(n) == i.map(|i| m.vars[k].dims.contains(&i)).unwrap_or(false), "query.use-dim");
        let j = at(m.vars[k].attrs.iter().map(|x| &x.name), n);
        check(v.has_attr(n) == j.is_some(), "query.has-attr");
        check(v.get_attr(n).is_some() == j.is_some(), "query.get-attr");
        let t = some_typed([v.get_attr_i8(n).is_some(), v.get_attr_u8(n).is_some(), v.get_attr_i16(n).is_some(), v.get_attr_i32(n).is_some(), v.get_attr_f32(n).is_some(), v.get_attr_f64(n).is_some()]);
        check(t == j.is_some() as u8, "query.get-attr-typed");
        let vn = v.name();
        check(d.has_var_attr(vn, n) == Some(j.is_some()), "query.has-attr");
        check(d.get_var_attr(vn, n).is_some() == j.is_some() && d.get_var_attr_len(vn, n).is_some() == j.is_some() && d.get_var_attr_data_type(vn, n).is_some() == j.is_some(), "query.get-attr");
        if j.is_none() {
            check(d.get_var_attr_as_string(vn, n).is_none() && v.get_attr_as_string(n).is_none(), "query.get-attr");
        }
    }
    let i = m.var_at(n);
    check(d.has_var(n) == i.is_some(), "query.has-var");
    check(d.get_var(n).is_some() == i.is_some(), "query.get-var");
    check(d.var_len(n) == i.map(|i| m.chunk_len(&m.vars[i]) * m.chunks(&m.vars[i])), "query.var-len");
    check(d.var_data_type(n).map(|t| tnum(&t)) == i.map(|i| m.vars[i].ty), "query.var-type");
    check(d.is_record_var(n) == i.map(|i| m.is_rec(&m.vars[i])), "query.is-record");
    check(d.num_var_attrs(n) == i.map(|i| m.vars[i].attrs.len()), "query.num-attrs");
    check(d.get_var_attrs(n).map(|l| l.len()) == i.map(|i| m.vars[i].attrs.len()), "query.var-attrs");
    if i.is_none() {
        check(d.has_var_attr(n, "u").is_none(), "query.has-attr");
        check(d.get_var_attr(n, "u").is_none() && d.get_var_attr_len(n, "u").is_none() && d.get_var_attr_data_type(n, "u").is_none() && d.get_var_attr_as_string(n, "u").is_none(), "query.get-attr");
        let t = some_typed([d.get_var_attr_i8(n, "u").is_some(), d.get_var_attr_u8(n, "u").is_some(), d.get_var_attr_i16(n, "u").is_some(), d.get_var_attr_i32(n, "u").is_some(), d.get_var_attr_f32(n, "u").is_some(), d.get_var_attr_f64(n, "u").is_some()]);
        check(t == 0, "query.get-attr-typed");
    }
    let j = m.attr_at(n);
    check(d.has_global_attr(n) == j.is_some(), "query.has-gattr");
    check(d.get_global_attr(n).is_some() == j.is_some() && d.get_global_attr_len(n).is_some() == j.is_some() && d.get_global_attr_data_type(n).is_some() == j.is_some(), "query.get-gattr");
    let t = some_typed([d.get_global_attr_i8(n).is_some(), d.get_global_attr_u8(n).is_some(), d.get_global_attr_i16(n).is_some(), d.get_global_attr_i32(n).is_some(), d.get_global_attr_f32(n).is_some(), d.get_global_attr_f64(n).is_some()]);
    check(t == j.is_some() as u8, "query.get-gattr-typed");
    if j.is_none() {
        check(d.get_global_attr_as_string(n).is_none(), "query.get-gattr");
    }
}

/// C10-C12: p = start, number of operations, kinds (the last one is rich).
pub fn ops(p: u64) {
    let mut p = P(p);
    let mut m = start(p.take(STARTS));
    let n = p.take(8);
    let mut d = build(&m);
    expect("ops.ok");
    for i in 0..n {
        let kind = p.take(KINDS);
        op(kind, i + 1 == n, i, &mut d, &mut m);
        same(&d, &m, "ops.");
        query(&d, &m, "q");
    }
    emit_u(m.dims.len() * 10000 + m.vars.len() * 100 + m.attrs.len());
}
/// Variables with very many dimensions. p = how many too many or too few.
pub fn many_dims(p: u64) {
    let n = 1022 + p as usize;
    let mut d = DataSet::new();
    let mut names = vec![];
    for i in 0..n {
        let s = String::from_utf8(vec![b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i / 676) as u8]).unwrap();
        check(d.add_fixed_dim(&s, 1).is_ok(), "build.dim");
        names.push(s);
    }
    let r = d.add_var("v", &names, DataType::I8);
    expect("many");
    reach("many");
    if n <= 1024 {
        check(r.is_ok(), "add_var.refused");
        check(d.num_vars() == 1 && d.get_var("v").map(|v| v.num_dims()) == Some(n), "add_var.many");
        check(d.var_len("v") == Some(1), "add_var.many");
    } else {
        check(r == Err(E::MaximumDimensionsPerVariableExceeded { var_name: "v".into(), num_dims: n }), "add_var.too-many");
        check(d.num_vars() == 0, "add_var.too-many");
    }
}

// ------------------------------------------------------------------ C14

/// p = shape of the definition, types, operations.
pub fn c14_sizes(p: u64) {
    let mut p = P(p);
    let k = p.take(8);
    let ta = 1 + p.take(6) as u8;
    // the sizes of x, y and t: every byte size stays below 2^63
    let bits = [[20, 20, 20], [31, 2, 27], [2, 31, 27], [27, 2, 31], [31, 26, 3], [8, 8, 8]][p.take(6)];
    let size = |bits: u32, min: u32| {
        let s = u32v("size") & ((1u64 << bits) - 1) as u32;
        assume((s >= min) & (s <= 2147483644));
        s as usize
    };
    let tb = 1 + choice(6) as u8;
    let mut m = Set::new();
    let pos = choice(3);
    let (sx, sy, st) = (size(bits[0], 1), size(bits[1], 1), size(bits[2], 0));
    for i in 0..3 {
        if i == pos {
            m.dims.push(unlim("t", st));
        } else if m.dim_at("x").is_none() {
            m.dims.push(dim("x", sx));
        } else {
            m.dims.push(dim("y", sy));
        }
    }
    let (x, y, t) = (m.dim_at("x").unwrap(), m.dim_at("y").unwrap(), pos);
    let l: [&[usize]; 3] = match k {
        0 => [&[t, x], &[], &[t]],
        1 => [&[x, y], &[t, y, x], &[x]],
        2 => [&[t], &[y], &[t, x, y]],
        3 => [&[], &[x], &[y, x]],
        4 => [&[t, x], &[t, y], &[x, y]],
        5 => [&[t], &[t], &[t]],
        6 => [&[t, y, x], &[x], &[y]],
        _ => [&[x], &[t, x], &[t, y]],
    };
    m.vars.push(var("a", ta, l[0]));
    m.vars.push(var("b", tb, l[1]));
    m.vars.push(var("c", (ta + tb) % 6 + 1, l[2]));
    let mut d = build(&m);
    expect("c14");
    reach("c14");
    same(&d, &m, "c14.");
    // then change it
    match choice(6) {
        0 => {}
        1 => {
            check(d.remove_var("b").is_ok(), "remove_var.refused");
            m.vars.remove(1);
        }
        2 => {
            check(d.remove_var("a").is_ok(), "remove_var.refused");
            m.vars.remove(0);
            let v = var("z", tb, &[t]);
            check(add_var(&mut d, &m, &v).is_ok(), "add_var.refused");
            m.vars.push(v);
        }
        3 => {
            check(d.rename_dim("x", "z").is_ok() && d.rename_var("a", "zz").is_ok(), "rename.refused");
            m.dims[x].name = "z".into();
            m.vars[0].name = "zz".into();
        }
        4 => {
            // another unlimited dimension of another size
            for _ in 0..3 {
                check(d.remove_var(&m.vars[0].name).is_ok(), "remove_var.refused");
                m.vars.remove(0);
            }
            check(d.remove_dim("t").is_ok(), "remove_dim.refused");
            m.dims.remove(t);
            same(&d, &m, "c14.");
            let n = size(bits[2], 0);
            check(d.set_unlimited_dim("t", n).is_ok(), "set_unlimited_dim.refused");
            m.dims.push(unlim("t", n));
            let v = var("a", ta, &[2, 1]);
            check(add_var(&mut d, &m, &v).is_ok(), "add_var.refused");
            m.vars.push(v);
            let v = var("b", tb, &[0, 1]);
            check(add_var(&mut d, &m, &v).is_ok(), "add_var.refused");
            m.vars.push(v);
        }
        _ => {
            check(d.add_fixed_dim("w", sx).is_ok(), "add_fixed_dim.refused");
            m.dims.push(dim("w", sx));
            let v = var("z", ta, &[t, 3]);
            check(add_var(&mut d, &m, &v).is_ok(), "add_var.refused");
            m.vars.push(v);
        }
    }
    same(&d, &m, "c14.");
}
