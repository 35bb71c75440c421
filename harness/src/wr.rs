//! I/O faults: C09.

use crate::io::{any_shape, read_back, shape, whole, F};
use crate::model::*;
use crate::sym::*;
use netcdf3::error::{ReadError, WriteError};
use netcdf3::*;

const SEEK: u32 = 16;
const KINDS: [u32; 6] = [F_SHORT, F_EINTR, F_ERR, F_ZERO, SEEK, F_SHORT | F_EINTR | F_ERR | F_ZERO | SEEK];
const NO_FAULTS: (u32, u32) = (0, 0);

fn off() {
    fault(NO_FAULTS.0, NO_FAULTS.1)
}
/// Every byte is the one of `a` or the one of `b`.
fn either(got: &[u8], a: &[u8], b: &[u8]) -> bool {
    let mut ok = got.len() == a.len() && got.len() == b.len();
    if ok {
        for i in 0..got.len() {
            ok &= (got[i] == a[i]) | (got[i] == b[i]);
        }
    }
    ok
}
/// What one record of one variable may hold.
#[derive(Clone)]
enum Cell {
    Never,
    Is(Vec<u8>),
    /// a write of the second value failed while the cell held the first
    Torn(Vec<u8>, Vec<u8>),
}
struct St {
    m: Set,
    l: Layout,
    cells: Vec<Vec<Cell>>,
}
impl St {
    fn at(&self, i: usize, r: usize) -> usize {
        self.l.begins[i] as usize + r * self.l.rec_size * (self.m.is_rec(&self.m.vars[i]) as usize)
    }
    fn failed(&mut self, i: usize, r: usize, b: &[u8]) {
        let ty = self.m.vars[i].ty;
        let c = &mut self.cells[i][r];
        *c = match c.clone() {
            Cell::Never => Cell::Torn(fill_bytes(ty, b.len()), b.to_vec()),
            Cell::Is(a) => Cell::Torn(a, b.to_vec()),
            // only two failed writes of the same value are ever made
            Cell::Torn(a, b) => Cell::Torn(a, b),
        }
    }
    fn holds(&self, i: usize, r: usize, lab: &str) {
        let v = &self.m.vars[i];
        let u = self.m.useful(v);
        let at = self.at(i, r) as u64;
        let got = get_at(F, at, u);
        let p = pad4(u);
        let ok = match &self.cells[i][r] {
            Cell::Never => eq(&got, &fill_bytes(v.ty, u)),
            Cell::Is(a) => eq(&got, a),
            Cell::Torn(a, b) => either(&got, a, b),
        };
        check(fsize(F).unwrap_or(0) >= at + (u + p) as u64, lab);
        check(ok & eq(&get_at(F, at + u as u64, p), &fill_bytes(v.ty, p)), lab);
    }
}

/// One write, possibly under faults; a failed one is repeated or left.
fn step(w: &mut FileWriter, s: &mut St, i: usize, rec: Option<usize>, data: &[Vec<u8>], may_leave: bool) {
    let v = s.m.vars[i].clone();
    let rs: Vec<usize> = match rec {
        Some(r) => vec![r],
        None => (0..s.m.chunks(&v)).collect(),
    };
    loop {
        let r = match rec {
            Some(r) => write_rec(w, &v.name, v.ty, r, &data[r]),
            None => write_var(w, &v.name, v.ty, &data.concat()),
        };
        match r {
            Ok(()) => {
                for r in rs.iter() {
                    s.cells[i][*r] = Cell::Is(data[*r].clone());
                    s.holds(i, *r, "c09.write-ok-incomplete");
                }
                reach("c09.write-ok");
                return;
            }
            Err(e) => {
                check(matches!(e, WriteError::IOErrorKind(_)), "c09.write-error-kind");
                reach("c09.write-failed");
                for r in rs.iter() {
                    s.failed(i, *r, &data[*r]);
                }
                if may_leave && choice(2) == 0 {
                    return;
                }
            }
        }
    }
}

/// Writing under faults. p = version, shape, type, stage with faults, kinds of faults, number of faults.
pub fn c09_write(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(4);
    let t = 1 + p.take(6) as u8;
    let stage = p.take(4);
    let kinds = KINDS[p.take(6)];
    let budget = p.take(4) as u32;
    let m = match k {
        0 => shape(1, t, 1, 2, 0),
        1 => shape(3, t, 1, if SZ[t as usize] < 4 { 3 } else { 1 }, 2),
        2 => shape(4, t, 1, 1, 1 + choice(2)),
        _ => shape(5, 3, t, 1, 2),
    };
    let l = layout(&m, v, 0);
    let h = header(&m, v, numrecs(&m), &l.vsizes, &l.begins);
    let data: Vec<Vec<Vec<u8>>> = m.vars.iter().map(|x| (0..m.chunks(x)).map(|_| bytes(m.useful(x), "data")).collect()).collect();
    let ds = build(&m);
    let mut w = FileWriter::create_new(F).unwrap();
    if stage == 0 || stage == 3 {
        fault(kinds, budget);
        expect("c09.set_def-ok");
        if kinds & !(F_SHORT | F_EINTR) != 0 {
            expect("c09.set_def-failed");
        }
    }
    match w.set_def(&ds, ver(v), 0) {
        Err(e) => {
            check(matches!(e, WriteError::IOErrorKind(_)), "c09.write-error-kind");
            reach("c09.set_def-failed");
            return;
        }
        Ok(()) => {
            check(fsize(F).unwrap_or(0) >= l.header as u64 && eq(&get_at(F, 0, l.header), &h), "c09.set_def-ok-incomplete");
            reach("c09.set_def-ok");
        }
    }
    if stage != 3 {
        off();
    }
    let cells = m.vars.iter().map(|x| vec![Cell::Never; m.chunks(x)]).collect();
    let mut s = St { m, l, cells };
    let n = s.m.vars.len();
    let mode = choice(if stage == 1 { 3 } else { 2 });
    if stage == 1 && mode == 2 {
        // everything is written once before the faults
        for i in 0..n {
            let old: Vec<Vec<u8>> = data[i].iter().map(|d| bytes(d.len(), "old")).collect();
            step(&mut w, &mut s, i, None, &old, false);
        }
    }
    if stage == 1 {
        fault(kinds, budget);
        expect("c09.write-ok");
        if kinds & !(F_SHORT | F_EINTR) != 0 {
            expect("c09.write-failed");
        }
    }
    if stage != 2 || mode == 1 {
        for i in 0..n {
            let c = s.cells[i].len();
            if mode == 1 {
                for r in (0..c).rev() {
                    // in the last stages some records stay unwritten
                    if stage >= 2 && r % 2 == 0 && c > 1 {
                        continue;
                    }
                    step(&mut w, &mut s, i, Some(r), &data[i], true);
                }
            } else {
                step(&mut w, &mut s, i, None, &data[i], true);
            }
        }
    }
    if stage == 1 {
        off();
    }
    if stage == 2 {
        fault(kinds, budget);
        if kinds & !(F_SHORT | F_EINTR) != 0 {
            expect("c09.close-failed");
        }
    }
    expect("c09.close-ok");
    match w.close() {
        Err(e) => {
            check(matches!(e, WriteError::IOErrorKind(_)), "c09.write-error-kind");
            reach("c09.close-failed");
        }
        Ok(()) => {
            reach("c09.close-ok");
            off();
            check(fsize(F) == Some(s.l.size as u64), "c09.close-ok-size");
            check(eq(&get_at(F, 0, s.l.header), &h), "c09.close-ok-header");
            for i in 0..n {
                for r in 0..s.cells[i].len() {
                    s.holds(i, r, "c09.close-ok-incomplete");
                }
            }
            emit(&get(F));
        }
    }
}

fn io_error(e: &ReadError) -> bool {
    matches!(e, ReadError::IOErrorKind(_))
}

/// Reading under faults. p = version, shape, type, header size, stage, kinds, budget.
pub fn c09_read(p: u64) {
    let mut p = P(p);
    let v = 1 + p.take(2) as u8;
    let k = p.take(9);
    let t = 1 + p.take(6) as u8;
    let big = p.take(3);
    let stage = p.take(2);
    let kinds = [F_SHORT, F_EINTR, F_ERR, SEEK, F_SHORT | F_EINTR | F_ERR | SEEK][p.take(5)];
    let budget = p.take(4) as u32;
    let mut m = if stage == 0 { shape(k, t, t % 6 + 1, 2, 1) } else { any_shape(k, t, 2, 2) };
    if big > 0 {
        m.attrs.push(attr("big", 2, vec![b'x'; [0, 1001, 2200][big]]));
        m.attrs.push(sattr("c", 3, 2));
    }
    let d: Data = m.vars.iter().map(|x| (0..m.chunks(x)).map(|_| Some(bytes(m.useful(x), "data"))).collect()).collect();
    let content = file(&m, v, 0, &d);
    put(F, &content);
    if stage == 0 {
        fault(kinds, budget);
    }
    expect("c09.open-ok");
    if stage == 0 && kinds & F_ERR != 0 {
        expect("c09.open-failed");
    }
    let mut r = match FileReader::open(F) {
        Ok(r) => {
            reach("c09.open-ok");
            r
        }
        Err(e) => {
            check(io_error(&e), "c09.read-error-kind");
            check(stage == 0, "c09.open-refused");
            reach("c09.open-failed");
            return;
        }
    };
    off();
    same(r.data_set(), &m, "c09.");
    check(r.version() == ver(v), "c09.version");
    if stage == 1 {
        fault(kinds, budget);
        expect("c09.read-ok");
        if kinds & (F_ERR | SEEK) != 0 {
            expect("c09.read-failed");
        }
        let i = choice(m.vars.len() + 1);
        let how = choice(4);
        if i == m.vars.len() {
            assume(how == 0);
        }
        for attempt in 0..5 {
            let e = if i == m.vars.len() {
                match r.read_all_vars() {
                    Ok(h) => {
                        check(h.len() == m.vars.len(), "c09.read-ok-wrong");
                        for (x, c) in m.vars.iter().zip(d.iter()) {
                            check(h.get(&x.name).map(|g| dv_is(g, x.ty, &whole(c))) == Some(true), "c09.read-ok-wrong");
                        }
                        None
                    }
                    Err(e) => Some(e),
                }
            } else {
                let x = &m.vars[i];
                let c = m.chunks(x);
                if how >= 2 && c == 0 {
                    return;
                }
                match how {
                    0 => match r.read_var(&x.name) {
                        Ok(g) => {
                            check(dv_is(&g, x.ty, &whole(&d[i])), "c09.read-ok-wrong");
                            None
                        }
                        Err(e) => Some(e),
                    },
                    1 => match read_var_t(&mut r, &x.name, x.ty) {
                        Ok(g) => {
                            check(eq(&g, &whole(&d[i])), "c09.read-ok-wrong");
                            None
                        }
                        Err(e) => Some(e),
                    },
                    2 => match r.read_record(&x.name, c - 1) {
                        Ok(g) => {
                            check(dv_is(&g, x.ty, d[i][c - 1].as_ref().unwrap()), "c09.read-ok-wrong");
                            None
                        }
                        Err(e) => Some(e),
                    },
                    _ => match read_rec_t(&mut r, &x.name, x.ty, 0) {
                        Ok(g) => {
                            check(eq(&g, d[i][0].as_ref().unwrap()), "c09.read-ok-wrong");
                            None
                        }
                        Err(e) => Some(e),
                    },
                }
            };
            match e {
                None => {
                    reach("c09.read-ok");
                    break;
                }
                Some(e) => {
                    check(io_error(&e), "c09.read-error-kind");
                    // a failed read can be repeated (the schedule has at most 3 faults)
                    check(attempt < 4, "c09.read-after-fault");
                    reach("c09.read-failed");
                }
            }
        }
        off();
    }
    // whatever happened before, everything is there
    read_back(&mut r, &m, &d);
    check(eq(&get(F), &content), "c09.file-changed");
    emit_u(content.len());
}
