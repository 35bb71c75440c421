//! The environment: C allocator, a virtual file system with optional faults, and the
//! interface used by the harnesses.

use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;

const ENOENT: u32 = 2;
const EINTR: u32 = 4;
const EIO: u32 = 5;
const EBADF: u32 = 9;
const EEXIST: u32 = 17;
const EINVAL: u32 = 22;
const ENOSPC: u32 = 28;

type R<T> = Result<T, Stop>;

fn minus1(w: u8) -> V {
    V::k(mask(w) as u64)
}

pub fn call(x: &mut Exec, st: &mut State, k: Intr, name: &str, c: &Call, a: &[V]) -> R<Vec<V>> {
    match k {
        Intr::Malloc => {
            let p = x.malloc(st, a[0], 16)?;
            Ok(vec![V::k(p)])
        }
        Intr::Calloc => {
            let n = x.bin(st, BinOp::Mul, 64, a[0], a[1])?;
            let p = x.malloc(st, n, 16)?;
            Ok(vec![V::k(p)])
        }
        Intr::Realloc => {
            let p = x.conc(st, a[0], 64, "realloc")?;
            let q = x.malloc(st, a[1], 16)?;
            if p != 0 {
                let oid = (p >> 32) as u32;
                let nid = (q >> 32) as u32;
                let old = st.mem.get(oid).cloned().ok_or(Stop::Error("realloc of a freed block".into()))?;
                let n = st.mem.get_mut(nid).unwrap();
                let len = (old.size.min(n.size)) as usize;
                for i in 0..len {
                    let (b, e) = old.get(i);
                    n.set(i, b, e);
                }
                st.mem.free(oid);
            }
            Ok(vec![V::k(q)])
        }
        Intr::Free => {
            let p = x.conc(st, a[0], 64, "free")?;
            if p != 0 {
                if p & 0xffff_ffff != 0 || !st.mem.get((p >> 32) as u32).map(|o| o.heap).unwrap_or(false) {
                    return Err(Stop::Error(format!("invalid free of {:#x}", p)));
                }
                st.mem.free((p >> 32) as u32);
            }
            Ok(vec![])
        }
        Intr::PosixMemalign => {
            let q = x.malloc(st, a[2], 64)?;
            let d = x.conc(st, a[0], 64, "memalign")?;
            x.store(st, d, 64, V::k(q))?;
            Ok(vec![V::k(0)])
        }
        Intr::ErrnoLoc => Ok(vec![V::k((x.errno_obj as u64) << 32)]),
        Intr::Bcmp | Intr::Memcmp => {
            let n = x.conc(st, a[2], 64, "compare length")?;
            if n == 0 {
                return Ok(vec![V::k(0)]);
            }
            let p = x.conc(st, a[0], 64, "compare address")?;
            let q = x.conc(st, a[1], 64, "compare address")?;
            let u = x.read_bytes(st, p, n)?;
            let v = x.read_bytes(st, q, n)?;
            if k == Intr::Bcmp {
                let e = bytes_eq(x, &u, &v);
                let one = x.x.konst(32, 1);
                let zero = x.x.konst(32, 0);
                let r = x.x.ite(e, zero, one);
                return Ok(vec![x.vn(r)]);
            }
            let mut r = x.x.konst(32, 0);
            let one = x.x.konst(32, 1);
            let neg = x.x.konst(32, u32::MAX as u128);
            for i in (0..n as usize).rev() {
                let (ea, eb) = (byte_e(x, u[i]), byte_e(x, v[i]));
                let lt = x.x.ult(ea, eb);
                let eq = x.x.eq(ea, eb);
                let t = x.x.ite(lt, neg, one);
                r = x.x.ite(eq, r, t);
            }
            Ok(vec![x.vn(r)])
        }
        Intr::Strlen => {
            let p = x.conc(st, a[0], 64, "strlen")?;
            let s = x.cstr_at(st, p)?;
            Ok(vec![V::k(s.len() as u64)])
        }
        Intr::Getenv => Ok(vec![V::k(0)]),
        Intr::Gettid => Ok(vec![V::k(1)]),
        Intr::Getrandom => {
            let p = x.conc(st, a[0], 64, "getrandom")?;
            let n = x.conc(st, a[1], 64, "getrandom")?;
            let b: Vec<(u8, E)> = (0..n).map(|i| ((i * 37 + 11) as u8, 0)).collect();
            x.write_bytes(st, p, &b)?;
            Ok(vec![V::k(n)])
        }
        Intr::Syscall => {
            let n = x.conc(st, a[0], 64, "syscall")?;
            match n {
                318 => call(x, st, Intr::Getrandom, name, c, &a[1..]),
                332 => call(x, st, Intr::Statx, name, c, &a[1..]),
                _ => Err(Stop::Error(format!("system call {}", n))),
            }
        }
        // ------------------------------------------------------------ files
        Intr::Open => {
            let p = x.conc(st, a[0], 64, "path")?;
            let path = x.cstr_at(st, p)?;
            let fl = x.conc(st, a[1], 32, "open flags")?;
            let fs = Rc::make_mut(&mut st.fs);
            let file = match fs.names.get(&path) {
                Some(i) => {
                    if fl & 0o100 != 0 && fl & 0o200 != 0 {
                        x.errno(st, EEXIST);
                        return Ok(vec![minus1(32)]);
                    }
                    let i = *i;
                    if fl & 0o1000 != 0 {
                        fs.files[i] = Rc::new(VFile::default());
                    }
                    i
                }
                None => {
                    if fl & 0o100 == 0 {
                        x.errno(st, ENOENT);
                        return Ok(vec![minus1(32)]);
                    }
                    fs.files.push(Rc::new(VFile::default()));
                    fs.names.insert(path, fs.files.len() - 1);
                    fs.files.len() - 1
                }
            };
            let acc = fl & 3;
            fs.fds.push(Fd {
                file,
                pos: V::k(0),
                saved: None,
                open: true,
                readable: acc != 1,
                writable: acc != 0,
                append: fl & 0o2000 != 0,
            });
            Ok(vec![V::k(fs.fds.len() as u64 + 2)])
        }
        Intr::Close => {
            let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(32)]) };
            Rc::make_mut(&mut st.fs).fds[fd].open = false;
            Ok(vec![V::k(0)])
        }
        Intr::Fcntl => {
            let Some(_) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(32)]) };
            let cmd = x.conc(st, a[1], 32, "fcntl")?;
            match cmd {
                1 => Ok(vec![V::k(1)]),
                3 => Ok(vec![V::k(2)]),
                2 | 4 => Ok(vec![V::k(0)]),
                _ => Err(Stop::Error(format!("fcntl {}", cmd))),
            }
        }
        Intr::Lseek => {
            let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(64)]) };
            let wh = x.conc(st, a[2], 32, "whence")?;
            let base = match wh {
                0 => V::k(0),
                1 => st.fs.fds[fd].pos,
                2 => V::k(st.fs.files[st.fs.fds[fd].file].size),
                _ => return Err(Stop::Error("whence".into())),
            };
            if st.fault.kinds & 16 != 0 && st.fault.budget > 0 {
                let e = x.fresh(st, 8, "seek fault");
                let k = x.x.konst(8, 6);
                let q = x.x.eq(e, k);
                if x.decide(st, q)? {
                    st.fault.budget -= 1;
                    x.errno(st, EIO);
                    return Ok(vec![minus1(64)]);
                }
            }
            let np = x.bin(st, BinOp::Add, 64, base, a[1])?;
            let neg = x.cmp(Pred::Slt, 64, np, V::k(0));
            let neg = if neg.e == 0 { neg.c == 1 } else { x.decide(st, neg.e)? };
            if neg {
                x.errno(st, EINVAL);
                return Ok(vec![minus1(64)]);
            }
            Rc::make_mut(&mut st.fs).fds[fd].pos = np;
            Ok(vec![np])
        }
        Intr::Read => {
            let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(64)]) };
            if !st.fs.fds[fd].readable {
                x.errno(st, EBADF);
                return Ok(vec![minus1(64)]);
            }
            let n = x.conc(st, a[2], 64, "read length")?;
            let buf = x.conc(st, a[1], 64, "read buffer")?;
            let file = st.fs.fds[fd].file;
            let size = st.fs.files[file].size;
            let posv = st.fs.fds[fd].pos;
            if posv.e != 0 {
                let k = x.x.konst(64, size as u128);
                let inside = x.x.ult(posv.e, k);
                if !x.decide(st, inside)? {
                    return Ok(vec![V::k(0)]);
                }
            }
            let pos = x.conc(st, posv, 64, "file position")?;
            if n == 0 || pos >= size {
                return Ok(vec![V::k(0)]);
            }
            let mut cnt = n.min(size - pos);
            match fault(x, st, cnt, false)? {
                None => {}
                Some(Ok(k)) => cnt = k,
                Some(Err(e)) => {
                    x.errno(st, e);
                    return Ok(vec![minus1(64)]);
                }
            }
            let f = st.fs.files[file].clone();
            let b: Vec<(u8, E)> = (0..cnt).map(|i| f.get(pos + i)).collect();
            x.write_bytes(st, buf, &b)?;
            Rc::make_mut(&mut st.fs).fds[fd].pos = V::k(pos + cnt);
            Ok(vec![V::k(cnt)])
        }
        Intr::Pread | Intr::Pwrite => {
            let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(64)]) };
            // the position must be usable as such before anything is changed
            let pos = V::k(x.conc(st, a[3], 64, "file position")?);
            if (pos.c as i64) < 0 {
                x.errno(st, EINVAL);
                return Ok(vec![minus1(64)]);
            }
            // (a fork inside the transfer runs this instruction again)
            let old = st.fs.fds[fd].saved.unwrap_or(st.fs.fds[fd].pos);
            let d = &mut Rc::make_mut(&mut st.fs).fds[fd];
            d.saved = Some(old);
            d.pos = pos;
            let r = call(x, st, if k == Intr::Pread { Intr::Read } else { Intr::Write }, name, c, &a[..3]);
            let d = &mut Rc::make_mut(&mut st.fs).fds[fd];
            d.saved = None;
            d.pos = old;
            r
        }
        Intr::Readv | Intr::Writev => {
            // only the first buffer that is not empty is transferred, as a short transfer
            let io = if k == Intr::Readv { Intr::Read } else { Intr::Write };
            let n = x.conc(st, a[2], 32, "iovec count")?;
            let p = x.conc(st, a[1], 64, "iovec")?;
            for i in 0..n {
                let b = x.load(st, p + 16 * i, 64)?;
                let l = x.load(st, p + 16 * i + 8, 64)?;
                let len = x.conc(st, l, 64, "iovec length")?;
                if len > 0 {
                    return call(x, st, io, name, c, &[a[0], b, V::k(len)]);
                }
            }
            Ok(vec![V::k(0)])
        }
        Intr::Write => {
            if a[0].e == 0 && (a[0].c as i32) >= 0 && (a[0].c as i32) < 3 {
                return Ok(vec![a[2]]);
            }
            let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(64)]) };
            if !st.fs.fds[fd].writable {
                x.errno(st, EBADF);
                return Ok(vec![minus1(64)]);
            }
            let n = x.conc(st, a[2], 64, "write length")?;
            let buf = x.conc(st, a[1], 64, "write buffer")?;
            let file = st.fs.fds[fd].file;
            let pos = if st.fs.fds[fd].append {
                st.fs.files[file].size
            } else {
                let p = st.fs.fds[fd].pos;
                x.conc(st, p, 64, "file position")?
            };
            if n == 0 {
                return Ok(vec![V::k(0)]);
            }
            let mut cnt = n;
            match fault(x, st, n, true)? {
                None => {}
                Some(Ok(k)) => cnt = k,
                Some(Err(e)) => {
                    x.errno(st, e);
                    return Ok(vec![minus1(64)]);
                }
            }
            let b = x.read_bytes(st, buf, cnt)?;
            let fs = Rc::make_mut(&mut st.fs);
            let f = Rc::make_mut(&mut fs.files[file]);
            for (i, (c, e)) in b.iter().enumerate() {
                f.put(pos + i as u64, *c, *e);
            }
            fs.fds[fd].pos = V::k(pos + cnt);
            Ok(vec![V::k(cnt)])
        }
        Intr::Fsync => Ok(vec![V::k(0)]),
        Intr::Ftruncate => {
            let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(32)]) };
            let n = x.conc(st, a[1], 64, "truncate")?;
            let file = st.fs.fds[fd].file;
            let fs = Rc::make_mut(&mut st.fs);
            let f = Rc::make_mut(&mut fs.files[file]);
            if n < f.size {
                for p in n..f.size.min(n + 65536) {
                    f.put(p, 0, 0);
                }
            }
            f.size = n;
            Ok(vec![V::k(0)])
        }
        Intr::Unlink => {
            let p = x.conc(st, a[0], 64, "path")?;
            let path = x.cstr_at(st, p)?;
            if Rc::make_mut(&mut st.fs).names.remove(&path).is_none() {
                x.errno(st, ENOENT);
                return Ok(vec![minus1(32)]);
            }
            Ok(vec![V::k(0)])
        }
        Intr::Fstat | Intr::Stat => {
            let size = if k == Intr::Fstat {
                let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(32)]) };
                st.fs.files[st.fs.fds[fd].file].size
            } else {
                let p = x.conc(st, a[0], 64, "path")?;
                let path = x.cstr_at(st, p)?;
                match st.fs.names.get(&path) {
                    Some(i) => st.fs.files[*i].size,
                    None => {
                        x.errno(st, ENOENT);
                        return Ok(vec![minus1(32)]);
                    }
                }
            };
            let b = x.conc(st, a[1], 64, "stat")?;
            x.write_bytes(st, b, &vec![(0u8, 0u32); 144])?;
            x.store(st, b + 16, 64, V::k(1))?;
            x.store(st, b + 24, 32, V::k(0o100644))?;
            x.store(st, b + 48, 64, V::k(size))?;
            x.store(st, b + 56, 64, V::k(4096))?;
            Ok(vec![V::k(0)])
        }
        Intr::Statx => {
            let p = x.conc(st, a[1], 64, "path")?;
            if p == 0 {
                x.errno(st, 14);
                return Ok(vec![minus1(c.ret[0])]);
            }
            let path = x.cstr_at(st, p)?;
            let size = if path.is_empty() {
                let Some(fd) = get_fd(x, st, a[0])? else { return Ok(vec![minus1(c.ret[0])]) };
                st.fs.files[st.fs.fds[fd].file].size
            } else {
                match st.fs.names.get(&path) {
                    Some(i) => st.fs.files[*i].size,
                    None => {
                        x.errno(st, ENOENT);
                        return Ok(vec![minus1(c.ret[0])]);
                    }
                }
            };
            let b = x.conc(st, a[4], 64, "statx")?;
            x.write_bytes(st, b, &vec![(0u8, 0u32); 256])?;
            x.store(st, b, 32, V::k(0xfff))?;
            x.store(st, b + 4, 32, V::k(4096))?;
            x.store(st, b + 16, 32, V::k(1))?;
            x.store(st, b + 28, 16, V::k(0o100644))?;
            x.store(st, b + 40, 64, V::k(size))?;
            Ok(vec![V::k(0)])
        }
        // ------------------------------------------------------------ harness interface
        Intr::SymBytes => {
            let n = x.conc(st, a[1], 64, "sym_bytes")?;
            let p = x.conc(st, a[0], 64, "sym_bytes")?;
            let nm = x.str_at(st, a[2].c, a[3].c)?;
            let mut b = vec![];
            for i in 0..n {
                let e = x.fresh(st, 8, &format!("{}[{}]", nm, i));
                b.push((0u8, e));
            }
            x.write_bytes(st, p, &b)?;
            Ok(vec![])
        }
        Intr::SymChoice => {
            let n = x.conc(st, a[0], 64, "choice bound")?;
            if n == 0 {
                return Err(Stop::Cut);
            }
            let e = x.fresh(st, 16, "choice");
            let k = x.x.konst(16, n as u128);
            let q = x.x.ult(e, k);
            x.add_pc(st, q);
            let v = x.conc(st, V { c: 0, e }, 16, "choice")?;
            Ok(vec![V::k(v)])
        }
        Intr::SymConc => {
            let v = x.conc(st, a[0], 64, "sym_conc")?;
            Ok(vec![V::k(v)])
        }
        Intr::SymAssume => {
            let v = a[0];
            if v.e == 0 {
                if v.c & 1 == 0 {
                    return Err(Stop::Cut);
                }
                return Ok(vec![]);
            }
            if x.x.eval(v.e, &st.model) == 1 {
                x.add_pc(st, v.e);
                return Ok(vec![]);
            }
            let (r, m) = x.s.check(&x.x, &st.pc, v.e, &st.model);
            match r {
                Res::Sat => {
                    st.model = Rc::new(m.unwrap());
                    x.add_pc(st, v.e);
                    Ok(vec![])
                }
                Res::Unsat => Err(Stop::Cut),
                Res::Unknown => Err(Stop::Error("solver gave no answer".into())),
            }
        }
        Intr::SymCheck => {
            let label = x.str_at(st, a[1].c, a[2].c)?;
            x.checks += 1;
            *x.reached.entry(label.clone()).or_insert(0) += 1;
            let v = a[0];
            if v.e == 0 {
                if v.c & 1 == 0 {
                    return Err(Stop::Violation { kind: "check".into(), label, detail: "assertion fails on every input of this path".into() });
                }
                return Ok(vec![]);
            }
            let ne = x.x.not(v.e);
            x.checks_solved += 1;
            let (r, m) = x.s.check(&x.x, &st.pc, ne, &st.model);
            match r {
                Res::Unsat => Ok(vec![]),
                Res::Unknown => Err(Stop::Error(format!("solver gave no answer for {}", label))),
                Res::Sat => {
                    let mut bad = st.clone();
                    bad.model = Rc::new(m.unwrap());
                    x.add_pc(&mut bad, ne);
                    x.violation(&bad, "check", &label, "assertion");
                    // go on with the inputs that satisfy it, if any
                    let (r2, m2) = x.s.check(&x.x, &st.pc, v.e, &st.model);
                    match r2 {
                        Res::Sat => {
                            st.model = Rc::new(m2.unwrap());
                            x.add_pc(st, v.e);
                            Ok(vec![])
                        }
                        Res::Unsat => Err(Stop::Cut),
                        Res::Unknown => Err(Stop::Error("solver gave no answer".into())),
                    }
                }
            }
        }
        Intr::SymReach => {
            let label = x.str_at(st, a[0].c, a[1].c)?;
            *x.reached.entry(label).or_insert(0) += 1;
            Ok(vec![])
        }
        Intr::SymExpect => {
            let label = x.str_at(st, a[0].c, a[1].c)?;
            x.expected.insert(label);
            Ok(vec![])
        }
        Intr::SymEmit => {
            let n = x.conc(st, a[1], 64, "emit")?;
            let p = x.conc(st, a[0], 64, "emit")?;
            let b = x.read_bytes(st, p, n)?;
            st.emits.push(Rc::new(Emit::Bytes(b)));
            Ok(vec![])
        }
        Intr::SymEqBytes => {
            let n = x.conc(st, a[2], 64, "compare length")?;
            let p = x.conc(st, a[0], 64, "compare address")?;
            let q = x.conc(st, a[1], 64, "compare address")?;
            let u = x.read_bytes(st, p, n)?;
            let v = x.read_bytes(st, q, n)?;
            let e = bytes_eq(x, &u, &v);
            Ok(vec![x.vn(e)])
        }
        Intr::VfsPut => {
            let pa = x.conc(st, a[0], 64, "path")?;
            let path = x.str_at(st, pa, a[1].c)?;
            let n = x.conc(st, a[3], 64, "file length")?;
            let p = x.conc(st, a[2], 64, "file content")?;
            let b = x.read_bytes(st, p, n)?;
            let mut f = VFile::default();
            for (i, (c, e)) in b.iter().enumerate() {
                f.put(i as u64, *c, *e);
            }
            let fs = Rc::make_mut(&mut st.fs);
            match fs.names.get(&path) {
                Some(i) => {
                    let i = *i;
                    fs.files[i] = Rc::new(f)
                }
                None => {
                    fs.files.push(Rc::new(f));
                    fs.names.insert(path, fs.files.len() - 1);
                }
            }
            Ok(vec![])
        }
        Intr::VfsSize | Intr::VfsHas => {
            let pa = x.conc(st, a[0], 64, "path")?;
            let path = x.str_at(st, pa, a[1].c)?;
            Ok(vec![V::k(match st.fs.names.get(&path) {
                Some(i) => st.fs.files[*i].size,
                None => u64::MAX,
            })])
        }
        Intr::VfsGet => {
            // (path, path_len, offset, buffer, n): bytes beyond the end are zero
            let pa = x.conc(st, a[0], 64, "path")?;
            let path = x.str_at(st, pa, a[1].c)?;
            let off = x.conc(st, a[2], 64, "offset")?;
            let p = x.conc(st, a[3], 64, "buffer")?;
            let n = x.conc(st, a[4], 64, "length")?;
            let i = *st.fs.names.get(&path).ok_or(Stop::Error("vfs_get".into()))?;
            let f = st.fs.files[i].clone();
            let b: Vec<(u8, E)> = (0..n).map(|i| f.get(off + i)).collect();
            x.write_bytes(st, p, &b)?;
            Ok(vec![])
        }
        Intr::VfsDel => {
            let pa = x.conc(st, a[0], 64, "path")?;
            let path = x.str_at(st, pa, a[1].c)?;
            Rc::make_mut(&mut st.fs).names.remove(&path);
            Ok(vec![])
        }
        Intr::SymFault => {
            st.fault = Fault { kinds: a[0].c as u32, budget: a[1].c as u32 };
            Ok(vec![])
        }
        Intr::SymLimit => {
            st.alloc_limit = a[0].c;
            st.total_limit = a[1].c;
            Ok(vec![])
        }
        Intr::MaxAlloc => {
            let m = st.max_alloc;
            st.max_alloc = 0;
            Ok(vec![V::k(m)])
        }
        Intr::SymNative => Ok(vec![V::k(0)]),
        _ => Err(Stop::Error(format!("intrinsic {:?}", k))),
    }
}

fn byte_e(x: &mut Exec, b: (u8, E)) -> E {
    if b.1 != 0 {
        b.1
    } else {
        x.x.konst(8, b.0 as u128)
    }
}

fn bytes_eq(x: &mut Exec, u: &[(u8, E)], v: &[(u8, E)]) -> E {
    let mut e = x.x.tru();
    for i in 0..u.len() {
        if u[i].1 == 0 && v[i].1 == 0 {
            if u[i].0 != v[i].0 {
                return x.x.fls();
            }
            continue;
        }
        let (p, q) = (byte_e(x, u[i]), byte_e(x, v[i]));
        let q = x.x.eq(p, q);
        e = x.x.and(e, q);
    }
    e
}

fn get_fd(x: &mut Exec, st: &mut State, v: V) -> R<Option<usize>> {
    let fd = x.conc(st, v, 32, "file descriptor")? as i32;
    let i = fd - 3;
    if i >= 0 && (i as usize) < st.fs.fds.len() && st.fs.fds[i as usize].open {
        return Ok(Some(i as usize));
    }
    x.errno(st, EBADF);
    Ok(None)
}

/// The outcome of one I/O call under the fault schedule: None = normal.
fn fault(x: &mut Exec, st: &mut State, n: u64, write: bool) -> R<Option<Result<u64, u32>>> {
    if st.fault.budget == 0 {
        return Ok(None);
    }
    let e = x.fresh(st, 8, if write { "write fault" } else { "read fault" });
    let kinds = st.fault.kinds;
    let mut opts: Vec<(u8, Result<u64, u32>)> = vec![];
    if kinds & 1 != 0 && n > 1 {
        opts.push((1, Ok(1)));
        if n > 2 {
            opts.push((2, Ok(n - 1)));
        }
    }
    if kinds & 2 != 0 {
        opts.push((3, Err(EINTR)));
    }
    if kinds & 4 != 0 {
        opts.push((4, Err(if write { ENOSPC } else { EIO })));
    }
    if kinds & 8 != 0 && write {
        opts.push((5, Ok(0)));
    }
    for (code, r) in opts {
        let k = x.x.konst(8, code as u128);
        let q = x.x.eq(e, k);
        if x.decide(st, q)? {
            st.fault.budget -= 1;
            return Ok(Some(r));
        }
    }
    Ok(None)
}
