//! Native replay: runs one harness entry on concrete values, against the real code and the real
//! file system (inside the current directory), with the fault schedule given by the values.
//!
//! usage: replay FILE        (FILE: lines "entry NAME", "param N", "values V V V ...")
//!        replay --batch     (FILE names on stdin, one process per file is used by the driver)

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::ffi::c_void;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

struct Counting;
static SINGLE: AtomicU64 = AtomicU64::new(1 << 26);
static TOTAL: AtomicI64 = AtomicI64::new(1 << 28);
static LIVE: AtomicI64 = AtomicI64::new(0);
static MAX: AtomicU64 = AtomicU64::new(0);

fn raw_write(fd: i32, b: &[u8]) {
    unsafe {
        syscall(1, fd as i64, b.as_ptr() as i64, b.len() as i64);
    }
}
fn finish(code: i32) -> ! {
    unsafe {
        syscall(231, code as i64);
    }
    loop {}
}
fn account(n: usize) {
    if n as u64 > SINGLE.load(Relaxed) || LIVE.fetch_add(n as i64, Relaxed) + n as i64 > TOTAL.load(Relaxed) {
        raw_write(1, b"HUGE-ALLOC\n");
        finish(0);
    }
    MAX.fetch_max(n as u64, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static VALUES: RefCell<(Vec<u64>, usize)> = const { RefCell::new((vec![], 0)) };
    static FAULT: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
    static OFF: Cell<bool> = const { Cell::new(true) };
}
fn next() -> u64 {
    VALUES.with(|v| {
        let mut v = v.borrow_mut();
        let i = v.1;
        v.1 += 1;
        v.0.get(i).copied().unwrap_or(0)
    })
}
fn say(s: &str) {
    let mut l = s.to_string();
    l.push('\n');
    raw_write(1, l.as_bytes());
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
unsafe fn slice<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
/// Runs the harness's own file operations without faults.
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = OFF.with(|o| o.replace(true));
    let r = f();
    OFF.with(|o| o.set(old));
    r
}

#[no_mangle]
unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize, _: *const u8, _: usize) {
    for i in 0..n {
        *p.add(i) = next() as u8;
    }
}
#[no_mangle]
unsafe extern "C" fn sym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        say(&format!("CHECK-FAIL {}", text(p, n)));
    }
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        say("ASSUME-FAIL");
        finish(0);
    }
}
#[no_mangle]
extern "C" fn sym_choice(n: u64) -> u64 {
    let v = next() & 0xffff;
    if v >= n {
        say("ASSUME-FAIL");
        finish(0);
    }
    v
}
#[no_mangle]
extern "C" fn sym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn sym_reach(p: *const u8, n: usize) {
    say(&format!("REACH {}", text(p, n)));
}
#[no_mangle]
extern "C" fn sym_expect(_: *const u8, _: usize) {}
#[no_mangle]
unsafe extern "C" fn sym_emit(p: *const u8, n: usize) {
    let mut s = String::from("EMIT ");
    for b in slice(p, n) {
        s.push_str(&format!("{:02x}", b));
    }
    say(&s);
}
#[no_mangle]
unsafe extern "C" fn sym_eq_bytes(a: *const u8, b: *const u8, n: usize) -> bool {
    slice(a, n) == slice(b, n)
}
#[no_mangle]
extern "C" fn sym_fault(kinds: u32, budget: u32) {
    FAULT.with(|f| f.set((kinds, budget)))
}
#[no_mangle]
extern "C" fn sym_limit(single: u64, total: u64) {
    SINGLE.store(single, Relaxed);
    TOTAL.store((total.min(1 << 60) as i64).saturating_add(LIVE.load(Relaxed)), Relaxed);
}
#[no_mangle]
extern "C" fn sym_max_alloc() -> u64 {
    MAX.swap(0, Relaxed)
}
#[no_mangle]
unsafe extern "C" fn vfs_put(p: *const u8, n: usize, d: *const u8, k: usize) {
    quiet(|| std::fs::write(text(p, n), slice(d, k)).expect("vfs_put"))
}
#[no_mangle]
unsafe extern "C" fn vfs_get(p: *const u8, n: usize, off: u64, b: *mut u8, k: usize) {
    quiet(|| {
        let mut f = std::fs::File::open(text(p, n)).expect("vfs_get");
        f.seek(SeekFrom::Start(off)).expect("vfs_get");
        let mut v = vec![];
        f.take(k as u64).read_to_end(&mut v).expect("vfs_get");
        v.resize(k, 0);
        std::ptr::copy_nonoverlapping(v.as_ptr(), b, k);
    })
}
#[no_mangle]
unsafe extern "C" fn vfs_size(p: *const u8, n: usize) -> u64 {
    quiet(|| std::fs::metadata(text(p, n)).map(|m| m.len()).unwrap_or(u64::MAX))
}
#[no_mangle]
unsafe extern "C" fn vfs_del(p: *const u8, n: usize) {
    quiet(|| {
        let _ = std::fs::remove_file(text(p, n));
    })
}

// ------------------------------------------------------------------ faults
// The C library's functions are replaced so that the schedule decides about every transfer.

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
fn armed(fd: i32) -> bool {
    fd > 2 && !OFF.with(|o| o.get()) && FAULT.with(|f| f.get().1 > 0)
}
fn spend(code: u64, bit: u32) -> bool {
    FAULT.with(|f| {
        let (k, b) = f.get();
        let _ = code;
        if k & bit != 0 {
            f.set((k, b - 1));
            true
        } else {
            false
        }
    })
}
unsafe fn err(e: i32) -> isize {
    *__errno_location() = e;
    -1
}
/// The count to transfer, or an error.
unsafe fn scheduled(n: usize, write: bool) -> Result<usize, i32> {
    let code = next() & 0xff;
    match code {
        1 if n > 1 && spend(code, 1) => Ok(1),
        2 if n > 2 && spend(code, 1) => Ok(n - 1),
        3 if spend(code, 2) => Err(4),
        4 if spend(code, 4) => Err(if write { 28 } else { 5 }),
        5 if write && spend(code, 8) => Ok(0),
        _ => Ok(n),
    }
}
unsafe fn available(fd: i32, pos: i64, n: usize) -> usize {
    let size = syscall(8, fd as i64, 0i64, 2i64);
    if size < 0 {
        return 0;
    }
    syscall(8, fd as i64, pos, 0i64);
    n.min((size - pos).max(0) as usize)
}
unsafe fn do_read(fd: i32, b: *mut c_void, n: usize, at: Option<i64>) -> isize {
    let mut k = n;
    if armed(fd) && n > 0 {
        let cur = syscall(8, fd as i64, 0i64, 1i64);
        let can = available(fd, at.unwrap_or(cur), n);
        syscall(8, fd as i64, cur, 0i64);
        if can == 0 {
            return 0;
        }
        k = match scheduled(can, false) {
            Ok(k) => k,
            Err(e) => return err(e),
        };
    }
    (match at {
        None => syscall(0, fd as i64, b as i64, k as i64),
        Some(p) => syscall(17, fd as i64, b as i64, k as i64, p),
    }) as isize
}
unsafe fn do_write(fd: i32, b: *const c_void, n: usize, at: Option<i64>) -> isize {
    let mut k = n;
    if armed(fd) && n > 0 {
        k = match scheduled(n, true) {
            Ok(0) => return 0,
            Ok(k) => k,
            Err(e) => return err(e),
        };
    }
    (match at {
        None => syscall(1, fd as i64, b as i64, k as i64),
        Some(p) => syscall(18, fd as i64, b as i64, k as i64, p),
    }) as isize
}
#[no_mangle]
unsafe extern "C" fn read(fd: i32, b: *mut c_void, n: usize) -> isize {
    do_read(fd, b, n, None)
}
#[no_mangle]
unsafe extern "C" fn write(fd: i32, b: *const c_void, n: usize) -> isize {
    do_write(fd, b, n, None)
}
#[no_mangle]
unsafe extern "C" fn pread64(fd: i32, b: *mut c_void, n: usize, p: i64) -> isize {
    do_read(fd, b, n, Some(p))
}
#[no_mangle]
unsafe extern "C" fn pwrite64(fd: i32, b: *const c_void, n: usize, p: i64) -> isize {
    do_write(fd, b, n, Some(p))
}
#[repr(C)]
struct IoVec(*mut c_void, usize);
#[no_mangle]
unsafe extern "C" fn readv(fd: i32, v: *const IoVec, n: i32) -> isize {
    for i in 0..n as usize {
        let q = &*v.add(i);
        if q.1 > 0 {
            return do_read(fd, q.0, q.1, None);
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    for i in 0..n as usize {
        let q = &*v.add(i);
        if q.1 > 0 {
            return do_write(fd, q.0, q.1, None);
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if armed(fd) && FAULT.with(|f| f.get().0 & 16 != 0) && next() & 0xff == 6 && spend(6, 16) {
        return err(5) as i64;
    }
    let r = syscall(8, fd as i64, off, wh as i64);
    if r < 0 {
        return err(22) as i64;
    }
    r
}

fn main() {
    let f = std::env::args().nth(1).expect("usage: replay FILE");
    let s = std::fs::read_to_string(&f).expect("replay file");
    let (mut entry, mut param, mut values) = (String::new(), 0u64, vec![]);
    for l in s.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("entry") => entry = w.next().unwrap().into(),
            Some("param") => param = w.next().unwrap().parse().unwrap(),
            Some("values") => values = w.map(|x| x.parse::<u64>().unwrap()).collect(),
            _ => {}
        }
    }
    let (_, run) = harness::TABLE.iter().find(|(n, _)| *n == entry).expect("no such entry");
    VALUES.with(|v| *v.borrow_mut() = (values, 0));
    std::panic::set_hook(Box::new(|i| {
        quiet(|| {
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            say(&format!("PANIC {} {}", l, i.to_string().replace('\n', " ")));
            finish(0);
        })
    }));
    let dir = std::path::PathBuf::from(std::env::var("REPLAY_DIR").expect("REPLAY_DIR"));
    std::env::set_current_dir(&dir).expect("REPLAY_DIR");
    let _ = std::io::stdout().flush();
    SINGLE.store(1 << 26, Relaxed);
    TOTAL.store((1 << 28) + LIVE.load(Relaxed), Relaxed);
    OFF.with(|o| o.set(false));
    run(param);
    OFF.with(|o| o.set(true));
    say("END");
    finish(0);
}
