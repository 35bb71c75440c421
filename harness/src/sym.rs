//! The interface between the harnesses and whatever runs them: the symbolic executor
//! (which implements these functions itself) or the native replay binary.

extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn sym_check(c: bool, name: *const u8, nl: usize);
    fn sym_assume(c: bool);
    fn sym_choice(n: u64) -> u64;
    fn sym_conc(v: u64) -> u64;
    fn sym_reach(name: *const u8, nl: usize);
    fn sym_expect(name: *const u8, nl: usize);
    fn sym_emit(p: *const u8, n: usize);
    fn sym_eq_bytes(a: *const u8, b: *const u8, n: usize) -> bool;
    fn sym_fault(kinds: u32, budget: u32);
    fn sym_limit(single: u64, total: u64);
    fn sym_max_alloc() -> u64;
    fn vfs_put(path: *const u8, pl: usize, data: *const u8, n: usize);
    fn vfs_get(path: *const u8, pl: usize, off: u64, buf: *mut u8, n: usize);
    fn vfs_size(path: *const u8, pl: usize) -> u64;
    fn vfs_del(path: *const u8, pl: usize);
}

/// `n` fresh symbolic bytes.
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) }
    v
}
pub fn u8v(name: &str) -> u8 {
    bytes(1, name)[0]
}
pub fn u16v(name: &str) -> u16 {
    let b = bytes(2, name);
    u16::from_be_bytes([b[0], b[1]])
}
pub fn u32v(name: &str) -> u32 {
    let b = bytes(4, name);
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
pub fn u64v(name: &str) -> u64 {
    let b = bytes(8, name);
    u64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
}
/// The assertion: the solver must show that `c` holds on every input of the current path.
pub fn check(c: bool, name: &str) {
    unsafe { sym_check(c, name.as_ptr(), name.len()) }
}
pub fn fail(name: &str) {
    check(false, name)
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// A structural choice among `0..n`: every value is explored.
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n as u64) as usize }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_conc(v) }
}
/// Marks a situation that the property is about; `expect` declares that some path must meet it.
pub fn reach(name: &str) {
    unsafe { sym_reach(name.as_ptr(), name.len()) }
}
pub fn expect(name: &str) {
    unsafe { sym_expect(name.as_ptr(), name.len()) }
}
/// Observable output: compared between the symbolic run and the native run of the same inputs.
pub fn emit(b: &[u8]) {
    unsafe { sym_emit(b.as_ptr(), b.len()) }
}
pub fn emit_u(v: usize) {
    emit(&(v as u64).to_be_bytes())
}
/// Byte equality without branching on symbolic bytes.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.is_empty() || unsafe { sym_eq_bytes(a.as_ptr(), b.as_ptr(), a.len()) })
}
pub const F_SHORT: u32 = 1;
pub const F_EINTR: u32 = 2;
pub const F_ERR: u32 = 4;
pub const F_ZERO: u32 = 8;
pub fn fault(kinds: u32, budget: u32) {
    unsafe { sym_fault(kinds, budget) }
}
pub fn limit(single: u64, total: u64) {
    unsafe { sym_limit(single, total) }
}
pub fn max_alloc() -> u64 {
    unsafe { sym_max_alloc() }
}
pub fn put(path: &str, data: &[u8]) {
    unsafe { vfs_put(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
}
/// Size of a file, or None if it does not exist.
pub fn fsize(path: &str) -> Option<u64> {
    match unsafe { vfs_size(path.as_ptr(), path.len()) } {
        u64::MAX => None,
        n => Some(n),
    }
}
pub fn get_at(path: &str, off: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { vfs_get(path.as_ptr(), path.len(), off, v.as_mut_ptr(), n) }
    v
}
pub fn get(path: &str) -> Vec<u8> {
    get_at(path, 0, fsize(path).unwrap_or(0) as usize)
}
pub fn del(path: &str) {
    unsafe { vfs_del(path.as_ptr(), path.len()) }
}

/// Digits of a mixed-radix parameter.
pub struct P(pub u64);
impl P {
    pub fn take(&mut self, n: u64) -> usize {
        let d = self.0 % n;
        self.0 /= n;
        d as usize
    }
}
