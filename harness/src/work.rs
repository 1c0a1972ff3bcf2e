//! Worker side: the current case lives in a shared mapping, so a crash or hang
//! still names its input.
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
pub const SIZE: usize = 8 << 20;
static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static SEQ: AtomicU64 = AtomicU64::new(0);

/// layout: u64 sequence, u64 kind, u64 len, u64 msglen, 256 bytes message, payload
pub fn attach(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("open map");
    let p = unsafe { mmap(std::ptr::null_mut(), SIZE, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    MAP.store(p, Ordering::SeqCst);
}
pub fn current(kind: u8, payload: &[u8]) {
    let p = MAP.load(Ordering::Relaxed);
    if p.is_null() { return }
    let n = payload.len().min(SIZE - 512);
    unsafe {
        std::ptr::copy_nonoverlapping(payload.as_ptr(), p.add(512), n);
        *(p as *mut u64).add(1) = kind as u64;
        *(p as *mut u64).add(2) = n as u64;
        *(p as *mut u64) = SEQ.fetch_add(1, Ordering::Relaxed) + 1;
    }
}
/// the mapping as read by the master
pub fn decode(b: &[u8]) -> (u64, u8, Vec<u8>, String) {
    let u = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    let (n, m) = (u(2) as usize, u(3) as usize);
    (u(0), u(1) as u8, b[512..512 + n.min(SIZE - 512)].to_vec(), String::from_utf8_lossy(&b[32..32 + m.min(400)]).into_owned())
}
/// report without unwinding or allocating, then end the process
pub fn fatal(msg: &str) -> ! {
    let p = MAP.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            let n = msg.len().min(400);
            std::ptr::copy_nonoverlapping(msg.as_ptr(), p.add(32), n);
            *(p as *mut u64).add(3) = n as u64;
        }
    }
    use std::io::Write;
    let _ = writeln!(std::io::stderr(), "fatal: {}", msg);
    std::process::abort()
}
