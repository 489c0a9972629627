//! Captures what the code under test prints on standard output. Only for
//! checks that run one thread per process.
use std::io::Write;

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn lseek(fd: i32, o: i64, w: i32) -> i64;
    fn ftruncate(fd: i32, l: i64) -> i32;
    fn pread(fd: i32, b: *mut u8, n: usize, o: i64) -> isize;
}

static FD: std::sync::OnceLock<i32> = std::sync::OnceLock::new();

fn fd() -> i32 {
    *FD.get_or_init(|| unsafe {
        let f = memfd_create(c"out".as_ptr() as *const u8, 0);
        assert!(f >= 0);
        assert!(dup2(f, 1) == 1);
        f
    })
}

/// What `f` prints.
pub fn stdout(f: impl FnOnce()) -> Vec<u8> {
    let fd = fd();
    std::io::stdout().flush().unwrap();
    unsafe {
        ftruncate(fd, 0);
        lseek(fd, 0, 0);
    }
    f();
    std::io::stdout().flush().unwrap();
    unsafe {
        let n = lseek(fd, 0, 1) as usize;
        let mut b = vec![0u8; n];
        assert!(pread(fd, b.as_mut_ptr(), n, 0) == n as isize);
        b
    }
}
