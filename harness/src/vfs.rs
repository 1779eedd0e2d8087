//! A file system in memory, in place of the one of libc.  Both builds use it: the calls std and memmap2 make are answered
//! here for everything below /vfs/, nothing real is touched by the code under test.
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long};

pub struct Entry {
    pub path: String,
    /// None: a directory
    pub data: Option<Vec<u8>>,
    /// cannot be opened
    pub denied: bool,
}
struct Fs {
    list: Vec<Entry>,
    open: Vec<usize>,
    /// relative paths are looked up here, if given
    cwd: Option<String>,
}
static mut FS: Fs = Fs { list: Vec::new(), open: Vec::new(), cwd: None };
#[allow(static_mut_refs)]
fn fs() -> &'static mut Fs {
    unsafe { &mut FS }
}
pub fn clear() {
    fs().list = Vec::new();
    fs().open = Vec::new();
    fs().cwd = None;
}
pub fn cwd(path: &str) {
    fs().cwd = Some(path.to_string());
}
/// in the order in which directories will list them
pub fn file(path: &str, data: Vec<u8>) {
    fs().list.push(Entry { path: path.to_string(), data: Some(data), denied: false });
}
pub fn dir(path: &str) {
    fs().list.push(Entry { path: path.to_string(), data: None, denied: false });
}
pub fn deny(path: &str) {
    let i = find(path).unwrap();
    fs().list[i].denied = true;
}
/// files that are open and not closed
pub fn still_open() -> usize {
    fs().open.iter().filter(|i| **i != usize::MAX).count()
}
fn find(path: &str) -> Option<usize> {
    fs().list.iter().position(|e| e.path == path)
}
const FD: c_int = 1000;
extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
fn fail(e: c_int) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}
unsafe fn ours(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok()?;
    let s = match &fs().cwd {
        Some(d) if !s.starts_with('/') && !s.is_empty() => format!("{d}/{s}"),
        _ => s.to_string(),
    };
    if !s.starts_with("/vfs/") {
        return None;
    }
    let mut l = vec![];
    for c in s.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                l.pop();
            }
            _ => l.push(c),
        }
    }
    Some(format!("/{}", l.join("/")))
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let Some(s) = ours(p) else {
        return syscall(2, p, flags as c_long, mode as c_long) as c_int;
    };
    let Some(i) = find(&s) else {
        return fail(2);
    };
    if fs().list[i].denied {
        return fail(13);
    }
    fs().open.push(i);
    FD + fs().open.len() as c_int - 1
}
fn of(fd: c_int) -> Option<usize> {
    if fd >= FD {
        fs().open.get((fd - FD) as usize).copied().filter(|i| *i != usize::MAX)
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if of(fd).is_some() {
        fs().open[(fd - FD) as usize] = usize::MAX;
        return 0;
    }
    syscall(3, fd as c_long) as c_int
}
#[cfg(not(wzsym))]
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if of(fd).is_some() {
        return 0;
    }
    syscall(72, fd as c_long, cmd as c_long, arg) as c_int
}
unsafe fn put(b: *mut u8, at: usize, v: u64, n: usize) {
    for i in 0..n {
        *b.add(at + i) = (v >> (8 * i)) as u8;
    }
}
fn mode(i: usize) -> u64 {
    if fs().list[i].data.is_some() { 0o100644 } else { 0o40755 }
}
fn size(i: usize) -> u64 {
    fs().list[i].data.as_ref().map_or(4096, |d| d.len() as u64)
}
unsafe fn stat(i: usize, b: *mut u8) -> c_int {
    std::ptr::write_bytes(b, 0, 144);
    put(b, 24, mode(i), 4);
    put(b, 48, size(i), 8);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut u8) -> c_int {
    match of(fd) {
        Some(i) => stat(i, b),
        None => syscall(5, fd as c_long, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut u8) -> c_int {
    match ours(p) {
        Some(s) => match find(&s) {
            Some(i) => stat(i, b),
            None => fail(2),
        },
        None => syscall(4, p, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, b: *mut u8) -> c_int {
    let i = match (ours(p), of(fd)) {
        (Some(s), _) => match find(&s) {
            Some(i) => i,
            None => return fail(2),
        },
        (None, Some(i)) => i,
        _ => return syscall(332, fd as c_long, p, flags as c_long, mask as c_long, b) as c_int,
    };
    std::ptr::write_bytes(b, 0, 256);
    put(b, 0, 0x7ff, 4);
    put(b, 28, mode(i), 2);
    put(b, 40, size(i), 8);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, p: *const c_char, b: *mut u8, flags: c_int) -> c_int {
    syscall(262, fd as c_long, p, b, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if of(fd).is_some() {
        return 0;
    }
    syscall(8, fd as c_long, off, whence as c_long)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut u8, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8 {
    let Some(i) = of(fd) else {
        return syscall(9, a, n, prot as c_long, flags as c_long, fd as c_long, off) as *mut u8;
    };
    // anonymous, private, writable
    let p = syscall(9, 0usize, n, 3 as c_long, 0x22 as c_long, -1 as c_long, 0 as c_long) as *mut u8;
    let Some(d) = &fs().list[i].data else {
        fail(19);
        return usize::MAX as *mut u8;
    };
    assert!(off == 0 && n <= d.len().max(1), "mapping");
    std::ptr::copy_nonoverlapping(d.as_ptr(), p, n.min(d.len()));
    p
}
pub struct Dir {
    prefix: String,
    next: usize,
    buf: [u8; 280],
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut Dir {
    let Some(s) = ours(p) else {
        fail(2);
        return std::ptr::null_mut();
    };
    match find(&s) {
        Some(i) if fs().list[i].data.is_none() && !fs().list[i].denied => Box::into_raw(Box::new(Dir { prefix: format!("{s}/"), next: 0, buf: [0; 280] })),
        Some(_) => {
            fail(20);
            std::ptr::null_mut()
        }
        None => {
            fail(2);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut u8 {
    let d = &mut *d;
    while d.next < fs().list.len() {
        let e = &fs().list[d.next];
        d.next += 1;
        if let Some(name) = e.path.strip_prefix(d.prefix.as_str()) {
            if !name.contains('/') {
                let b = d.buf.as_mut_ptr();
                put(b, 0, d.next as u64, 8);
                put(b, 8, d.next as u64, 8);
                put(b, 16, 280, 2);
                put(b, 18, if e.data.is_some() { 8 } else { 4 }, 1);
                for (i, c) in name.bytes().enumerate() {
                    d.buf[19 + i] = c;
                }
                d.buf[19 + name.len()] = 0;
                return d.buf.as_mut_ptr();
            }
        }
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut Dir) -> c_int {
    drop(Box::from_raw(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_: *mut Dir) -> c_int {
    FD - 1
}
