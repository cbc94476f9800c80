//! A small file system behind the C library's calls, so that the standard library's own file code is
//! executed with every fault the harness picks.  While it is off, calls go to the kernel.
use std::ptr::addr_of_mut;

#[derive(Clone)]
pub struct Node {
    pub path: Vec<u8>,
    pub dir: bool,
    pub data: Vec<u8>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    /// opening the input fails
    OpenIn(i32),
    /// opening the output fails
    OpenOut(i32),
    /// the n-th read fails
    Read(usize, i32),
    /// the n-th write fails
    Write(usize, i32),
    /// reads return at most n bytes
    ShortRead(usize),
    ShortWrite(usize),
    MkDir(i32),
}
pub struct Fs {
    pub on: bool,
    pub nodes: Vec<Node>,
    fds: Vec<(usize, usize, bool)>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub fault: Fault,
    reads: usize,
    writes: usize,
    /// something the model does not know was called
    pub strange: bool,
    pub hit: bool,
}
static mut FS: Fs =
    Fs { on: false, nodes: vec![], fds: vec![], out: vec![], err: vec![], fault: Fault::None, reads: 0, writes: 0, strange: false, hit: false };
pub fn fs() -> &'static mut Fs {
    unsafe { &mut *addr_of_mut!(FS) }
}
impl Fs {
    pub fn reset(&mut self) {
        *self = Fs { on: false, nodes: vec![], fds: vec![], out: vec![], err: vec![], fault: Fault::None, reads: 0, writes: 0, strange: false, hit: false };
        self.dir(b"");
    }
    pub fn dir(&mut self, p: &[u8]) {
        self.nodes.push(Node { path: p.to_vec(), dir: true, data: vec![] });
    }
    pub fn file(&mut self, p: &[u8], d: &[u8]) {
        self.nodes.push(Node { path: p.to_vec(), dir: false, data: d.to_vec() });
    }
    pub fn find(&self, p: &[u8]) -> Option<usize> {
        self.nodes.iter().position(|n| n.path == p)
    }
    /// Creates the directories above `p`.
    pub fn parents(&mut self, p: &[u8]) -> bool {
        for i in 0..p.len() {
            if p[i] == b'/' {
                match self.find(&p[..i]) {
                    Some(k) if !self.nodes[k].dir => return false,
                    None => self.dir(&p[..i]),
                    _ => {}
                }
            }
        }
        true
    }
}
/// Relative to the working directory (the root of the model).
pub fn norm(p: &[u8]) -> Vec<u8> {
    let mut o: Vec<&[u8]> = vec![];
    for c in p.split(|&c| c == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                o.pop();
            }
            _ => o.push(c),
        }
    }
    o.join(&b'/')
}
unsafe fn path(p: *const u8) -> Vec<u8> {
    let mut v = vec![];
    let mut p = p;
    while *p != 0 {
        v.push(*p);
        p = p.add(1);
    }
    v
}
const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EBADF: i32 = 9;
const EEXIST: i32 = 17;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const ENOSYS: i32 = 38;
const BASE: i32 = 1000;

#[cfg(not(feature = "native"))]
mod sys {
    static mut ERRNO: i32 = 0;
    #[no_mangle]
    pub extern "C" fn __errno_location() -> *mut i32 {
        std::ptr::addr_of_mut!(ERRNO)
    }
    pub unsafe fn raw(_: i64, _: [u64; 5]) -> i64 {
        super::fs().strange = true;
        -38
    }
}
#[cfg(feature = "native")]
mod sys {
    extern "C" {
        pub fn __errno_location() -> *mut i32;
    }
    pub unsafe fn raw(n: i64, a: [u64; 5]) -> i64 {
        let r;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], out("rcx") _, out("r11") _);
        r
    }
}
use sys::*;
unsafe fn ret(r: i64) -> i64 {
    if r < 0 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
fn known_fd(fd: i32) -> Option<usize> {
    let k = fd - BASE;
    (k >= 0 && (k as usize) < fs().fds.len()).then_some(k as usize)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    let f = fs();
    if !f.on {
        return ret(raw(2, [p as u64, flags as u64, mode as u64, 0, 0])) as i32;
    }
    let full = path(p);
    let n = norm(&full);
    let (acc, creat, excl, trunc, append) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
    let e = match (acc, f.fault) {
        (0, Fault::OpenIn(e)) | (1 | 2, Fault::OpenOut(e)) => e,
        _ => 0,
    };
    if e != 0 {
        f.hit = true;
        return ret(-e as i64) as i32;
    }
    if full.is_empty() {
        return ret(-ENOENT as i64) as i32;
    }
    let k = match f.find(&n) {
        Some(_) if creat && excl => return ret(-EEXIST as i64) as i32,
        Some(k) if f.nodes[k].dir && (acc != 0 || creat) => return ret(-EISDIR as i64) as i32,
        Some(k) => k,
        None if !creat => return ret(-ENOENT as i64) as i32,
        None => {
            let up = n.iter().rposition(|&c| c == b'/').map_or(0, |i| i);
            match f.find(&n[..up]) {
                Some(k) if f.nodes[k].dir => {}
                Some(_) => return ret(-ENOTDIR as i64) as i32,
                None => return ret(-ENOENT as i64) as i32,
            }
            f.file(&n, b"");
            f.nodes.len() - 1
        }
    };
    if trunc && acc != 0 {
        f.nodes[k].data.clear();
    }
    f.fds.push((k, 0, append));
    BASE + f.fds.len() as i32 - 1
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    let f = fs();
    let Some(i) = known_fd(fd) else {
        return ret(if f.on { -EBADF as i64 } else { raw(0, [fd as u64, b as u64, n as u64, 0, 0]) }) as isize;
    };
    f.reads += 1;
    let mut n = n;
    match f.fault {
        Fault::Read(k, e) if k == f.reads => {
            f.hit = e != EINTR;
            return ret(-e as i64) as isize;
        }
        Fault::ShortRead(m) => n = n.min(m),
        _ => {}
    }
    let (k, pos, _) = f.fds[i];
    let d = &f.nodes[k];
    if d.dir {
        return ret(-EISDIR as i64) as isize;
    }
    let a = pos.min(d.data.len());
    let n = n.min(d.data.len() - a);
    for j in 0..n {
        *b.add(j) = d.data[a + j];
    }
    f.fds[i].1 = a + n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    let f = fs();
    let Some(i) = known_fd(fd) else {
        if !f.on {
            return ret(raw(1, [fd as u64, b as u64, n as u64, 0, 0])) as isize;
        }
        let o = match fd {
            1 => &mut f.out,
            2 => &mut f.err,
            _ => return ret(-EBADF as i64) as isize,
        };
        o.extend_from_slice(std::slice::from_raw_parts(b, n));
        return n as isize;
    };
    f.writes += 1;
    let mut n = n;
    match f.fault {
        Fault::Write(k, e) if k == f.writes => {
            f.hit = e != EINTR;
            return ret(-e as i64) as isize;
        }
        Fault::ShortWrite(m) => n = n.min(m),
        _ => {}
    }
    let (k, pos, append) = f.fds[i];
    let d = &mut f.nodes[k].data;
    let pos = if append { d.len() } else { pos };
    for j in 0..n {
        let c = *b.add(j);
        if pos + j < d.len() {
            d[pos + j] = c;
        } else {
            while d.len() < pos + j {
                d.push(0);
            }
            d.push(c);
        }
    }
    f.fds[i].1 = pos + n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if known_fd(fd).is_some() || fs().on {
        return 0;
    }
    ret(raw(3, [fd as u64, 0, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    let f = fs();
    let Some(i) = known_fd(fd) else {
        return ret(if f.on { -EBADF as i64 } else { raw(8, [fd as u64, off as u64, whence as u64, 0, 0]) });
    };
    let (k, pos, _) = f.fds[i];
    let base = match whence {
        0 => 0,
        1 => pos as i64,
        _ => f.nodes[k].data.len() as i64,
    };
    if base + off < 0 {
        return ret(-EINVAL as i64);
    }
    f.fds[i].1 = (base + off) as usize;
    base + off
}
unsafe fn node(dfd: i32, p: *const u8) -> Result<usize, i32> {
    let f = fs();
    let full = path(p);
    if full.is_empty() {
        if let Some(i) = known_fd(dfd) {
            return Ok(f.fds[i].0);
        }
        return Err(ENOENT);
    }
    f.find(&norm(&full)).ok_or(ENOENT)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: i32, p: *const u8, flags: i32, mask: u32, st: *mut u8) -> i32 {
    let f = fs();
    if !f.on {
        return ret(raw(332, [dfd as u64, p as u64, flags as u64, mask as u64, st as u64])) as i32;
    }
    if p.is_null() || st.is_null() {
        return ret(-14) as i32;
    }
    match node(dfd, p) {
        Err(e) => ret(-e as i64) as i32,
        Ok(k) => {
            let n = &f.nodes[k];
            std::ptr::write_bytes(st, 0, 256);
            (st as *mut u32).write(0x7ff);
            (st.add(28) as *mut u16).write(if n.dir { 0o040755 } else { 0o100644 });
            (st.add(32) as *mut u64).write(k as u64 + 1);
            (st.add(40) as *mut u64).write(n.data.len() as u64);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
    let f = fs();
    if !f.on {
        return ret(raw(83, [p as u64, mode as u64, 0, 0, 0])) as i32;
    }
    if let Fault::MkDir(e) = f.fault {
        f.hit = true;
        return ret(-e as i64) as i32;
    }
    let full = path(p);
    let n = norm(&full);
    let up = n.iter().rposition(|&c| c == b'/').map_or(0, |i| i);
    let e = if full.is_empty() {
        ENOENT
    } else if f.find(&n).is_some() {
        EEXIST
    } else {
        match f.find(&n[..up]) {
            None => ENOENT,
            Some(k) if !f.nodes[k].dir => ENOTDIR,
            _ => 0,
        }
    };
    if e == 0 {
        f.dir(&n);
    }
    ret(-e as i64) as i32
}
macro_rules! unknown {
    ($($f:ident($nr:expr, $($a:ident),*);)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f($($a: u64),*) -> i64 {
            let f = fs();
            if f.on {
                f.strange = true;
                return ret(-ENOSYS as i64);
            }
            let mut v = [0; 5];
            let mut _n = 0;
            $(v[_n] = $a; _n += 1;)*
            ret(raw($nr, v))
        }
    )*};
}
unknown! {
    ftruncate64(77, a, b);
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const u8, q: *const u8) -> i32 {
    let f = fs();
    if !f.on {
        return ret(raw(82, [p as u64, q as u64, 0, 0, 0])) as i32;
    }
    let (a, b) = (norm(&path(p)), norm(&path(q)));
    let Some(k) = f.find(&a) else { return ret(-ENOENT as i64) as i32 };
    if let Some(j) = f.find(&b) {
        f.nodes[j].path = vec![0];
    }
    f.nodes[k].path = b;
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    let f = fs();
    if !f.on {
        return ret(raw(87, [p as u64, 0, 0, 0, 0])) as i32;
    }
    match f.find(&norm(&path(p))) {
        None => ret(-ENOENT as i64) as i32,
        Some(k) => {
            // open descriptors keep the node
            f.nodes[k].path = vec![0];
            0
        }
    }
}
macro_rules! sync {
    ($($f:ident $nr:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: i32) -> i32 {
            if fs().on {
                return 0;
            }
            ret(raw($nr, [fd as u64, 0, 0, 0, 0])) as i32
        }
    )*};
}
sync! { fsync 74; fdatasync 75; }

/// The text of an error.
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(e: i32, b: *mut u8, n: usize) -> i32 {
    let s = b"error\0";
    let _ = e;
    for i in 0..s.len().min(n) {
        *b.add(i) = s[i];
    }
    0
}
