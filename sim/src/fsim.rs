//! The file system the debug tracing sees: in memory, with injected faults.
//!
//! The libc entry points std uses are defined here, so calls made while a
//! simulated call is active never reach the real file system if they would
//! change anything. Outside of a simulated call they pass straight through.

#![allow(invalid_runtime_symbol_definitions)]

use crate::prng::Prng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const EACCES: i32 = 13;
const EEXIST: i32 = 17;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EMFILE: i32 = 24;
const ENOSPC: i32 = 28;
const EROFS: i32 = 30;
const ENAMETOOLONG: i32 = 36;
const EDQUOT: i32 = 122;

const O_ACCMODE: i32 = 3;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;

const FD0: i32 = 1_000_000;

/// Kinds of one-off faults, by number.
pub const FAULTS: [&str; 8] = [
    "fault: EIO",
    "fault: ENOSPC",
    "fault: EACCES",
    "fault: EMFILE or EDQUOT",
    "fault: EINTR",
    "fault: short write",
    "fault: write of nothing",
    "fault: EEXIST or EROFS",
];

#[derive(Default)]
pub struct Sim {
    pub root: String,
    pub files: BTreeMap<String, Vec<u8>>,
    pub dirs: BTreeSet<String>,
    fds: BTreeMap<i32, String>,
    next_fd: i32,
    /// bytes the disk still takes; None: no limit
    pub room: Option<u64>,
    pub read_only: bool,
    pub tracing: bool,
    /// (operation number, kind, argument)
    pub plan: BTreeMap<u64, (usize, u64)>,
    pub noise: u64,
    pub rng: Option<Prng>,
    pub ops: u64,
    pub fired: BTreeMap<&'static str, u64>,
    pub escapes: Vec<String>,
    pub changes: u64,
    pub bytes: u64,
    pub log: Vec<String>,
    pub verbose: bool,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static SIM: RefCell<Option<Box<Sim>>> = const { RefCell::new(None) };
}

pub fn install(s: Sim) {
    SIM.with(|c| *c.borrow_mut() = Some(Box::new(s)));
}
pub fn take() -> Option<Box<Sim>> {
    ACTIVE.set(false);
    SIM.with(|c| c.borrow_mut().take())
}
pub fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    SIM.with(|c| f(c.borrow_mut().as_mut().unwrap()))
}
/// Route the calling thread's file operations to the simulated file system.
pub fn active(on: bool) {
    ACTIVE.set(on);
}
fn is_active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

pub fn normal(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/simfs/cwd/{p}") };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}
pub fn beneath(p: &str, root: &str) -> bool {
    p == root || p.starts_with(&format!("{}/", root.trim_end_matches('/')))
}

impl Sim {
    pub fn new(root: &str) -> Self {
        let mut s = Sim { root: normal(root), next_fd: FD0, ..Sim::default() };
        for d in ["/", "/simfs", "/simfs/cwd", "/simfs/a"] {
            s.dirs.insert(d.into());
        }
        s
    }
    pub fn open_files(&self) -> usize {
        self.fds.len()
    }
    /// One operation: counts it and says which fault, if any, strikes it.
    fn step(&mut self, name: &str, path: &str) -> Option<(usize, u64)> {
        let k = self.ops;
        self.ops += 1;
        if self.verbose {
            self.log.push(format!("fs {k}: {name} {path}"));
        }
        if let Some(f) = self.plan.get(&k) {
            return Some(*f);
        }
        if self.noise > 0 {
            if let Some(r) = self.rng.as_mut() {
                if r.below(1000) < self.noise {
                    return Some((r.us(FAULTS.len()), r.next() >> 1));
                }
            }
        }
        None
    }
    fn fire(&mut self, kind: usize) {
        *self.fired.entry(FAULTS[kind]).or_insert(0) += 1;
        if self.verbose {
            self.log.push(format!("   {}", FAULTS[kind]));
        }
    }
    /// A change to something other than an open file: allowed only beneath the root.
    fn change(&mut self, what: &str, path: &str, ancestors: bool) -> bool {
        self.changes += 1;
        if beneath(path, &self.root) || (ancestors && beneath(&self.root, path)) {
            return true;
        }
        self.escapes.push(format!("{what} {path}"));
        false
    }
    fn open(&mut self, raw: &str, flags: i32) -> Result<i32, i32> {
        let p = normal(raw);
        let writes = flags & O_ACCMODE != 0 || flags & (O_CREAT | O_TRUNC) != 0;
        let f = self.step("open", &p);
        if writes && !self.change("open for writing", &p, false) {
            return Err(EACCES);
        }
        if raw.len() > 4095 || p.split('/').any(|c| c.len() > 255) {
            return Err(ENAMETOOLONG);
        }
        if let Some((k, _)) = f {
            let e = [EIO, ENOSPC, EACCES, EMFILE, EINTR, 0, 0, EROFS][k];
            if e != 0 {
                self.fire(k);
                return Err(e);
            }
        }
        if self.dirs.contains(&p) {
            if writes {
                return Err(EISDIR);
            }
        } else if !self.files.contains_key(&p) {
            if self.files.contains_key(&parent(&p)) {
                return Err(ENOTDIR);
            }
            if flags & O_CREAT == 0 || !self.dirs.contains(&parent(&p)) {
                return Err(ENOENT);
            }
            if self.read_only {
                return Err(EROFS);
            }
            self.files.insert(p.clone(), vec![]);
        } else {
            if flags & O_EXCL != 0 && flags & O_CREAT != 0 {
                return Err(EEXIST);
            }
            if writes && self.read_only {
                return Err(EROFS);
            }
            if flags & O_TRUNC != 0 {
                self.files.insert(p.clone(), vec![]);
            }
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, p);
        Ok(fd)
    }
    fn mkdir(&mut self, raw: &str) -> Result<i32, i32> {
        let p = normal(raw);
        let f = self.step("mkdir", &p);
        if !self.change("mkdir", &p, true) {
            return Err(EACCES);
        }
        if raw.len() > 4095 || p.split('/').any(|c| c.len() > 255) {
            return Err(ENAMETOOLONG);
        }
        if let Some((k, _)) = f {
            let e = [EIO, ENOSPC, EACCES, EDQUOT, EINTR, 0, 0, EEXIST][k];
            if e != 0 {
                self.fire(k);
                return Err(e);
            }
        }
        if self.dirs.contains(&p) || self.files.contains_key(&p) {
            return Err(EEXIST);
        }
        if self.files.contains_key(&parent(&p)) {
            return Err(ENOTDIR);
        }
        if raw.is_empty() || !self.dirs.contains(&parent(&p)) {
            return Err(ENOENT);
        }
        if self.read_only {
            return Err(EROFS);
        }
        self.dirs.insert(p);
        Ok(0)
    }
    fn write(&mut self, fd: i32, b: &[u8]) -> Result<usize, i32> {
        let p = match self.fds.get(&fd) {
            Some(p) => p.clone(),
            None => return Err(EBADF),
        };
        let mut n = b.len();
        if let Some((k, arg)) = self.step("write", &p) {
            let e = [EIO, ENOSPC, EIO, EDQUOT, EINTR, 0, 0, EROFS][k];
            if e != 0 {
                self.fire(k);
                return Err(e);
            }
            if k == 6 && n > 0 {
                self.fire(k);
                return Ok(0);
            }
            if k == 5 && n > 1 {
                self.fire(k);
                n = 1 + (arg as usize) % (n - 1);
            }
        }
        if let Some(room) = self.room.as_mut() {
            if n > 0 && *room == 0 {
                self.fire(1);
                return Err(ENOSPC);
            }
            if (n as u64) > *room {
                self.fired.entry(FAULTS[5]).and_modify(|c| *c += 1).or_insert(1);
                n = *room as usize;
            }
            *self.room.as_mut().unwrap() -= n as u64;
        }
        self.bytes += n as u64;
        if let Some(f) = self.files.get_mut(&p) {
            f.extend_from_slice(&b[..n]);
        }
        Ok(n)
    }
    fn close(&mut self, fd: i32) -> Result<i32, i32> {
        let p = match self.fds.remove(&fd) {
            Some(p) => p,
            None => return Err(EBADF),
        };
        match self.step("close", &p) {
            Some((k, _)) if k < 2 => {
                self.fire(k);
                Err(EIO)
            }
            _ => Ok(0),
        }
    }
    fn mode(&self, p: &str) -> Option<u32> {
        if self.dirs.contains(p) {
            Some(0o040755)
        } else {
            self.files.get(p).map(|_| 0o100644)
        }
    }
    fn remove(&mut self, what: &str, raw: &str) -> Result<i32, i32> {
        let p = normal(raw);
        self.step(what, &p);
        if !self.change(what, &p, false) {
            return Err(EACCES);
        }
        if self.files.remove(&p).is_some() || self.dirs.remove(&p) {
            Ok(0)
        } else {
            Err(ENOENT)
        }
    }
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
fn done(r: Result<i32, i32>) -> c_int {
    match r {
        Ok(v) => v,
        Err(e) => unsafe {
            *__errno_location() = e;
            -1
        },
    }
}
unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
/// Is this path the simulator's business?
fn ours(p: &str) -> bool {
    let n = normal(p);
    beneath(&n, "/simfs")
}

unsafe fn open_any(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    const AT_FDCWD: c_int = -100;
    if is_active() {
        let p = text(path);
        let writes = flags & O_ACCMODE != 0 || flags & (O_CREAT | O_TRUNC) != 0;
        if writes || (ours(&p) && (dir == AT_FDCWD || p.starts_with('/'))) {
            return done(with(|s| s.open(&p, flags)));
        }
    }
    syscall(257, dir, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_any(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_any(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_any(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_any(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: u32) -> c_int {
    open_any(-100, path, O_CREAT | O_TRUNC | 1, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
    if is_active() {
        let p = text(path);
        return done(with(|s| s.mkdir(&p)));
    }
    syscall(83, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd >= FD0 && is_active() {
        let b = std::slice::from_raw_parts(buf as *const u8, n);
        return match with(|s| s.write(fd, b)) {
            Ok(n) => n as isize,
            Err(e) => done(Err(e)) as isize,
        };
    }
    syscall(1, fd, buf, n) as isize
}
#[repr(C)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if fd >= FD0 && is_active() {
        let mut all = vec![];
        for i in 0..n as usize {
            let e = &*v.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(e.base, e.len));
        }
        return match with(|s| s.write(fd, &all)) {
            Ok(n) => n as isize,
            Err(e) => done(Err(e)) as isize,
        };
    }
    syscall(20, fd, v, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if fd >= FD0 && is_active() {
        return write(fd, buf, n);
    }
    syscall(18, fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD0 && is_active() {
        return done(with(|s| s.close(fd)));
    }
    syscall(3, fd) as c_int
}
macro_rules! on_fd {
    ($($f:ident $n:expr),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, a: i64, b: c_int) -> i64 {
            if fd >= FD0 && is_active() {
                return match with(|s| s.step(stringify!($f), "").map(|(k, _)| if k < 4 { s.fire(k); EIO } else { 0 })) {
                    Some(e) if e != 0 => done(Err(e)) as i64,
                    _ => 0,
                };
            }
            syscall($n, fd, a, b) as i64
        }
    )*};
}
on_fd!(fsync 74, fdatasync 75, ftruncate64 77, lseek64 8);
macro_rules! removal {
    ($($f:ident $n:expr),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(path: *const c_char) -> c_int {
            if is_active() {
                let p = text(path);
                return done(with(|s| s.remove(stringify!($f), &p)));
            }
            syscall($n, path) as c_int
        }
    )*};
}
removal!(unlink 87, rmdir 84);
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if is_active() {
        let p = text(path);
        return done(with(|s| s.remove("unlinkat", &p)));
    }
    syscall(263, dir, path, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if is_active() {
        let (a, b) = (normal(&text(a)), normal(&text(b)));
        return done(with(|s| {
            let f = s.step("rename", &a);
            if !s.change("rename from", &a, false) || !s.change("rename to", &b, false) {
                return Err(EACCES);
            }
            if let Some((k, _)) = f {
                s.fire(k.min(1));
                return Err(EIO);
            }
            match s.files.remove(&a) {
                Some(c) => {
                    for p in s.fds.values_mut() {
                        if *p == a {
                            *p = b.clone();
                        }
                    }
                    s.files.insert(b, c);
                    Ok(0)
                }
                None => Err(ENOENT),
            }
        }));
    }
    syscall(82, a, b) as c_int
}
macro_rules! refused {
    ($($f:ident $n:expr),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: *const c_char, b: *const c_char) -> c_int {
            if is_active() {
                let p = normal(&text(b));
                return done(with(|s| { s.step(stringify!($f), &p); s.change(stringify!($f), &p, false); Err(EACCES) }));
            }
            syscall($n, a, b) as c_int
        }
    )*};
}
refused!(link 86, symlink 88);
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: u32) -> c_int {
    if is_active() {
        let p = normal(&text(path));
        return done(with(|s| if s.change("chmod", &p, false) { Ok(0) } else { Err(EACCES) }));
    }
    syscall(90, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut u8) -> c_int {
    if is_active() {
        let p = if path.is_null() { String::new() } else { text(path) };
        let mode = if p.is_empty() && dir >= FD0 {
            Some(Some(0o100644))
        } else if dir == -100 && ours(&p) {
            Some(with(|s| s.mode(&normal(&p))))
        } else {
            None
        };
        match mode {
            Some(Some(m)) => {
                std::ptr::write_bytes(out, 0, 256);
                *(out as *mut u32) = 0x7ff;
                *(out.add(28) as *mut u16) = m as u16;
                return 0;
            }
            Some(None) => return done(Err(ENOENT)),
            None => {}
        }
    }
    syscall(332, dir, path, flags, mask, out) as c_int
}
