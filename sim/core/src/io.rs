//! The simulated disk: libc file calls on files below the run's scratch directory, and `Dev`, an
//! in-memory `Write + Seek` device.  Both consult the run's fault plan and can record a write trace.
use crate::shared::count;
use crate::sim::{self, active, raw, real, ret, set_errno};
use serde_json::Value;
use std::collections::HashMap;
use std::io::{Error, ErrorKind, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Write,
    Read,
    Seek,
    Flush,
    Open,
    Mmap,
    Madvise,
    Readdir,
    Sync,
}
pub const OPS: [(&str, Op); 9] = [
    ("write", Op::Write),
    ("read", Op::Read),
    ("seek", Op::Seek),
    ("flush", Op::Flush),
    ("open", Op::Open),
    ("mmap", Op::Mmap),
    ("madvise", Op::Madvise),
    ("readdir", Op::Readdir),
    ("sync", Op::Sync),
];

#[derive(Clone, Debug)]
pub struct Fault {
    op: Op,
    nth: u64,
    err: String,
    sticky: bool,
    on: String, // only at the device or file with a name ending like this; operations are counted there
}
#[derive(Clone, Debug)]
pub enum Trace {
    Create(String),
    Write(String, u64, Vec<u8>),
    Truncate(String, u64),
    Rename(String, String),
    Remove(String),
}
#[derive(Default)]
pub struct Io {
    root: Vec<u8>,
    fds: HashMap<i32, String>,
    dirs: HashMap<usize, (Vec<Vec<u8>>, usize)>,
    faults: Vec<Fault>,
    n: [u64; 9],
    n_on: std::collections::BTreeMap<String, [u64; 9]>,
    short_p: f64,
    eintr_p: f64,
    permute_dirs: bool,
    pub trace: Option<Vec<Trace>>,
    pub fired: u64,      // error faults delivered
    pub truncated: bool, // reserved
}
static mut IO: *mut Io = std::ptr::null_mut();

pub fn io() -> &'static mut Io {
    unsafe {
        if IO.is_null() {
            IO = Box::into_raw(Box::new(Io::default()));
        }
        &mut *IO
    }
}

/// Installs the fault plan of `v` = {"faults":[{op,nth,err,sticky}], "short_p":.., "eintr_p":.., "permute_dirs":..}
pub fn plan(v: &Value) {
    let m = io();
    m.faults = v["faults"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter_map(|f| {
                    let op = f["op"].as_str()?;
                    Some(Fault {
                        op: OPS.iter().find(|x| x.0 == op)?.1,
                        nth: f["nth"].as_u64().unwrap_or(0),
                        err: f["err"].as_str().unwrap_or("EIO").to_string(),
                        sticky: f["sticky"].as_bool().unwrap_or(false),
                        on: f["on"].as_str().unwrap_or("").to_string(),
                    })
                })
                .collect()
        })
        .unwrap_or_default();
    m.short_p = v["short_p"].as_f64().unwrap_or(0.0);
    m.eintr_p = v["eintr_p"].as_f64().unwrap_or(0.0);
    m.permute_dirs = v["permute_dirs"].as_bool().unwrap_or(false);
    m.n = [0; 9];
    m.n_on.clear();
    m.fired = 0;
}
/// Ends all faults (the medium works from here on) but keeps short transfers legal.
pub fn heal() {
    io().faults.clear();
}
pub fn ops_done(op: Op) -> u64 {
    io().n[op as usize]
}
/// The destinations that saw this operation, with how often.
pub fn dests(op: Op) -> Vec<(String, u64)> {
    io().n_on.iter().filter(|x| x.1[op as usize] > 0).map(|x| (x.0.clone(), x.1[op as usize])).collect()
}
/// The fault described by `f` = {op, err, at, last, sticky, dest}, placed among the operations that
/// the run so far has seen: at operation at/1001 of them (or the last), anywhere or at one destination.
pub fn place(f: &Value) -> Value {
    let op = OPS.iter().find(|o| f["op"] == o.0).map_or(Op::Write, |o| o.1);
    let mut n = ops_done(op);
    let mut on = String::new();
    let d = dests(op);
    if let (Some(k), true) = (f["dest"].as_u64(), d.len() > 1) {
        (on, n) = d[k as usize % d.len()].clone();
        count("io_fault_one_destination");
    }
    let nth = if f["last"].as_bool().unwrap_or(false) {
        n.saturating_sub(1)
    } else {
        (n + 1) * f["at"].as_u64().unwrap_or(0).min(1000) / 1001
    };
    serde_json::json!([{"op": f["op"], "nth": nth, "err": f["err"], "sticky": f["sticky"], "on": on}])
}
pub fn fired() -> u64 {
    io().fired
}

pub enum Act {
    Go(usize),
    Fail(i32),
}
fn errno_of(e: &str) -> i32 {
    match e {
        "ENOSPC" => libc::ENOSPC,
        "EINTR" => libc::EINTR,
        "ENOMEM" => libc::ENOMEM,
        "EMFILE" => libc::EMFILE,
        "ENODEV" => libc::ENODEV,
        "EINVAL" => libc::EINVAL,
        _ => libc::EIO,
    }
}
/// One I/O operation of `len` bytes: how far may it get?
pub fn on_op(op: Op, len: usize, name: &str) -> Act {
    sim::point();
    let m = io();
    let all = m.n[op as usize];
    m.n[op as usize] += 1;
    let here = match m.n_on.get_mut(name) {
        Some(c) => c,
        None => m.n_on.entry(name.to_string()).or_default(),
    };
    let local = here[op as usize];
    here[op as usize] += 1;
    for f in &m.faults {
        let k = if f.on.is_empty() { all } else { local };
        if f.op == op && name.ends_with(&f.on) && (k == f.nth || (f.sticky && k > f.nth)) {
            match f.err.as_str() {
                "SHORT" if len > 1 => {
                    count(if op == Op::Read { "io_short_read" } else { "io_short_write" });
                    return Act::Go(1 + (f.nth as usize * 7919) % (len - 1));
                }
                "SHORT" => return Act::Go(len),
                "ZERO" => {
                    m.fired += 1;
                    count("io_write_zero");
                    return Act::Go(0);
                }
                e => {
                    let e = errno_of(e);
                    if e == libc::EINTR {
                        count("io_eintr");
                    } else {
                        m.fired += 1;
                        count(match (op, e) {
                            (Op::Seek, _) => "io_seek_error",
                            (Op::Flush, _) => "io_flush_error",
                            (Op::Mmap, _) => "io_mmap_fail",
                            (Op::Madvise, _) => "io_madvise_fail",
                            (Op::Open, _) => "io_open_fail",
                            (Op::Readdir, _) => "io_readdir_error",
                            (Op::Sync, _) => "io_sync_error",
                            (_, libc::ENOSPC) => "io_enospc",
                            _ => "io_eio",
                        });
                    }
                    return Act::Fail(e);
                }
            }
        }
    }
    if matches!(op, Op::Write | Op::Read) {
        if m.eintr_p > 0.0 && sim::chance(m.eintr_p) {
            count("io_eintr");
            return Act::Fail(libc::EINTR);
        }
        if len > 1 && m.short_p > 0.0 && sim::chance(m.short_p) {
            count(if op == Op::Read { "io_short_read" } else { "io_short_write" });
            let cap = (len - 1).min(u32::MAX as usize / 2) as u32;
            return Act::Go(1 + sim::choose(cap) as usize);
        }
    }
    Act::Go(len)
}

// ------------------------------------------------------------------ in-memory device
/// A seekable output device with the fault plan applied to every call.
#[derive(Clone, Default)]
pub struct Dev {
    pub name: String,
    pub data: Vec<u8>,
    pub pos: u64,
    /// what the device calls the position of the first byte of `data`
    pub base: u64,
}
impl Dev {
    /// A device that already holds `prefix` and is positioned behind it.
    pub fn new(name: &str, prefix: usize) -> Dev {
        Dev { name: name.into(), data: vec![0xA5; prefix], pos: prefix as u64, base: 0 }
    }
}
fn err(e: i32) -> Error {
    Error::from_raw_os_error(e)
}
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = match on_op(Op::Write, b.len(), &self.name) {
            Act::Fail(e) => return Err(err(e)),
            Act::Go(n) => n.min(b.len()),
        };
        let p = self.pos as usize;
        if n > 0 {
            if self.data.len() < p + n {
                self.data.resize(p + n, 0);
            }
            self.data[p..p + n].copy_from_slice(&b[..n]);
        }
        self.pos += n as u64;
        if let Some(t) = &mut io().trace {
            t.push(Trace::Write(self.name.clone(), p as u64, b[..n].to_vec()));
        }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        match on_op(Op::Flush, 0, &self.name) {
            Act::Fail(e) => Err(err(e)),
            _ => Ok(()),
        }
    }
}
impl Seek for Dev {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        if let Act::Fail(e) = on_op(Op::Seek, 0, &self.name) {
            return Err(err(e));
        }
        let p = match s {
            SeekFrom::Start(x) if x < self.base => {
                return Err(Error::new(ErrorKind::InvalidInput, "seek to what somebody else stored in front"));
            }
            SeekFrom::Start(x) => (x - self.base) as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if p < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = p as u64;
        Ok(self.base + p as u64)
    }
}

// ------------------------------------------------------------------ crash images
/// The files after the first `ops` traced operations, the last of them cut to `torn` bytes.
pub fn image(trace: &[Trace], ops: usize, torn: Option<usize>) -> HashMap<String, Vec<u8>> {
    let mut m: HashMap<String, Vec<u8>> = HashMap::new();
    for (i, t) in trace.iter().take(ops).enumerate() {
        match t {
            Trace::Create(f) => {
                m.insert(f.clone(), Vec::new());
            }
            Trace::Truncate(f, n) => m.entry(f.clone()).or_default().resize(*n as usize, 0),
            Trace::Rename(a, b) => {
                if let Some(d) = m.remove(a) {
                    m.insert(b.clone(), d);
                }
            }
            Trace::Remove(f) => {
                m.remove(f);
            }
            Trace::Write(f, off, d) => {
                let d = match torn {
                    Some(k) if i + 1 == ops => &d[..k.min(d.len())],
                    _ => &d[..],
                };
                let v = m.entry(f.clone()).or_default();
                let end = *off as usize + d.len();
                if v.len() < end && !d.is_empty() {
                    v.resize(end, 0);
                }
                if !d.is_empty() {
                    v[*off as usize..end].copy_from_slice(d);
                }
            }
        }
    }
    m
}

// ------------------------------------------------------------------ libc file calls
pub fn set_root(p: &str) {
    io().root = p.as_bytes().to_vec();
}
unsafe fn cbytes<'a>(p: *const libc::c_char) -> &'a [u8] {
    std::ffi::CStr::from_ptr(p).to_bytes()
}
fn ours(path: &[u8]) -> bool {
    let r = &io().root;
    !r.is_empty() && path.starts_with(r)
}
fn known(fd: i32) -> Option<&'static String> {
    if active() {
        io().fds.get(&fd)
    } else {
        None
    }
}
unsafe fn do_open(dirfd: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    let track = active() && ours(cbytes(path)) && flags & libc::O_DIRECTORY == 0;
    if track {
        if let Act::Fail(e) = on_op(Op::Open, 0, &String::from_utf8_lossy(cbytes(path))) {
            set_errno(e);
            return -1;
        }
    }
    let fd = ret(raw(libc::SYS_openat, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32;
    if fd >= 0 && track {
        let name = String::from_utf8_lossy(cbytes(path)).into_owned();
        if let Some(t) = &mut io().trace {
            if flags & libc::O_TRUNC != 0 {
                t.push(Trace::Create(name.clone()));
            } else if flags & libc::O_CREAT != 0 {
                t.push(Trace::Write(name.clone(), 0, vec![]));
            }
        }
        io().fds.insert(fd, name);
    } else if fd >= 0 && active() {
        io().fds.remove(&fd);
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
unsafe fn path_of(p: *const libc::c_char) -> Option<String> {
    (active() && ours(cbytes(p))).then(|| String::from_utf8_lossy(cbytes(p)).into_owned())
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    let r = ret(raw(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as i32;
    if let (0, Some(a), Some(b)) = (r, path_of(a), path_of(b)) {
        sim::point();
        let m = io();
        for n in m.fds.values_mut() {
            if *n == a {
                *n = b.clone();
            }
        }
        if let Some(t) = &mut m.trace {
            t.push(Trace::Rename(a, b));
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> i32 {
    let r = ret(raw(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as i32;
    if let (0, Some(a)) = (r, path_of(a)) {
        sim::point();
        if let Some(t) = &mut io().trace {
            t.push(Trace::Remove(a));
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    let r = ret(raw(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0)) as i32;
    if let (0, Some(name)) = (r, known(fd)) {
        sim::point();
        if let Some(t) = &mut io().trace {
            t.push(Trace::Truncate(name.clone(), n as u64));
        }
    }
    r
}
unsafe fn do_sync(nr: libc::c_long, fd: i32) -> i32 {
    if let Some(name) = known(fd) {
        if let Act::Fail(e) = on_op(Op::Sync, 0, name) {
            set_errno(e);
            return -1;
        }
        return 0; // nothing outlives the run's scratch directory
    }
    ret(raw(nr, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    do_sync(libc::SYS_fsync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    do_sync(libc::SYS_fdatasync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if active() {
        io().fds.remove(&fd);
    }
    ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    let mut n = n;
    if active() && (fd == 1 || fd == 2) {
        sim::point();
        return n as isize; // progress output of the code under test
    }
    if let Some(name) = known(fd) {
        match on_op(Op::Write, n, name) {
            Act::Fail(e) => {
                set_errno(e);
                return -1;
            }
            Act::Go(k) => n = k.min(n),
        }
        let off = raw(libc::SYS_lseek, fd as usize, 0, libc::SEEK_CUR as usize, 0, 0, 0);
        let r = raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0);
        if r > 0 {
            if let Some(t) = &mut io().trace {
                t.push(Trace::Write(
                    name.clone(),
                    off as u64,
                    std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec(),
                ));
            }
        }
        return ret(r);
    }
    ret(raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    let mut n = n;
    if let Some(name) = known(fd) {
        match on_op(Op::Read, n, name) {
            Act::Fail(e) => {
                set_errno(e);
                return -1;
            }
            Act::Go(k) => n = k.min(n),
        }
    }
    ret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
unsafe fn do_lseek(fd: i32, off: i64, whence: i32) -> i64 {
    if let Some(name) = known(fd) {
        if let Act::Fail(e) = on_op(Op::Seek, 0, name) {
            set_errno(e);
            return -1;
        }
    }
    ret(raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    do_lseek(fd, off, whence)
}
unsafe fn do_mmap(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    if fd >= 0 {
        if let Some(name) = known(fd) {
            if let Act::Fail(e) = on_op(Op::Mmap, 0, name) {
                set_errno(e);
                return libc::MAP_FAILED;
            }
        }
    }
    ret(raw(libc::SYS_mmap, a, len, prot as usize, flags as usize, fd as isize as usize, off as usize)) as *mut libc::c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    do_mmap(a, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    do_mmap(a, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn madvise(a: usize, len: usize, advice: i32) -> i32 {
    if active() {
        if let Act::Fail(e) = on_op(Op::Madvise, 0, "") {
            set_errno(e);
            return -1;
        }
    }
    ret(raw(libc::SYS_madvise, a, len, advice as usize, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_madvise(a: usize, len: usize, advice: i32) -> i32 {
    if active() {
        if let Act::Fail(e) = on_op(Op::Madvise, 0, "") {
            return e;
        }
    }
    -raw(libc::SYS_madvise, a, len, advice as usize, 0, 0, 0) as i32
}
type Readdir = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
type Closedir = unsafe extern "C" fn(*mut libc::DIR) -> i32;
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let f: Readdir = real(b"readdir64\0");
    if !active() {
        return f(d);
    }
    if let Act::Fail(e) = on_op(Op::Readdir, 0, "") {
        set_errno(e);
        return std::ptr::null_mut();
    }
    if !io().permute_dirs {
        return f(d);
    }
    let m = io();
    if !m.dirs.contains_key(&(d as usize)) {
        let mut v = Vec::new();
        loop {
            let e = f(d);
            if e.is_null() {
                break;
            }
            v.push(std::slice::from_raw_parts(e as *const u8, (*e).d_reclen as usize).to_vec());
        }
        let mut moved = false;
        for i in (1..v.len()).rev() {
            let k = sim::choose(i as u32 + 1) as usize;
            if k != 0 {
                moved = true;
                v.swap(i, i - k);
            }
        }
        if moved {
            count("dir_order_permuted");
        }
        m.dirs.insert(d as usize, (v, 0));
    }
    let (v, i) = m.dirs.get_mut(&(d as usize)).unwrap();
    if *i >= v.len() {
        return std::ptr::null_mut();
    }
    *i += 1;
    v[*i - 1].as_ptr() as *mut libc::dirent64
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> i32 {
    let f: Closedir = real(b"closedir\0");
    if !IO.is_null() {
        io().dirs.remove(&(d as usize));
    }
    f(d)
}
