//! Processes that do nothing but fork runs.  They are made before anything else happens in this process, so that
//! every run, in a check as in a replay, starts from the same memory.
use crate::shared::Shared;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::SeqCst};

pub const SLOTS: usize = 33;
const SPEC: usize = 4 << 20;

#[repr(C)]
pub struct Slot {
    pub sh: Shared,
    pid: AtomicI32,
    status: AtomicI32,
    prop: AtomicU32,
    cpu: AtomicI32,
    dir_len: AtomicU32,
    spec_len: AtomicU32,
    dir: [u8; 256],
    spec: [u8; SPEC],
}
static mut SLOT: [*mut Slot; SLOTS] = [std::ptr::null_mut(); SLOTS];
static mut ASK: [i32; SLOTS] = [0; SLOTS];
static mut ANSWER: [i32; SLOTS] = [0; SLOTS];

pub fn slot(i: usize) -> &'static mut Slot {
    unsafe { &mut *SLOT[i] }
}
/// what a run gets: property, scratch directory, scenario
pub type Run = fn(&'static mut Slot, usize, &'static str, &'static str) -> !;

static mut IN_RUN: bool = false;
/// Is this process a run?
pub fn in_run() -> bool {
    unsafe { IN_RUN }
}
unsafe fn close(fd: i32) {
    libc::syscall(libc::SYS_close, fd);
}
pub fn start(run: Run) {
    unsafe {
        for i in 0..SLOTS {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Slot>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            SLOT[i] = p as *mut Slot;
        }
        for i in 0..SLOTS {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert_eq!(0, libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC));
            assert_eq!(0, libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC));
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::dup3(a[0], 200, libc::O_CLOEXEC);
                libc::dup3(b[1], 201, libc::O_CLOEXEC);
                for fd in 3..200 {
                    close(fd);
                }
                serve(&mut *SLOT[i], run)
            }
            close(a[0]);
            close(b[1]);
            ASK[i] = a[1];
            ANSWER[i] = b[0];
        }
    }
}
unsafe fn serve(s: &'static mut Slot, run: Run) -> ! {
    let mut cpu = -1;
    loop {
        let mut c = 0u8;
        if libc::syscall(libc::SYS_read, 200, &mut c as *mut u8, 1) != 1 {
            libc::_exit(0);
        }
        let want = s.cpu.load(SeqCst);
        if want >= 0 && want != cpu {
            let mut one: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(want as usize, &mut one);
            libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
            cpu = want;
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            close(200);
            close(201);
            IN_RUN = true;
            let dir = std::str::from_utf8_unchecked(&*(&s.dir[..s.dir_len.load(SeqCst) as usize] as *const [u8]));
            let spec = std::str::from_utf8_unchecked(&*(&s.spec[..s.spec_len.load(SeqCst) as usize] as *const [u8]));
            let prop = s.prop.load(SeqCst) as usize;
            run(s, prop, dir, spec)
        }
        s.pid.store(pid, SeqCst);
        let mut st = 0i32;
        if pid > 0 {
            libc::waitpid(pid, &mut st, 0);
        }
        s.status.store(if pid > 0 { st } else { libc::SIGKILL }, SeqCst);
        s.pid.store(0, SeqCst);
        libc::syscall(libc::SYS_write, 201, &c as *const u8, 1);
    }
}
/// Starts a run; `false` if its scenario is too large.
pub fn ask(i: usize, prop: usize, cpu: i32, dir: &str, spec: &str) -> bool {
    let s = slot(i);
    if spec.len() > SPEC || dir.len() > s.dir.len() {
        return false;
    }
    s.dir[..dir.len()].copy_from_slice(dir.as_bytes());
    s.dir_len.store(dir.len() as u32, SeqCst);
    s.spec[..spec.len()].copy_from_slice(spec.as_bytes());
    s.spec_len.store(spec.len() as u32, SeqCst);
    s.prop.store(prop as u32, SeqCst);
    s.cpu.store(cpu, SeqCst);
    s.pid.store(0, SeqCst);
    unsafe { libc::syscall(libc::SYS_write, ASK[i], &1u8 as *const u8, 1) == 1 }
}
/// Waits up to a second for the end of the run: its status.
pub fn wait(i: usize) -> Option<i32> {
    unsafe {
        let mut p = libc::pollfd { fd: ANSWER[i], events: libc::POLLIN, revents: 0 };
        if libc::poll(&mut p, 1, 1000) <= 0 {
            return None;
        }
        let mut c = 0u8;
        if libc::syscall(libc::SYS_read, ANSWER[i], &mut c as *mut u8, 1) != 1 {
            panic!("a forking process is gone");
        }
    }
    Some(slot(i).status.load(SeqCst))
}
/// the process of the run, while there is one
pub fn pid(i: usize) -> Option<i32> {
    Some(slot(i).pid.load(SeqCst)).filter(|p| *p > 0)
}
