//! Memory shared between a worker and the run it forked: whatever the run has done so far is readable
//! after it exits, crashes or is killed.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const MAX_DEV: usize = 1 << 18;
pub const MSG: usize = 1 << 16;
pub const NCTR: usize = 64;
pub const MAX_EDGES: usize = 1 << 18;

#[repr(C)]
pub struct Shared {
    pub outcome: AtomicU32, // 0 not finished, 1 held, 2 violation, 3 spec not applicable
    pub ndev: AtomicU32,
    pub dev_overflow: AtomicU32,
    pub msg_len: AtomicU32,
    pub panic_len: AtomicU32,
    pub decisions: AtomicU64,
    pub steps: AtomicU64,
    pub switches: AtomicU64,
    pub preemptions: AtomicU64,
    pub sim_ns: AtomicU64,
    pub event_hash: AtomicU64,
    pub oracle_checks: AtomicU64,
    pub tasks: AtomicU64,
    pub ctr: [AtomicU64; NCTR],
    pub edges: [u8; MAX_EDGES],
    pub dev: [(u64, u32); MAX_DEV],
    pub msg: [u8; MSG],
    pub panic: [u8; 4096],
}

pub static mut SHARED: *mut Shared = std::ptr::null_mut();


pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

impl Shared {
    pub fn reset(&mut self) {
        for a in [&self.outcome, &self.ndev, &self.dev_overflow, &self.msg_len, &self.panic_len] {
            a.store(0, Relaxed);
        }
        for a in [
            &self.decisions,
            &self.steps,
            &self.switches,
            &self.preemptions,
            &self.sim_ns,
            &self.event_hash,
            &self.oracle_checks,
            &self.tasks,
        ] {
            a.store(0, Relaxed);
        }
        for c in &self.ctr {
            c.store(0, Relaxed);
        }
    }
    pub fn set_msg(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(MSG);
        self.msg[..n].copy_from_slice(&b[..n]);
        self.msg_len.store(n as u32, Relaxed);
    }
    pub fn get_msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len.load(Relaxed) as usize]).into_owned()
    }
    pub fn set_panic(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(self.panic.len());
        self.panic[..n].copy_from_slice(&b[..n]);
        self.panic_len.store(n as u32, Relaxed);
    }
    pub fn get_panic(&self) -> String {
        String::from_utf8_lossy(&self.panic[..self.panic_len.load(Relaxed) as usize]).into_owned()
    }
    pub fn deviations(&self) -> Option<Vec<(u64, u32)>> {
        if self.dev_overflow.load(Relaxed) != 0 {
            return None;
        }
        Some(self.dev[..self.ndev.load(Relaxed) as usize].to_vec())
    }
}

/// Counters of injected faults and other events, by name.
pub const CTR_NAMES: &[&str] = &[
    "thread_preemption",
    "thread_stall",
    "lock_holder_stall",
    "spurious_futex_wakeup",
    "clock_jump",
    "clock_frozen_run",
    "timeout_fired",
    "io_short_write",
    "io_short_read",
    "io_eintr",
    "io_enospc",
    "io_eio",
    "io_write_zero",
    "io_seek_error",
    "io_flush_error",
    "io_mmap_fail",
    "io_madvise_fail",
    "io_open_fail",
    "io_readdir_error",
    "dir_order_permuted",
    "crash_point",
    "torn_write",
    "process_restart",
    "pct_priority_change",
    "unaligned_load",
    "io_truncated_input",
    "io_corrupt_input",
    "wake_order_permuted",
    "queries",
    "io_partial_read",
    "pool_contention_blocked",
    "memory_access_preemption",
    "container_panic",
    "operation_panicked",
    "stalled_device",
    "stalled_insert",
    "io_sync_error",
    "second_index_at_once",
    "overwritten_content",
    "io_fault_one_destination",
];

pub fn count(name: &str) {
    count_n(name, 1)
}
#[inline(never)]
pub fn count_n(name: &str, n: u64) {
    let i = CTR_NAMES.iter().position(|x| *x == name).expect(name);
    sh().ctr[i].fetch_add(n, Relaxed);
}
#[inline(never)]
pub fn checked(n: u64) {
    sh().oracle_checks.fetch_add(n, Relaxed);
}
