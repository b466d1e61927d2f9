//! Memory shared between the coordinator and its workers.
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const PATH_MAX: usize = 1 << 15;
pub const MAXW: usize = 16;

pub struct Set {
    table: *const AtomicU64,
    mask: usize,
    pub count: *const AtomicU64,
}
unsafe fn map_shared(len: usize) -> *mut u8 {
    let p = libc::mmap(
        core::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED, "mmap failed");
    p.cast()
}
impl Set {
    unsafe fn new(log2: u32) -> Set {
        let n = 1usize << log2;
        let p = map_shared(n * 8 + 64);
        Set { table: p.add(64).cast(), mask: n - 1, count: p.cast() }
    }
    unsafe fn free(&mut self) {
        libc::munmap(self.count as *mut _, (self.mask + 1) * 8 + 64);
    }
    /// Inserts `h`; returns true when it was not there.
    pub unsafe fn insert(&self, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let mut i = h as usize & self.mask;
        let mut probes = 0;
        loop {
            let c = &*self.table.add(i);
            let v = c.load(Relaxed);
            if v == h {
                return false;
            }
            if v == 0 {
                match c.compare_exchange(0, h, AcqRel, Acquire) {
                    Ok(_) => {
                        (*self.count).fetch_add(1, Relaxed);
                        return true;
                    }
                    Err(o) if o == h => return false,
                    Err(_) => {}
                }
            }
            i = (i + 1) & self.mask;
            probes += 1;
            if probes > 4096 {
                // Full: forget about merging (sound, only slower).
                return true;
            }
        }
    }
    pub fn len(&self) -> u64 {
        unsafe { (*self.count).load(Relaxed) }
    }
}

#[repr(C)]
pub struct WorkerSlot {
    pub execs: AtomicU64,
    pub done: AtomicU64,
    pub pruned: AtomicU64,
    pub discarded: AtomicU64,
    pub steps: AtomicU64,
    pub max_depth: AtomicU64,
    pub faults: AtomicU64,
    pub finished: AtomicU32,
    pub capped: AtomicU32,
    pub internal_error: u32,
    pub crash: AtomicU32,
    pub crash_addr: AtomicU64,
    pub path_len: u32,
    pub path: [u16; PATH_MAX],
    pub sample_len: u32,
    pub sample: [u16; 4096],
}

pub const VIOS: usize = 32;
#[repr(C)]
pub struct Vio {
    pub ready: AtomicU32,
    pub key_len: u32,
    pub msg_len: u32,
    pub path_len: u32,
    pub key: [u8; 256],
    pub msg: [u8; 4096],
    pub path: [u16; 8192],
}

#[repr(C)]
pub struct Shared {
    pub seen: Set,
    pub states: Set,
    pub outcomes: Set,
    pub claims: Set,
    pub slots: *mut WorkerSlot,
    pub vios: *mut Vio,
    pub nvios: AtomicUsize,
    pub stop: AtomicU32,
    pub known_hits: [AtomicU64; 64],
}
impl Shared {
    pub fn new() -> *mut Shared {
        unsafe {
            let s = map_shared(core::mem::size_of::<Shared>()).cast::<Shared>();
            s.write(Shared {
                seen: Set::new(25),
                states: Set::new(25),
                outcomes: Set::new(18),
                claims: Set::new(20),
                slots: map_shared(core::mem::size_of::<WorkerSlot>() * MAXW).cast(),
                vios: map_shared(core::mem::size_of::<Vio>() * VIOS).cast(),
                nvios: AtomicUsize::new(0),
                stop: AtomicU32::new(0),
                known_hits: [const { AtomicU64::new(0) }; 64],
            });
            s
        }
    }
    pub unsafe fn free(this: *mut Shared) {
        (*this).seen.free();
        (*this).states.free();
        (*this).outcomes.free();
        (*this).claims.free();
        libc::munmap((*this).slots.cast(), core::mem::size_of::<WorkerSlot>() * MAXW);
        libc::munmap((*this).vios.cast(), core::mem::size_of::<Vio>() * VIOS);
        libc::munmap(this.cast(), core::mem::size_of::<Shared>());
    }
    pub unsafe fn claim(&self, h: u64) -> bool {
        self.claims.insert(h)
    }
    pub unsafe fn report(&self, key: &str, msg: &str, path: &[u16]) {
        let i = self.nvios.fetch_add(1, AcqRel);
        if i >= VIOS {
            return;
        }
        let v = &mut *self.vios.add(i);
        let k = key.as_bytes();
        let n = k.len().min(256);
        v.key[..n].copy_from_slice(&k[..n]);
        v.key_len = n as u32;
        let m = msg.as_bytes();
        let n = m.len().min(4096);
        v.msg[..n].copy_from_slice(&m[..n]);
        v.msg_len = n as u32;
        let n = path.len().min(8192);
        v.path[..n].copy_from_slice(&path[..n]);
        v.path_len = n as u32;
        v.ready.store(1, Release);
    }
}
