//! Mirror of sim/shim/shim.h: the memory shared with a simulated process.
use std::os::fd::RawFd;

pub const MAGIC: u64 = 0x7a6b73696d303130;
pub const NFILES: usize = 160;
pub const NMOVES: usize = 16;
pub const PATHLEN: usize = 256;
pub const FILECAP: usize = 8 << 20;
pub const NFAULTS: usize = 256;
pub const NPREEMPT: usize = 8192;
pub const NLOG: usize = 4096;
pub const OUTCAP: usize = 1 << 20;
pub const NCLASS: usize = 12;

pub const CLASS_NAMES: [&str; NCLASS] = [
    "open_read", "open_write", "read", "write", "stdio", "close", "sync", "namespace", "stat", "seek", "alloc", "thread",
];
pub const KIND_NAMES: [&str; 7] = ["none", "errno", "short", "zero", "crash_before", "crash_after", "crash_inside"];

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault {
    pub cls: u32,
    pub kind: u32,
    pub nth: u64,
    pub count: u64,
    pub arg: i64,
    pub fired: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CPreempt {
    pub step: u64,
    pub target: u32,
    pub micro: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CMove {
    pub op: u64,
    pub from: [u8; PATHLEN],
    pub to: [u8; PATHLEN],
    pub done: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFile {
    pub path: [u8; PATHLEN],
    pub kind: u8,
    pub outside: u8,
    pub noread: u8,
    pub nowrite: u8,
    pub unlinked: u8,
    pub created: u8,
    pub touched: u8,
    pub holders: u8,
    pub extent: u32,
    pub ino: u32,
    pub size: u64,
    pub lockp: u32,
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CLog {
    pub op: u8,
    pub thr: u8,
    pub file: u16,
    pub res: i32,
    pub arg: u64,
}
#[repr(C)]
pub struct Image {
    pub magic: u64,
    pub seed: u64,
    pub clock0: u64,
    pub clock_step: u64,
    pub clock_jump: i64,
    pub clock_jump_at: u64,
    pub capacity: u64,
    pub capacity_errno: u32,
    pub pid: u32,
    pub layout_salt: u64,
    pub ambient: u64,
    pub max_ops: u64,
    pub max_allocs: u64,
    pub max_handles: u64,
    pub max_chunk_r: u64,
    pub max_chunk_w: u64,
    pub nfaults: u32,
    pub npreempt: u32,
    pub nhot: u32,
    pub sched_mode: u32,
    pub cwd: [u8; PATHLEN],
    pub root: [u8; PATHLEN],
    pub faults: [CFault; NFAULTS],
    pub preempts: [CPreempt; NPREEMPT],
    pub hots: [CPreempt; NPREEMPT],
    pub proc: u32,
    pub nprocs: u32,
    pub nmoves: u64,
    pub moves: [CMove; NMOVES],
    pub opcount: [u64; NCLASS],
    pub steps: u64,
    pub switches: u64,
    pub clock_now: u64,
    pub loghash: u64,
    pub rand_calls: u64,
    pub clock_calls: u64,
    pub threads: u64,
    pub crashed: u32,
    pub deadlock: u32,
    pub hang: u32,
    pub unsupported: u32,
    pub nlog: u32,
    pub nesc: u32,
    pub outlen: [u32; 2],
    pub esc: [[u8; PATHLEN]; 8],
    pub unsup: [u8; 64],
    pub bytes_used: u64,
    pub wait_blocks: u64,
    pub micro_steps: u64,
    pub futex_waits: u64,
    pub nospace: u64,
    pub hot: u64,
    pub atomics: u64,
    pub statics: u64,
    pub live: u64,
    pub slept: u64,
    pub log: [CLog; NLOG],
    pub out: [[u8; OUTCAP]; 2],
    pub fs: CDisk,
}
/// The part that all processes on one disk share.
#[repr(C, align(4096))]
pub struct CDisk {
    pub nextino: u32,
    pub nfiles_used: u32,
    pub extent_used: [u32; NFILES],
    pub files: [CFile; NFILES],
}

pub const DATA_OFF: usize = (std::mem::size_of::<Image>() + 4095) & !4095;
pub const IMAGE_SIZE: usize = DATA_OFF + NFILES * FILECAP;

pub struct Shared {
    pub fd: RawFd,
    base: *mut u8,
    dirty: [bool; NFILES],
}
unsafe impl Send for Shared {}

impl Shared {
    pub fn new() -> Shared {
        unsafe {
            let fd = libc::memfd_create(b"zksim\0".as_ptr() as *const _, 0);
            assert!(fd >= 0, "memfd_create");
            assert_eq!(libc::ftruncate(fd, IMAGE_SIZE as i64), 0, "ftruncate");
            let p = libc::mmap(std::ptr::null_mut(), IMAGE_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED, "mmap");
            Shared { fd, base: p as *mut u8, dirty: [true; NFILES] }
        }
    }
    pub fn im(&mut self) -> &mut Image {
        unsafe { &mut *(self.base as *mut Image) }
    }
    /// Everything zero except the big buffers, whose contents are bounded by their lengths.
    pub fn reset(&mut self) {
        unsafe {
            let im = self.base as *mut Image;
            let out_off = std::ptr::addr_of!((*im).out) as usize - im as usize;
            let after = std::ptr::addr_of!((*im).fs) as usize - im as usize;
            // preempts and log are large but cheap enough to clear
            std::ptr::write_bytes(self.base, 0, out_off);
            std::ptr::write_bytes(self.base.add(after), 0, std::mem::size_of::<Image>() - after);
            for e in 0..NFILES {
                if self.dirty[e] {
                    libc::madvise(self.base.add(DATA_OFF + e * FILECAP) as *mut _, FILECAP, libc::MADV_REMOVE);
                    self.dirty[e] = false;
                }
            }
        }
    }
    pub fn mark_used(&mut self) {
        for e in 0..NFILES {
            if self.im().fs.extent_used[e] != 0 {
                self.dirty[e] = true;
            }
        }
    }
    pub fn data(&mut self, extent: usize, size: usize) -> &mut [u8] {
        assert!(extent < NFILES && size <= FILECAP);
        self.dirty[extent] = true;
        unsafe { std::slice::from_raw_parts_mut(self.base.add(DATA_OFF + extent * FILECAP), size) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, IMAGE_SIZE);
            libc::close(self.fd);
        }
    }
}

pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub fn put(d: &mut [u8], s: &str) {
    let b = s.as_bytes();
    assert!(b.len() < d.len(), "path too long");
    d[..b.len()].copy_from_slice(b);
    d[b.len()] = 0;
}
