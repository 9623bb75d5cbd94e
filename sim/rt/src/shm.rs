//! The result area shared between the forking parent and the simulated child.
use crate::sys::*;

pub const MAXDEC: usize = 200_000;
pub const NFAULT: usize = 32;
pub const NPROBE: usize = 64;

/// One recorded scheduling or fault decision.
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dec {
    pub tid: u8,
    pub kind: u8,
    pub op: u16,
    pub hook: u32,
    pub val: u64,
}

#[repr(C)]
pub struct Shm {
    /// 0 running, 1 finished without violation, 2 violation
    pub status: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub panic_len: u32,
    pub class: [u8; 64],
    pub msg: [u8; 8192],
    pub panic: [u8; 1024],
    pub steps: u64,
    pub switches: u64,
    pub ihash: u64,
    pub state_hash: u64,
    pub simtime: u64,
    pub ops_done: u64,
    pub faults: [u64; NFAULT],
    pub probes: [u64; NPROBE],
    pub ndec: u32,
    pub nbt: u32,
    pub bt: [u64; 64],
    pub cur_tid: u32,
    pub cur_op: u32,
    pub ntrace: u32,
    pub decs: [Dec; MAXDEC],
    pub trace: [u8; 1 << 20],
}

pub static mut SHM: *mut Shm = core::ptr::null_mut();

pub unsafe fn init() {
    let len = core::mem::size_of::<Shm>();
    let p = sc6(9, 0, len, 3, 0x21, usize::MAX, 0); // MAP_SHARED|MAP_ANONYMOUS
    assert!(p > 0);
    SHM = p as *mut Shm;
}
pub unsafe fn clear() {
    let n = (*SHM).ndec as usize;
    let head = core::mem::offset_of!(Shm, decs);
    core::ptr::write_bytes(SHM as *mut u8, 0, head);
    core::ptr::write_bytes((*SHM).decs.as_mut_ptr(), 0, n.min(MAXDEC));
}
pub unsafe fn set_bytes(dst: &mut [u8], len: &mut u32, s: &str) {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u32;
}
pub unsafe fn class() -> String {
    String::from_utf8_lossy(&(*SHM).class[..(*SHM).class_len as usize]).into_owned()
}
pub unsafe fn msg() -> String {
    String::from_utf8_lossy(&(*SHM).msg[..(*SHM).msg_len as usize]).into_owned()
}
pub unsafe fn panic_msg() -> String {
    String::from_utf8_lossy(&(*SHM).panic[..(*SHM).panic_len as usize]).into_owned()
}
pub unsafe fn trace() -> String {
    String::from_utf8_lossy(&(*SHM).trace[..(*SHM).ntrace as usize]).into_owned()
}
pub unsafe fn decs() -> Vec<Dec> {
    (&(*SHM).decs)[..((*SHM).ndec as usize).min(MAXDEC)].to_vec()
}
