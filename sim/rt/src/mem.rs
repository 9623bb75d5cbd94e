//! Simulated heap: fixed-address bump arena without reuse, per-granule shadow, happens-before
//! race detection.
use crate::core_::*;
use crate::sys::*;
use std::alloc::{GlobalAlloc, Layout};

pub const ARENA: usize = 0x2000_0000_0000;
pub const ARENA_SZ: usize = 1 << 31;
const SHADOW: usize = 0x3000_0000_0000; // 4 slots of 8 bytes per 8 bytes of arena
const INDEX: usize = 0x2800_0000_0000; // u32 per 16 bytes of arena
const SSHADOW: usize = 0x2c00_0000_0000; // shadow of the static data

pub static mut BUMP: usize = 0;
pub static mut IN_RT: bool = false;
pub static mut ACTIVE: bool = false;
pub static mut NOTRACK: bool = false;
static mut STATIC_LO: usize = 0;
static mut STATIC_SZ: usize = 0;

pub const LIVE: u8 = 1;
pub const FREED: u8 = 2;

#[derive(Clone, Copy)]
pub struct Block {
    pub start: usize,
    pub size: usize,
    pub align: usize,
    pub state: u8,
    pub notrack: bool,
    pub atid: u8,
    pub aop: u16,
    pub ftid: u8,
    pub fop: u16,
}

unsafe fn map_at(addr: usize, len: usize) {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let p = sc6(9, addr, len, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0);
    if p != addr as isize {
        eprintln!("rt: cannot map {len:#x} bytes at {addr:#x}: {p}");
        exit_group(70);
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub unsafe fn init() {
    map_at(ARENA, ARENA_SZ);
    map_at(SHADOW, ARENA_SZ * 4);
    map_at(INDEX, ARENA_SZ / 4);
    STATIC_LO = (&raw const __data_start as usize) & !7;
    STATIC_SZ = (&raw const _end as usize) - STATIC_LO;
    map_at(SSHADOW, STATIC_SZ * 4 + 4096);
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE || IN_RT {
            return host_alloc(l);
        }
        sim_alloc(l)
    }
    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a.wrapping_sub(ARENA) < ARENA_SZ {
            if ACTIVE {
                sim_free(a, l);
            }
        } else {
            libc::free(p as *mut _);
        }
    }
    #[inline(never)]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}

unsafe fn host_alloc(l: Layout) -> *mut u8 {
    if l.align() <= 16 {
        libc::malloc(l.size()) as *mut u8
    } else {
        libc::aligned_alloc(l.align(), (l.size() + l.align() - 1) & !(l.align() - 1)) as *mut u8
    }
}

unsafe fn sim_alloc(l: Layout) -> *mut u8 {
    IN_RT = true;
    let r = rt();
    let al = l.align().max(16);
    let start = (BUMP + al - 1) & !(al - 1);
    let end = (start + l.size() + 15) & !15;
    if end + 16 > ARENA + ARENA_SZ {
        violation("arena-exhausted", "simulated heap exhausted (unbounded allocation)");
    }
    BUMP = end + 16;
    let id = r.blocks.len() as u32;
    let th = &r.th[r.cur];
    r.blocks.push(Block { start, size: l.size(), align: l.align(), state: LIVE, notrack: NOTRACK, atid: r.cur as u8, aop: th.op, ftid: 0, fop: 0 });
    let mut g = (start - ARENA) >> 4;
    let ge = (end - ARENA) >> 4;
    let idx = INDEX as *mut u32;
    while g < ge {
        *idx.add(g) = id;
        g += 1;
    }
    r.alloc_bytes += l.size() as u64;
    r.n_alloc += 1;
    // fresh memory is filled with a recognisable non-zero pattern
    core::ptr::write_bytes(start as *mut u8, 0xA5, l.size());
    IN_RT = false;
    start as *mut u8
}

pub unsafe fn block_of(a: usize) -> Option<&'static mut Block> {
    if a.wrapping_sub(ARENA) >= ARENA_SZ || a >= BUMP {
        return None;
    }
    let b = *(INDEX as *const u32).add((a - ARENA) >> 4);
    if b == 0 { None } else { Some(&mut rt().blocks[b as usize]) }
}

unsafe fn sim_free(a: usize, l: Layout) {
    let was = IN_RT;
    IN_RT = true;
    let r = rt();
    let cur = r.cur;
    let op = r.th[cur].op;
    match block_of(a) {
        None => violation("bad-free", &format!("free of {a:#x} (layout {l:?}) which is no allocation")),
        Some(b) => {
            if b.start != a {
                violation("bad-free", &format!("free of {a:#x}, inside block {:#x}+{}", b.start, b.size));
            }
            if b.state == FREED {
                violation("double-free", &format!("block {} of {} bytes freed twice (first by thread {} op {})", objname(a), b.size, b.ftid, b.fop));
            }
            if b.size != l.size() || b.align != l.align() {
                violation("layout-mismatch", &format!("block {} allocated with size {} align {} freed with size {} align {}", objname(a), b.size, b.align, l.size(), l.align()));
            }
            if !b.notrack && r.nth > 1 {
                free_race_check(a, l.size());
            }
            b.state = FREED;
            b.ftid = cur as u8;
            b.fop = op;
            r.freed_bytes += l.size() as u64;
            r.n_free += 1;
            core::ptr::write_bytes(a as *mut u8, 0xDD, l.size().min(4096));
        }
    }
    IN_RT = was;
}

pub unsafe fn objname(a: usize) -> String {
    match crate::model::object_at(a) {
        Some(id) => format!("object {id}"),
        None => format!("{:#x}", a),
    }
}

// access kinds
pub const R: u8 = 0;
pub const W: u8 = 1;
pub const AR: u8 = 2;
pub const AW: u8 = 3;
const KN: [&str; 4] = ["read", "write", "atomic read", "atomic write"];

#[inline]
fn conflict(a: u8, b: u8) -> bool {
    // a plain write conflicts with everything, a plain read with any write
    a == W || b == W || (a == R && b == AW) || (a == AW && b == R)
}

// slot: clk:32 | mask:8 @32 | tid:8 @40 | kind:4 @48 | used:1 @63
#[inline]
unsafe fn granule(sh: *mut u64, mask: u8, kind: u8, addr: usize) {
    let r = rt();
    let t = r.cur;
    let vc = &r.th[t].vc;
    let mine = (vc[t] as u64) | (mask as u64) << 32 | (t as u64) << 40 | (kind as u64) << 48 | 1 << 63;
    let mut put: isize = -1;
    let mut i = 0;
    while i < 4 {
        let s = *sh.add(i);
        if s == mine {
            return;
        }
        if s == 0 {
            if put < 0 {
                put = i as isize;
            }
        } else {
            let stid = (s >> 40) as u8 as usize;
            let smask = (s >> 32) as u8;
            let skind = (s >> 48) as u8 & 0xf;
            if stid == t {
                if skind == kind && smask & !mask == 0 {
                    put = i as isize;
                }
            } else if smask & mask != 0 {
                let ordered = vc[stid] as u64 >= s & 0xffff_ffff;
                if !ordered && conflict(kind, skind) {
                    violation("data-race", &format!("unsynchronised {} of {} (+{}) by thread {} against {} by thread {}", KN[kind as usize], objname(addr), block_of(addr).map_or(0, |b| addr - b.start), t, KN[skind as usize], stid));
                }
                if ordered && put < 0 && (kind == W || skind == kind) && smask & !mask == 0 {
                    put = i as isize;
                }
            }
        }
        i += 1;
    }
    if put < 0 {
        r.evict = r.evict.wrapping_add(1);
        put = (r.evict & 3) as isize;
    }
    *sh.add(put as usize) = mine;
}

#[inline]
unsafe fn race_range(base: usize, addr: usize, size: usize, kind: u8) {
    // base: shadow address corresponding to granule of addr
    let mut a = addr;
    let end = addr + size;
    let mut sh = base as *mut u64;
    while a < end {
        let g = a & !7;
        let lo = a - g;
        let hi = (end - g).min(8);
        let mask = (((1u16 << hi) - 1) & !((1u16 << lo) - 1)) as u8;
        granule(sh, mask, kind, a);
        a = g + 8;
        sh = sh.add(4);
    }
}

unsafe fn free_race_check(a: usize, size: usize) {
    let r = rt();
    let t = r.cur;
    let vc = r.th[t].vc;
    let mut sh = (SHADOW + ((a - ARENA) & !7) * 4) as *const u64;
    let n = size.div_ceil(8) * 4;
    for k in 0..n {
        let s = *sh;
        if s != 0 {
            let stid = (s >> 40) as u8 as usize;
            if stid != t && (vc[stid] as u64) < s & 0xffff_ffff {
                let skind = (s >> 48) as u8 & 0xf;
                violation("data-race", &format!("free of {} by thread {} is not ordered after {} (+{}) by thread {}", objname(a), t, KN[skind as usize], k / 4 * 8, stid));
            }
        }
        sh = sh.add(1);
    }
}

#[inline(always)]
pub unsafe fn access(addr: usize, size: usize, kind: u8) {
    if addr.wrapping_sub(ARENA) < ARENA_SZ {
        access_arena(addr, size, kind)
    } else if addr.wrapping_sub(STATIC_LO) < STATIC_SZ && ACTIVE && rt().nth > 1 {
        let was = IN_RT;
        IN_RT = true;
        race_range(SSHADOW + ((addr & !7) - STATIC_LO) * 4, addr, size, kind);
        IN_RT = was;
    }
}

#[inline(never)]
unsafe fn access_arena(addr: usize, size: usize, kind: u8) {
    if !ACTIVE || size == 0 {
        return;
    }
    let was = IN_RT;
    IN_RT = true;
    let r = rt();
    r.n_access += 1;
    if r.n_access > r.access_cap {
        violation("livelock", "plain memory access budget exhausted: endless loop");
    }
    match block_of(addr) {
        None => violation("wild-access", &format!("{} of {} bytes at {:#x}, outside any allocation", KN[kind as usize], size, addr)),
        Some(b) => {
            if b.state == FREED {
                violation("use-after-free", &format!("{} of {} (+{}) freed by thread {} op {}", KN[kind as usize], objname(b.start), addr - b.start, b.ftid, b.fop));
            }
            if addr < b.start || addr + size > b.start + b.size {
                violation("out-of-bounds", &format!("{} of {} bytes at offset {} of {} ({} bytes)", KN[kind as usize], size, addr as isize - b.start as isize, objname(b.start), b.size));
            }
            if !b.notrack && r.nth > 1 {
                race_range(SHADOW + ((addr & !7) - ARENA) * 4, addr, size, kind);
            }
        }
    }
    IN_RT = was;
}
