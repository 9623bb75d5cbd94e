//! The compiler instrumentation's entry points: every atomic operation is a scheduling point with
//! happens-before bookkeeping, every plain access is checked.
use crate::core_::*;
use crate::mem::*;
use crate::shm::SHM;

#[derive(Clone, Copy)]
pub struct Store {
    val: u64,
    rel: Vc,
    tid: u8,
    clk: u32,
}

const HIST: usize = 6;

/// One atomic location: its recent modification order.
pub struct Loc {
    size: u8,
    /// index of stores[0] in the modification order
    base: u32,
    stores: Vec<Store>,
    /// (thread, clock, index): `thread` at `clock` read or wrote store `index`
    seen: Vec<(u8, u32, u32)>,
}

impl Loc {
    fn last(&self) -> &Store {
        self.stores.last().unwrap()
    }
    fn latest(&self) -> u32 {
        self.base + self.stores.len() as u32 - 1
    }
    fn push(&mut self, s: Store) {
        self.stores.push(s);
        if self.stores.len() > HIST {
            self.stores.remove(0);
            self.base += 1;
            let b = self.base;
            self.seen.retain(|x| x.2 > b);
        }
    }
    fn saw(&mut self, t: usize, clk: u32, idx: u32) {
        if let Some(x) = self.seen.iter_mut().find(|x| x.0 == t as u8 && x.1 == clk) {
            x.2 = x.2.max(idx);
        } else {
            if self.seen.len() >= 400 {
                // forget details (towards seeing newer values)
                let x = self.seen[0];
                self.seen.remove(0);
                if let Some(y) = self.seen.iter_mut().find(|y| y.0 == x.0) {
                    y.1 = y.1.min(x.1);
                    y.2 = y.2.max(x.2);
                } else {
                    self.seen.push(x);
                }
            }
            self.seen.push((t as u8, clk, idx));
        }
    }
}

fn acq(mo: i32) -> bool {
    matches!(mo, 1 | 2 | 4 | 5)
}
fn rel(mo: i32) -> bool {
    matches!(mo, 3..=5)
}

/// Find the location; resynchronise if code we do not see changed it.
unsafe fn loc(addr: usize, size: u8, actual: u64) -> &'static mut Loc {
    let r = rt();
    let t = r.cur;
    let mut external = false;
    let l = r.locs.entry(addr).or_insert_with(|| Loc {
        size,
        base: 0,
        stores: vec![Store { val: actual, rel: [0; MAXT], tid: t as u8, clk: 0 }],
        seen: Vec::new(),
    });
    if l.last().val != actual || l.size != size {
        external = true;
    }
    if external {
        r.conservative_join();
        let l = r.locs.get_mut(&addr).unwrap();
        let vc = r.th[t].vc;
        l.size = size;
        l.base += l.stores.len() as u32;
        l.stores.clear();
        l.seen.clear();
        l.stores.push(Store { val: actual, rel: vc, tid: t as u8, clk: 0 });
    }
    &mut *(r.locs.get_mut(&addr).unwrap() as *mut Loc)
}

#[inline(always)]
unsafe fn rd(addr: usize, size: u8) -> u64 {
    match size {
        1 => core::ptr::read_volatile(addr as *const u8) as u64,
        2 => core::ptr::read_volatile(addr as *const u16) as u64,
        4 => core::ptr::read_volatile(addr as *const u32) as u64,
        _ => core::ptr::read_volatile(addr as *const u64),
    }
}
#[inline(always)]
unsafe fn wr(addr: usize, size: u8, v: u64) {
    match size {
        1 => core::ptr::write_volatile(addr as *mut u8, v as u8),
        2 => core::ptr::write_volatile(addr as *mut u16, v as u16),
        4 => core::ptr::write_volatile(addr as *mut u32, v as u32),
        _ => core::ptr::write_volatile(addr as *mut u64, v),
    }
}

#[inline(never)]
unsafe fn load(addr: usize, size: u8, mo: i32, pc: usize) -> u64 {
    if !ACTIVE || IN_RT {
        return rd(addr, size);
    }
    IN_RT = true;
    let r = rt();
    r.point(pc);
    access(addr, size as usize, AR);
    let mut v = rd(addr, size);
    if r.nth > 1 {
        let t = r.cur;
        let l = loc(addr, size, v);
        let latest = l.latest();
        let mut idx = latest;
        // (smaller ones belong to locks and wait queues, whose slow paths in std we do not see)
        if mo != 5 && size == 8 && l.stores.len() > 1 && (r.cfg.stale_rate > 0 || r.is_replay) {
            // oldest store this load may still observe
            let vc = &r.th[t].vc;
            let mut lb = l.base;
            for (i, s) in l.stores.iter().enumerate() {
                if s.clk == 0 || vc[s.tid as usize] >= s.clk {
                    lb = l.base + i as u32;
                }
            }
            for &(st, clk, i) in &l.seen {
                if (st as usize == t || vc[st as usize] >= clk) && i > lb {
                    lb = i;
                }
            }
            if lb < latest {
                let n = (latest - lb) as u64;
                if let Some(k) = r.fault(D_STALE, r.cfg.stale_rate, n, F_STALE) {
                    idx = latest - 1 - (k.min(n - 1)) as u32;
                }
            }
        }
        let s = l.stores[(idx - l.base) as usize];
        v = s.val;
        let th = &mut r.th[t];
        if r.cfg.stale_rate > 0 || r.is_replay {
            l.saw(t, th.vc[t], idx);
        }
        if acq(mo) {
            join(&mut th.vc, &s.rel);
        } else {
            join(&mut th.facq, &s.rel);
        }
    }
    if r.cfg.trace {
        trace(|| format!("t{} load {} mo{mo} = {v:x}", rt().cur, aname(addr)));
    }
    IN_RT = false;
    v
}

unsafe fn aname(a: usize) -> String {
    match block_of(a) {
        Some(b) => format!("{}+{}", objname(b.start), a - b.start),
        None => {
            let lo = 0x2f00_0000_0000usize;
            if a >= lo && a < lo + (1 << 40) { "stack".into() } else { format!("{a:x}") }
        }
    }
}

unsafe fn do_store(l: &mut Loc, t: usize, v: u64, mo: i32, rmw: bool) {
    let r = rt();
    let th = &mut r.th[t];
    let mut rc = if rel(mo) { th.vc } else { th.frel };
    if rmw {
        join(&mut rc, &l.last().rel);
    }
    let clk = th.vc[t];
    l.push(Store { val: v, rel: rc, tid: t as u8, clk });
    let i = l.latest();
    if r.cfg.stale_rate > 0 || r.is_replay {
        l.saw(t, clk, i);
    }
    if rel(mo) {
        th.vc[t] += 1;
    } else {
        // stores must have distinct epochs for the staleness rules
        if r.cfg.stale_rate > 0 || r.is_replay {
            th.vc[t] += 1;
        }
    }
}

#[inline(never)]
unsafe fn store(addr: usize, size: u8, v: u64, mo: i32, pc: usize) {
    if !ACTIVE || IN_RT {
        return wr(addr, size, v);
    }
    IN_RT = true;
    let r = rt();
    r.point(pc);
    access(addr, size as usize, AW);
    if r.nth > 1 {
        let old = rd(addr, size);
        let l = loc(addr, size, old);
        do_store(l, r.cur, v, mo, false);
    }
    wr(addr, size, v);
    if r.cfg.trace {
        trace(|| format!("t{} store {} mo{mo} {v:x}", rt().cur, aname(addr)));
    }
    IN_RT = false;
}

#[inline(never)]
unsafe fn rmw(addr: usize, size: u8, mo: i32, pc: usize, kind: u8, arg: u64) -> u64 {
    let f = |o: u64| match kind {
        0 => arg,
        1 => o.wrapping_add(arg),
        2 => o.wrapping_sub(arg),
        3 => o & arg,
        4 => o | arg,
        5 => o ^ arg,
        _ => !(o & arg),
    };
    let m: u64 = if size == 8 { !0 } else { (1 << (size * 8)) - 1 };
    if !ACTIVE || IN_RT {
        let o = rd(addr, size);
        wr(addr, size, f(o) & m);
        return o;
    }
    IN_RT = true;
    let r = rt();
    r.point(pc);
    access(addr, size as usize, AW);
    let o = rd(addr, size);
    let n = f(o) & m;
    if r.nth > 1 {
        let t = r.cur;
        let l = loc(addr, size, o);
        let rc = l.last().rel;
        let th = &mut r.th[t];
        if acq(mo) {
            join(&mut th.vc, &rc);
        } else {
            join(&mut th.facq, &rc);
        }
        do_store(l, t, n, mo, true);
    }
    wr(addr, size, n);
    if r.cfg.trace {
        trace(|| format!("t{} rmw{kind} {} mo{mo} {o:x} -> {n:x}", rt().cur, aname(addr)));
    }
    IN_RT = false;
    o
}

#[inline(never)]
unsafe fn cas(addr: usize, size: u8, c: u64, v: u64, mo: i32, fmo: i32, pc: usize) -> u64 {
    if !ACTIVE || IN_RT {
        let o = rd(addr, size);
        if o == c {
            wr(addr, size, v);
        }
        return o;
    }
    let _ = fmo;
    IN_RT = true;
    let r = rt();
    r.point(pc);
    let o = rd(addr, size);
    let ok = o == c;
    access(addr, size as usize, if ok { AW } else { AR });
    if r.nth > 1 {
        let t = r.cur;
        let l = loc(addr, size, o);
        let rc = l.last().rel;
        let th = &mut r.th[t];
        // a failed attempt may continue in std's (unseen) slow path, which acquires the lock there
        if !ok || acq(mo) {
            join(&mut th.vc, &rc);
        } else {
            join(&mut th.facq, &rc);
        }
        if ok {
            do_store(l, t, v, mo, true);
        }
    }
    if ok {
        wr(addr, size, v);
    }
    if r.cfg.trace {
        trace(|| format!("t{} cas {} mo{mo} {o:x} want {c:x} -> {v:x} {ok}", rt().cur, aname(addr)));
    }
    IN_RT = false;
    o
}

macro_rules! pc {
    () => {{
        let p: usize;
        core::arch::asm!("mov {}, [rbp + 8]", out(reg) p, options(nostack, readonly, preserves_flags));
        p
    }};
}

macro_rules! atomics {
    ($t:ty, $n:expr, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $casv:ident, $cass:ident, $casw:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(a: usize, mo: i32) -> $t { load(a, $n, mo, pc!()) as $t }
        #[no_mangle] pub unsafe extern "C" fn $store(a: usize, v: $t, mo: i32) { store(a, $n, v as u64, mo, pc!()) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(a: usize, v: $t, mo: i32) -> $t { rmw(a, $n, mo, pc!(), 0, v as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $add(a: usize, v: $t, mo: i32) -> $t { rmw(a, $n, mo, pc!(), 1, v as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $sub(a: usize, v: $t, mo: i32) -> $t { rmw(a, $n, mo, pc!(), 2, v as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $and(a: usize, v: $t, mo: i32) -> $t { rmw(a, $n, mo, pc!(), 3, v as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $or(a: usize, v: $t, mo: i32) -> $t { rmw(a, $n, mo, pc!(), 4, v as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $xor(a: usize, v: $t, mo: i32) -> $t { rmw(a, $n, mo, pc!(), 5, v as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $nand(a: usize, v: $t, mo: i32) -> $t { rmw(a, $n, mo, pc!(), 6, v as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $casv(a: usize, c: $t, v: $t, mo: i32, fmo: i32) -> $t { cas(a, $n, c as u64, v as u64, mo, fmo, pc!()) as $t }
        #[no_mangle] pub unsafe extern "C" fn $cass(a: usize, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 { let e = *c; let o = cas(a, $n, e as u64, v as u64, mo, fmo, pc!()) as $t; *c = o; (o == e) as i32 }
        #[no_mangle] pub unsafe extern "C" fn $casw(a: usize, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 { let e = *c; let o = cas(a, $n, e as u64, v as u64, mo, fmo, pc!()) as $t; *c = o; (o == e) as i32 }
    };
}
atomics!(u8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    if !ACTIVE || IN_RT {
        return;
    }
    IN_RT = true;
    let r = rt();
    r.point(pc!());
    let t = r.cur;
    let sc = r.sc;
    let th = &mut r.th[t];
    if acq(mo) {
        let f = th.facq;
        join(&mut th.vc, &f);
    }
    if mo == 5 {
        join(&mut th.vc, &sc);
        let v = th.vc;
        join(&mut r.sc, &v);
        r.th[t].vc[t] += 1;
    }
    let th = &mut r.th[t];
    if rel(mo) {
        th.frel = th.vc;
        th.vc[t] += 1;
    }
    IN_RT = false;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}

macro_rules! plain {
    ($($n:expr, $r:ident, $w:ident, $ur:ident, $uw:ident, $rw:ident, $urw:ident;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $r(a: usize) { access(a, $n, R) }
        #[no_mangle] pub unsafe extern "C" fn $w(a: usize) { access(a, $n, W) }
        #[no_mangle] pub unsafe extern "C" fn $ur(a: usize) { access(a, $n, R) }
        #[no_mangle] pub unsafe extern "C" fn $uw(a: usize) { access(a, $n, W) }
        #[no_mangle] pub unsafe extern "C" fn $rw(a: usize) { access(a, $n, W) }
        #[no_mangle] pub unsafe extern "C" fn $urw(a: usize) { access(a, $n, W) }
    )*};
}
plain! {
    1, __tsan_read1, __tsan_write1, __tsan_unaligned_read1, __tsan_unaligned_write1, __tsan_read_write1, __tsan_unaligned_read_write1;
    2, __tsan_read2, __tsan_write2, __tsan_unaligned_read2, __tsan_unaligned_write2, __tsan_read_write2, __tsan_unaligned_read_write2;
    4, __tsan_read4, __tsan_write4, __tsan_unaligned_read4, __tsan_unaligned_write4, __tsan_read_write4, __tsan_unaligned_read_write4;
    8, __tsan_read8, __tsan_write8, __tsan_unaligned_read8, __tsan_unaligned_write8, __tsan_read_write8, __tsan_unaligned_read_write8;
    16, __tsan_read16, __tsan_write16, __tsan_unaligned_read16, __tsan_unaligned_write16, __tsan_read_write16, __tsan_unaligned_read_write16;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, n: usize) { access(a, n, R) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, n: usize) { access(a, n, W) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(a: usize, _: usize) { access(a, 8, W) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(a: usize) { access(a, 8, R) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize, n, R);
    access(d as usize, n, W);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __tsan_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    access(d as usize, n, W);
    core::ptr::write_bytes(d, v as u8, n);
    d
}

// ---------------------------------------------------------------------------------------------
// interposed libc entry points

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if ACTIVE && !IN_RT {
        if n == 202 {
            IN_RT = true;
            let v = rt().futex(a, b as i32, c as u32, d as *const libc::timespec, f as u32);
            trace(|| format!("t{} futex {} {} = {v}", rt().cur, aname(a), b & 127));
            IN_RT = false;
            return ret(v);
        }
        if n == 318 {
            return getrandom(a as *mut u8, b, c as u32) as i64;
        }
    }
    ret(crate::sys::sc6(n as usize, a, b, c, d, e, f) as i64)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let mut seed = 0x1234_5678;
    if ACTIVE {
        let r = rt();
        let th = &mut r.th[r.cur];
        th.hash_ctr += 1;
        seed = crate::sys::mix(r.cfg.hash_seed, (r.cur as u64) << 32 | th.hash_ctr);
        (*SHM).faults[F_HASH] += 1;
    }
    let mut g = crate::sys::Rng::new(seed);
    for i in 0..n {
        *p.add(i) = g.next() as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if ACTIVE && !IN_RT {
        IN_RT = true;
        let r = rt();
        r.clock += 50;
        if let Some(v) = r.fault(D_CLOCK, r.cfg.clock_rate, 4, F_CLOCK) {
            r.clock += [100_000, 5_000_000, 1_000_000_000, 3_600_000_000_000][v as usize & 3];
        }
        (*ts).tv_sec = (r.clock / 1_000_000_000) as i64;
        (*ts).tv_nsec = (r.clock % 1_000_000_000) as i64;
        IN_RT = false;
        return 0;
    }
    ret(crate::sys::sc6(228, id as usize, ts as usize, 0, 0, 0, 0) as i64) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ACTIVE && !IN_RT {
        crate::core_::yield_now();
        return 0;
    }
    crate::sys::sc6(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if ACTIVE && !IN_RT {
        rt().clock += (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        crate::core_::yield_now();
        return 0;
    }
    ret(crate::sys::sc6(35, a as usize, b as usize, 0, 0, 0, 0) as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if ACTIVE && !IN_RT {
        let d = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        if fl == 1 { rt().clock = rt().clock.max(d) } else { rt().clock += d }
        crate::core_::yield_now();
        return 0;
    }
    -(crate::sys::sc6(230, id as usize, fl as usize, a as usize, b as usize, 0, 0) as i32)
}
