//! Raw system calls (never through libc's `syscall`, which we interpose) and a small PRNG.
use core::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
pub unsafe fn futex_wait(w: *const u32, val: u32) {
    sc6(202, w as usize, 128, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(w: *const u32) {
    sc6(202, w as usize, 129, 1, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    sc6(231, code as usize, 0, 0, 0, 0, 0);
    loop {}
}

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// log-uniform in [1, max]
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let v = self.below(1u64 << b.min(62)) + 1;
        v.min(max)
    }
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h ^ v.wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93);
    z ^ (z >> 29)
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl core::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = mix(self.0, *x as u64); } }
    fn write_u64(&mut self, v: u64) { self.0 = mix(self.0, v); }
    fn write_usize(&mut self, v: usize) { self.0 = mix(self.0, v as u64); }
    fn write_u32(&mut self, v: u32) { self.0 = mix(self.0, v as u64); }
}
pub type FxMap<K, V> = std::collections::HashMap<K, V, core::hash::BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, core::hash::BuildHasherDefault<Fx>>;
