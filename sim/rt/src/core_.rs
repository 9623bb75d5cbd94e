//! Scheduler, virtual threads, decisions, violations.
use crate::mem::*;
use crate::shm::*;
use crate::sys::*;
use core::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXT: usize = 12;
pub type Vc = [u32; MAXT];

// decision kinds
pub const D_SWITCH: u8 = 0; // preemption or voluntary yield: next thread
pub const D_BLOCK: u8 = 1; // current thread blocked or ended: next thread
pub const D_CAS: u8 = 2; // spurious weak compare-exchange failure
pub const D_SPUR: u8 = 3; // spurious futex wake-up
pub const D_STALE: u8 = 4; // relaxed/acquire load returns an older store
pub const D_CLOCK: u8 = 5; // simulated clock jump
pub const D_WAKE: u8 = 6; // which futex waiter is woken
pub const D_USER: u8 = 8; // first of the harness-defined fault kinds

// fault counters (indices into Shm::faults)
pub const F_PREEMPT: usize = 0;
pub const F_STALL: usize = 1;
pub const F_CAS: usize = 2;
pub const F_SPUR: usize = 3;
pub const F_STALE: usize = 4;
pub const F_CLOCK: usize = 5;
pub const F_WAKE: usize = 6;
pub const F_HASH: usize = 7;
pub const F_USER: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unborn,
    Ready,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Join(usize),
    Done,
}

pub struct Th {
    pub word: AtomicU32,
    pub state: St,
    pub op: u16,
    pub hook: u32,
    /// in a stretch of uniform work: not interrupted
    pub mute: bool,
    pub vc: Vc,
    pub frel: Vc,
    pub facq: Vc,
    pub prio: u64,
    pub stall: u64,
    pub wake_res: i32,
    pub f: Option<fn(usize)>,
    pub arg: usize,
    pub rounds: u32,
    pub hash_ctr: u64,
    /// collections this thread is in, and steps until it is stopped inside (policy 4)
    pub coll: u32,
    pub coll_left: u64,
    /// steps until it is stopped while a drop examines a value (policy 4)
    pub exam_left: u64,
    /// policy 5: places between the fields of traced values before the next stop
    pub gap_left: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub seed: u64,
    pub hash_seed: u64,
    /// 0 random walk, 1 PCT, 2 bursts with stalls, 3 hot call sites, 4 stops inside collections,
    /// 5 few stops, each lasting until another thread stops, blocks or ends, 9 replay
    pub policy: u8,
    /// mean distance between preemptions (policies 0, 2, 3, 4)
    pub period: u64,
    pub depth: u32,
    pub est_steps: u64,
    pub step_cap: u64,
    pub access_cap: u64,
    pub cas_rate: u32,
    pub spur_rate: u32,
    pub stale_rate: u32,
    pub clock_rate: u32,
    /// rates (per mille) of the harness-defined fault kinds
    pub user_rate: [u32; 8],
    pub trace: bool,
    pub replay: Vec<Dec>,
}

pub struct Rt {
    pub cfg: Cfg,
    pub cur: usize,
    pub nth: usize,
    pub th: Vec<Th>,
    pub steps: u64,
    pub countdown: u64,
    pub rng: Rng,
    pub frng: Rng,
    pub pct: Vec<u64>,
    pub low_prio: u64,
    pub blocks: Vec<Block>,
    pub alloc_bytes: u64,
    pub freed_bytes: u64,
    pub n_alloc: u64,
    pub n_free: u64,
    pub n_access: u64,
    pub access_cap: u64,
    pub evict: u32,
    pub clock: u64,
    pub replay: FxMap<u64, u64>,
    pub is_replay: bool,
    pub fair: bool,
    pub locs: FxMap<usize, crate::atomics::Loc>,
    pub sc: Vc,
    pub hot: u64,
    pub fwaiters: Vec<usize>,
    pub model: crate::model::Model,
    pub orc: crate::oracle::Orc,
}

static mut RT: *mut Rt = core::ptr::null_mut();
#[inline(always)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}

fn dkey(tid: usize, op: u16, hook: u32, kind: u8) -> u64 {
    (tid as u64) << 56 | (kind as u64) << 48 | (op as u64) << 32 | hook as u64
}

const STACK: usize = 0x2f00_0000_0000;
const STACK_SZ: usize = 2 << 20;
const STACK_SPAN: usize = 4 << 20;
static mut KEY: libc::pthread_key_t = 0;

/// Once per process, before any simulation.
pub fn init() {
    unsafe {
        crate::shm::init();
        crate::mem::init();
        for t in 0..MAXT {
            // the hole below each stack catches overflows
            let a = STACK + t * STACK_SPAN;
            let p = sc6(9, a, STACK_SZ, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0);
            assert!(p == a as isize);
        }
        libc::pthread_key_create(&raw mut KEY, Some(key_dtor));
    }
}

/// Prepare the run in the (forked) child.
pub fn prepare(cfg: Cfg) {
    unsafe {
        let mut rng = Rng::new(cfg.seed);
        let frng = Rng::new(cfg.seed ^ 0x55aa);
        let mut replay = FxMap::default();
        for d in &cfg.replay {
            replay.insert(dkey(d.tid as usize, d.op, d.hook, d.kind), d.val);
        }
        let mut pct = Vec::new();
        if cfg.policy == 1 {
            for _ in 0..cfg.depth {
                pct.push(1 + rng.below(cfg.est_steps.max(1)));
            }
            pct.sort();
            pct.reverse();
        }
        let hot = rng.next();
        let is_replay = cfg.policy == 9;
        let access_cap = cfg.access_cap;
        let mut r = Box::new(Rt {
            cfg, cur: 0, nth: 0, th: Vec::with_capacity(MAXT), steps: 0, countdown: 0, rng, frng, pct,
            low_prio: 1 << 20, blocks: Vec::with_capacity(4096), alloc_bytes: 0, freed_bytes: 0, n_alloc: 0, n_free: 0,
            n_access: 0, access_cap, evict: 0, clock: 1_000_000_000, replay, is_replay, fair: false,
            locs: FxMap::default(), sc: [0; MAXT], hot, fwaiters: Vec::new(), model: Default::default(), orc: Default::default(),
        });
        r.blocks.push(Block { start: 0, size: 0, align: 0, state: 0, notrack: false, atid: 0, aop: 0, ftid: 0, fop: 0 });
        r.new_countdown();
        BUMP = ARENA + 64;
        RT = Box::into_raw(r);
    }
}

/// Start thread 0 with `f` and never return: the simulation ends the process.
pub fn run(f: fn(usize)) -> ! {
    unsafe {
        rt().make_thread(f, 0);
        ACTIVE = true;
        IN_RT = true;
        handoff(0);
        loop {
            libc::pause();
        }
    }
}

unsafe fn handoff(n: usize) {
    let w = &rt().th[n].word;
    w.store(1, SeqCst);
    futex_wake(w.as_ptr());
}
unsafe fn await_baton(t: usize) {
    let w = &rt().th[t].word as *const AtomicU32;
    while (*w).load(SeqCst) == 0 {
        futex_wait((*w).as_ptr(), 0);
    }
    (*w).store(0, SeqCst);
}

extern "C" fn thread_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let t = arg as usize;
        await_baton(t);
        libc::pthread_setspecific(KEY, (t + 1) as *mut _);
        let f = rt().th[t].f.unwrap();
        let a = rt().th[t].arg;
        IN_RT = false;
        // let std allocate its per-thread handle now, outside race tracking: its reference count
        // is handled by code we do not see
        NOTRACK = true;
        let _ = std::thread::current().id();
        NOTRACK = false;
        f(a);
        core::ptr::null_mut()
    }
}

unsafe extern "C" fn key_dtor(v: *mut libc::c_void) {
    let t = v as usize - 1;
    let r = rt();
    r.th[t].rounds += 1;
    if r.th[t].rounds < 3 {
        libc::pthread_setspecific(KEY, v);
        return;
    }
    // all of this thread's destructors have run
    IN_RT = true;
    r.th[t].hook += 1;
    r.th[t].state = St::Done;
    let vc = r.th[t].vc;
    for i in 0..r.nth {
        if r.th[i].state == St::Join(t) {
            r.th[i].state = St::Ready;
            join(&mut r.th[i].vc, &vc);
        }
    }
    trace(|| format!("t{t} exit"));
    let n = r.choose_blocked();
    r.note_switch(n);
    handoff(n);
}

pub fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

/// Generic functions are instantiated in instrumented crates: they must not touch the flag themselves.
#[inline(never)]
pub fn rt_flag(v: bool) -> bool {
    unsafe { core::mem::replace(&mut *(&raw mut IN_RT), v) }
}
#[inline(never)]
pub fn tracing() -> bool {
    rt().cfg.trace
}
#[inline(never)]
fn trace_str(s: String) {
    unsafe {
            let sh = &mut *SHM;
            let n = sh.ntrace as usize;
            let b = s.as_bytes();
            if n + b.len() + 1 < sh.trace.len() {
                sh.trace[n..n + b.len()].copy_from_slice(b);
                sh.trace[n + b.len()] = b'\n';
                sh.ntrace = (n + b.len() + 1) as u32;
            }
    }
}
pub fn trace(f: impl FnOnce() -> String) {
    if tracing() {
        let was = rt_flag(true);
        trace_str(f());
        rt_flag(was);
    }
}

impl Rt {
    unsafe fn make_thread(&mut self, f: fn(usize), arg: usize) -> usize {
        let t = self.nth;
        assert!(t < MAXT, "too many simulated threads");
        self.nth += 1;
        let mut vc = if t == 0 { [0; MAXT] } else { self.th[self.cur].vc };
        vc[t] = 1;
        let prio = (1 << 32) + self.rng.below(1 << 30);
        self.th.push(Th {
            word: AtomicU32::new(0), state: St::Ready, op: 0, hook: 0, mute: false, vc, frel: [0; MAXT], facq: [0; MAXT],
            prio, stall: 0, wake_res: 0, f: Some(f), arg, rounds: 0, hash_ctr: 0, coll: 0, coll_left: 0, exam_left: u64::MAX, gap_left: u64::MAX,
        });
        if t != 0 {
            let c = self.cur;
            self.th[c].vc[c] += 1;
        }
        let mut attr: libc::pthread_attr_t = core::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstack(&mut attr, (STACK + t * STACK_SPAN) as *mut _, STACK_SZ);
        let mut id: libc::pthread_t = 0;
        let rc = libc::pthread_create(&mut id, &attr, thread_main, t as *mut _);
        if rc != 0 {
            eprintln!("rt: pthread_create failed: {rc}");
            exit_group(71);
        }
        libc::pthread_detach(id);
        t
    }

    fn new_countdown(&mut self) {
        let p = self.cfg.period.max(1);
        // geometric-ish: exponential with mean p
        let u = (self.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
        self.countdown = (-(1.0 - u).ln() * p as f64) as u64;
    }

    fn ready(&self, n: usize) -> bool {
        n < self.nth && self.th[n].state == St::Ready
    }

    fn others(&self, respect_stall: bool) -> ([usize; MAXT], usize) {
        let mut v = [0; MAXT];
        let mut k = 0;
        for i in 0..self.nth {
            if i != self.cur && self.th[i].state == St::Ready && (!respect_stall || self.th[i].stall <= self.steps) {
                v[k] = i;
                k += 1;
            }
        }
        (v, k)
    }

    fn record(&mut self, kind: u8, val: u64) {
        unsafe {
            let sh = &mut *SHM;
            let n = sh.ndec as usize;
            if n < MAXDEC {
                let th = &self.th[self.cur];
                sh.decs[n] = Dec { tid: self.cur as u8, kind, op: th.op, hook: th.hook, val };
            }
            sh.ndec += 1;
        }
    }
    fn lookup(&self, kind: u8) -> Option<u64> {
        let th = &self.th[self.cur];
        self.replay.get(&dkey(self.cur, th.op, th.hook, kind)).copied()
    }

    fn note_switch(&mut self, n: usize) {
        unsafe {
            let sh = &mut *SHM;
            let th = &self.th[self.cur];
            sh.ihash = mix(sh.ihash, dkey(self.cur, th.op, th.hook, n as u8));
            sh.switches += 1;
            sh.steps = self.steps;
            self.cur = n;
            sh.cur_tid = n as u32;
            sh.cur_op = self.th[n].op as u32;
        }
    }

    unsafe fn switch_to(&mut self, n: usize) {
        let t = self.cur;
        if n == t {
            return;
        }
        trace(|| format!("t{t} op{} h{} -> t{n}", self.th[t].op, self.th[t].hook));
        self.note_switch(n);
        handoff(n);
        await_baton(t);
        IN_RT = true;
    }

    /// A fault decision for the current hook; `rate` per mille, `n` the number of values.
    pub fn fault(&mut self, kind: u8, rate: u32, n: u64, counter: usize) -> Option<u64> {
        if self.is_replay {
            let v = self.lookup(kind)?;
            unsafe { (*SHM).faults[counter] += 1 };
            return Some(v);
        }
        if rate == 0 || self.th[self.cur].mute || self.frng.below(1000) >= rate as u64 {
            return None;
        }
        let v = self.frng.below(n);
        self.record(kind, v);
        unsafe { (*SHM).faults[counter] += 1 };
        Some(v)
    }

    /// Scheduling point of the current thread; `pc` identifies the call site.
    pub unsafe fn point(&mut self, pc: usize) {
        if self.th[self.cur].mute {
            return;
        }
        self.steps += 1;
        let t = self.cur;
        self.th[t].hook += 1;
        if self.steps > self.cfg.step_cap {
            self.fair_point();
            return;
        }
        if self.is_replay {
            if let Some(n) = self.lookup(D_SWITCH) {
                if self.ready(n as usize) {
                    (*SHM).faults[F_PREEMPT] += 1;
                    self.switch_to(n as usize);
                }
            }
            return;
        }
        match self.cfg.policy {
            1 => {
                let mut changed = false;
                while let Some(&s) = self.pct.last() {
                    if s > self.steps {
                        break;
                    }
                    self.pct.pop();
                    self.low_prio -= 1;
                    self.th[t].prio = self.low_prio;
                    changed = true;
                }
                if changed || self.steps & 15 == 0 {
                    let n = self.top_prio(true);
                    if n != t {
                        self.preempt(n);
                    }
                }
            }
            4 if self.th[t].coll > 0 => {
                if self.th[t].coll_left > 0 {
                    self.th[t].coll_left -= 1;
                    return;
                }
                self.th[t].coll_left = {
                    let m = if self.rng.below(2) == 0 { 40 } else { 1000 };
                    self.rng.logu(m)
                };
                self.stop(2000);
            }
            4 if self.th[t].exam_left != u64::MAX => {
                if self.th[t].exam_left > 0 {
                    self.th[t].exam_left -= 1;
                    return;
                }
                self.th[t].exam_left = u64::MAX;
                self.stop(2000);
            }
            5 => {
                let left = if self.th[t].coll > 0 { &mut self.th[t].coll_left } else { &mut self.th[t].exam_left };
                if *left > 0 {
                    if *left != u64::MAX {
                        *left -= 1;
                    }
                    return;
                }
                *left = if self.rng.below(2) == 0 { u64::MAX } else { self.rng.logu(60) };
                let (v, k) = self.others(true);
                if k > 0 {
                    let n = v[self.rng.below(k as u64) as usize];
                    self.preempt(n);
                }
            }
            3 => {
                if mix(self.hot, pc as u64) & 15 == 0 && self.rng.below(3) == 0 {
                    let (v, k) = self.others(true);
                    if k > 0 {
                        let n = v[self.rng.below(k as u64) as usize];
                        if self.rng.below(2) == 0 {
                            self.th[t].stall = self.steps + self.rng.logu(1000);
                            (*SHM).faults[F_STALL] += 1;
                        }
                        self.preempt(n);
                    }
                } else {
                    self.rw_point();
                }
            }
            _ => self.rw_point(),
        }
    }

    /// Let the others run for a while.
    unsafe fn stop(&mut self, max: u64) {
        let (v, k) = self.others(true);
        if k > 0 {
            let n = v[self.rng.below(k as u64) as usize];
            let t = self.cur;
            self.th[t].stall = self.steps + self.rng.logu(max);
            (*SHM).faults[F_STALL] += 1;
            self.preempt(n);
        }
    }

    #[inline]
    unsafe fn rw_point(&mut self) {
        if self.countdown > 0 {
            self.countdown -= 1;
            return;
        }
        self.new_countdown();
        let (v, k) = self.others(true);
        if k == 0 {
            return;
        }
        let n = v[self.rng.below(k as u64) as usize];
        if self.cfg.policy == 2 || self.cfg.policy == 4 && self.rng.below(2) == 0 {
            let t = self.cur;
            self.th[t].stall = self.steps + self.rng.logu(4000);
            (*SHM).faults[F_STALL] += 1;
        }
        self.preempt(n);
    }

    unsafe fn preempt(&mut self, n: usize) {
        (*SHM).faults[F_PREEMPT] += 1;
        self.record(D_SWITCH, n as u64);
        self.switch_to(n);
    }

    fn top_prio(&self, incl_cur: bool) -> usize {
        let mut best = usize::MAX;
        for i in 0..self.nth {
            if self.th[i].state == St::Ready && (incl_cur || i != self.cur) && (best == usize::MAX || self.th[i].prio > self.th[best].prio) {
                best = i;
            }
        }
        best
    }

    /// Beyond the step budget: deterministic round robin; violation if that does not end the run.
    unsafe fn fair_point(&mut self) {
        if !self.fair {
            self.fair = true;
            for th in &mut self.th {
                th.stall = 0;
            }
        }
        if self.steps > self.cfg.step_cap * 3 {
            let mut s = String::from("no progress under fair scheduling:");
            for i in 0..self.nth {
                s += &format!(" t{i}={:?}@op{}", self.th[i].state, self.th[i].op);
            }
            violation("livelock", &s);
        }
        if self.steps % 25 == 0 {
            let n = self.rr_next();
            if n != usize::MAX {
                self.switch_to(n);
            }
        }
    }

    fn rr_next(&self) -> usize {
        for d in 1..=self.nth {
            let i = (self.cur + d) % self.nth;
            if i != self.cur && self.th[i].state == St::Ready {
                return i;
            }
        }
        usize::MAX
    }

    /// sched_yield: must let somebody else run if anybody can.
    pub unsafe fn yield_now(&mut self) {
        self.steps += 1;
        let t = self.cur;
        self.th[t].hook += 1;
        self.clock += 1000;
        if self.steps > self.cfg.step_cap {
            self.fair_point();
            let n = self.rr_next();
            if n != usize::MAX {
                self.switch_to(n);
            }
            return;
        }
        let n = if self.is_replay {
            match self.lookup(D_SWITCH) {
                Some(n) if self.ready(n as usize) => n as usize,
                _ => self.rr_next(),
            }
        } else {
            if self.cfg.policy == 1 {
                self.low_prio -= 1;
                self.th[t].prio = self.low_prio;
            }
            let n = self.pick_other();
            if n != usize::MAX {
                self.record(D_SWITCH, n as u64);
            }
            n
        };
        if n != usize::MAX {
            self.switch_to(n);
        }
    }

    fn pick_other(&mut self) -> usize {
        if self.cfg.policy == 1 {
            return self.top_prio(false);
        }
        let (v, k) = self.others(true);
        if k > 0 {
            return v[self.rng.below(k as u64) as usize];
        }
        let (v, k) = self.others(false);
        if k > 0 {
            return v[self.rng.below(k as u64) as usize];
        }
        usize::MAX
    }

    /// Choose the next thread when the current one cannot continue.
    fn choose_blocked(&mut self) -> usize {
        loop {
            let t = self.cur;
            let n = if self.steps > self.cfg.step_cap {
                self.rr_next()
            } else if self.is_replay {
                match self.lookup(D_BLOCK) {
                    Some(n) if self.ready(n as usize) && n as usize != t => n as usize,
                    _ => self.rr_next(),
                }
            } else {
                let n = self.pick_other();
                if n != usize::MAX {
                    self.record(D_BLOCK, n as u64);
                }
                n
            };
            if n != usize::MAX {
                return n;
            }
            // the current thread itself may have been made ready (spurious wake-up, timeout)
            if self.th[t].state == St::Ready {
                return t;
            }
            // nobody can run: advance the clock to the first deadline
            let mut best = u64::MAX;
            for th in &self.th {
                if let St::Futex { deadline, .. } = th.state {
                    best = best.min(deadline);
                }
            }
            if best == u64::MAX {
                let mut s = String::from("all threads blocked:");
                for i in 0..self.nth {
                    if self.th[i].state != St::Done {
                        let d = match self.th[i].state {
                            St::Futex { .. } => "waiting for a lock".to_string(),
                            x => format!("{x:?}"),
                        };
                        s += &format!(" t{i}@op{} {d};", self.th[i].op);
                    }
                }
                violation("deadlock", &s);
            }
            self.clock = self.clock.max(best);
            for i in 0..self.nth {
                if let St::Futex { deadline, .. } = self.th[i].state {
                    if deadline <= self.clock {
                        self.th[i].state = St::Ready;
                        self.th[i].wake_res = -libc::ETIMEDOUT;
                        self.fwaiters.retain(|&x| x != i);
                    }
                }
            }
        }
    }

    unsafe fn block(&mut self, s: St) {
        let t = self.cur;
        self.th[t].state = s;
        self.th[t].hook += 1;
        self.steps += 1;
        let n = self.choose_blocked();
        if n != t {
            self.switch_to(n);
        }
    }

    pub fn conservative_join(&mut self) {
        let t = self.cur;
        let mut v = self.th[t].vc;
        for i in 0..self.nth {
            if i != t {
                let o = self.th[i].vc;
                join(&mut v, &o);
                // later releases of i must be distinguishable
            }
        }
        self.th[t].vc = v;
        for i in 0..self.nth {
            if i != t {
                self.th[i].vc[i] += 1;
            }
        }
    }

    pub unsafe fn futex(&mut self, addr: usize, op: i32, val: u32, timeout: *const libc::timespec, val3: u32) -> i64 {
        let cmd = op & 0x7f;
        let t = self.cur;
        match cmd {
            0 | 9 => {
                // WAIT, WAIT_BITSET
                self.point(0);
                if core::ptr::read_volatile(addr as *const u32) != val {
                    self.conservative_join();
                    return -(libc::EAGAIN as i64);
                }
                let mut deadline = u64::MAX;
                if !timeout.is_null() {
                    let d = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                    deadline = if cmd == 0 { self.clock + d } else { d };
                }
                let bits = if cmd == 9 { val3 } else { !0 };
                self.th[t].wake_res = 0;
                if self.fault(D_SPUR, self.cfg.spur_rate, 1, F_SPUR).is_some() {
                    self.conservative_join();
                    return 0;
                }
                self.fwaiters.push(t);
                self.block(St::Futex { addr, bits, deadline });
                self.conservative_join();
                self.th[t].wake_res as i64
            }
            1 | 10 => {
                let mask = if cmd == 10 { val3 } else { !0 };
                let mut n = 0;
                while n < val {
                    let mut c = [0; MAXT];
                    let mut k = 0;
                    for &w in &self.fwaiters {
                        if let St::Futex { addr: a, bits, .. } = self.th[w].state {
                            if a == addr && bits & mask != 0 {
                                c[k] = w;
                                k += 1;
                            }
                        }
                    }
                    if k == 0 {
                        break;
                    }
                    let mut pick = 0;
                    if k > 1 && n == 0 {
                        if let Some(v) = self.fault(D_WAKE, 300, k as u64, F_WAKE) {
                            pick = (v as usize).min(k - 1);
                        }
                    }
                    let w = c[pick];
                    self.fwaiters.retain(|&x| x != w);
                    self.th[w].state = St::Ready;
                    n += 1;
                }
                self.point(1);
                n as i64
            }
            _ => -(libc::ENOSYS as i64),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// interface of the harness

/// Start a simulated thread.
#[inline(never)]
pub fn spawn(f: fn(usize), arg: usize) -> usize {
    unsafe {
        IN_RT = true;
        let t = rt().make_thread(f, arg);
        trace(|| format!("t{} spawn t{t}", rt().cur));
        IN_RT = false;
        t
    }
}
#[inline(never)]
pub fn join_thread(t: usize) {
    unsafe {
        IN_RT = true;
        let r = rt();
        if r.th[t].state != St::Done {
            r.block(St::Join(t));
        } else {
            let vc = r.th[t].vc;
            let c = r.cur;
            join(&mut r.th[c].vc, &vc);
        }
        IN_RT = false;
    }
}
#[inline(never)]
pub fn begin_op(i: usize) {
    unsafe {
        let r = rt();
        let t = r.cur;
        r.th[t].op = i as u16;
        r.th[t].hook = 0;
        if r.cfg.policy == 5 && !r.is_replay {
            r.th[t].exam_left = match r.rng.below(16) {
                0 => r.rng.logu(100),
                1..=5 => r.rng.below(12),
                _ => u64::MAX,
            };
        }
        (*SHM).cur_op = i as u32;
        (*SHM).ops_done += 1;
    }
}
/// An explicit scheduling point (user code about to do something).
#[inline(never)]
pub fn yield_point(site: usize) {
    unsafe {
        IN_RT = true;
        rt().point(site);
        IN_RT = false;
    }
}
/// Voluntarily let others run.
#[inline(never)]
pub fn yield_now() {
    unsafe {
        IN_RT = true;
        rt().yield_now();
        IN_RT = false;
    }
}
/// Stall the current thread for up to `n` steps of the others.
#[inline(never)]
pub fn stall(n: u64) {
    unsafe {
        IN_RT = true;
        let r = rt();
        let t = r.cur;
        if !r.is_replay {
            r.th[t].stall = r.steps + n;
        }
        (*SHM).faults[F_STALL] += 1;
        r.yield_now();
        IN_RT = false;
    }
}
/// Should the harness inject user-fault `k` here?  A scheduling point as well.
#[inline(never)]
pub fn user_fault(k: u8, n: u64) -> Option<u64> {
    unsafe {
        IN_RT = true;
        let r = rt();
        r.point(100 + k as usize);
        let rate = r.cfg.user_rate[k as usize];
        let v = r.fault(D_USER + k, rate, n, F_USER + k as usize);
        IN_RT = false;
        v
    }
}
#[inline(never)]
pub fn probe(i: usize) {
    unsafe {
        (*SHM).probes[i] += 1;
    }
}
#[inline(never)]
pub fn count_fault(i: usize) {
    unsafe {
        (*SHM).faults[F_USER + i] += 1;
    }
}
#[inline(never)]
pub fn cur_tid() -> usize {
    rt().cur
}
/// The current thread begins or ends a long stretch of uniform work, in which nothing is injected.
#[inline(never)]
pub fn mute(on: bool) {
    let r = rt();
    r.th[r.cur].mute = on;
}
/// The current thread enters (+1) or leaves (-1) a collection.
#[inline(never)]
pub fn in_collection(d: i32) {
    let r = rt();
    let t = r.cur;
    r.th[t].coll = (r.th[t].coll as i32 + d) as u32;
    if d > 0 && r.cfg.policy == 5 && !r.is_replay {
        r.th[t].coll_left = match r.rng.below(4) {
            0 => r.rng.logu(20),
            1 => r.rng.logu(600),
            _ => u64::MAX,
        };
        r.th[t].gap_left = if r.rng.below(4) == 0 { u64::MAX } else { r.rng.logu(20) - 1 };
    }
    if d > 0 && r.cfg.policy == 4 && !r.is_replay {
        let m = if r.rng.below(3) == 0 { 20 } else { 600 };
        r.th[t].coll_left = r.rng.logu(m);
    }
}
/// A trace method was called; policy 4 likes to stop a collection there.
#[inline(never)]
pub fn in_trace() {
    let r = rt();
    let t = r.cur;
    if r.cfg.policy == 4 && !r.is_replay && r.rng.below(8) == 0 {
        if r.th[t].coll > 0 {
            r.th[t].coll_left = r.rng.below(16);
        } else {
            r.th[t].exam_left = r.rng.below(24);
        }
    }
}
/// A trace method is between two of the fields of a value.
#[inline(never)]
pub fn trace_gap() {
    let r = rt();
    let t = r.cur;
    if r.cfg.policy == 5 && !r.is_replay && r.th[t].gap_left != u64::MAX {
        if r.th[t].gap_left == 0 {
            r.th[t].gap_left = if r.rng.below(2) == 0 { u64::MAX } else { r.rng.below(8) };
            if r.th[t].coll > 0 {
                r.th[t].coll_left = 0;
            } else {
                r.th[t].exam_left = 0;
            }
        } else {
            r.th[t].gap_left -= 1;
        }
    }
    yield_point(trace_gap as usize);
}
/// All other threads have ended (or none was started yet).
#[inline(never)]
pub fn alone() -> bool {
    let r = rt();
    (0..r.nth).all(|i| i == r.cur || r.th[i].state == St::Done)
}
#[inline(never)]
pub fn cur_op() -> u16 {
    rt().th[rt().cur].op
}
#[inline(never)]
pub fn steps() -> u64 {
    rt().steps
}
#[inline(never)]
pub fn set_notrack(v: bool) {
    unsafe { NOTRACK = v }
}
#[inline(never)]
pub fn heap_counters() -> (u64, u64, u64, u64) {
    let r = rt();
    (r.n_alloc, r.n_free, r.alloc_bytes, r.freed_bytes)
}
/// Execute `f` on the simulator's side: its allocations are the host's.
#[inline(never)]
pub fn host<T>(f: impl FnOnce() -> T) -> T {
    let was = rt_flag(true);
    let x = f();
    rt_flag(was);
    x
}

unsafe fn flush() {
    let r = rt();
    let sh = &mut *SHM;
    sh.steps = r.steps;
    sh.simtime = r.clock - 1_000_000_000 + r.steps * 20;
}

#[inline(never)]
pub fn finish_ok(state_hash: u64) -> ! {
    unsafe {
        IN_RT = true;
        flush();
        (*SHM).state_hash = state_hash;
        (*SHM).status = 1;
        exit_group(0)
    }
}

/// Report a violation and end the run.
#[inline(never)]
pub fn violation(class: &str, msg: &str) -> ! {
    unsafe {
        IN_RT = true;
        let sh = &mut *SHM;
        if sh.status == 0 {
            flush();
            let (t, op) = if rt().nth > 0 { (rt().cur, rt().th[rt().cur].op) } else { (0, 0) };
            let (mut cl, mut ml) = (0, 0);
            set_bytes(&mut sh.class, &mut cl, class);
            set_bytes(&mut sh.msg, &mut ml, &format!("{msg} [thread {t} op {op}]"));
            sh.class_len = cl;
            sh.msg_len = ml;
            backtrace(sh);
            sh.status = 2;
        }
        exit_group(0)
    }
}

unsafe fn backtrace(sh: &mut Shm) {
    let mut bp: usize;
    core::arch::asm!("mov {}, rbp", out(reg) bp);
    let t = rt().cur;
    let (lo, hi) = (STACK + t * STACK_SPAN, STACK + t * STACK_SPAN + STACK_SZ);
    let mut n = 0;
    while n < 64 && bp >= lo && bp + 16 <= hi && bp & 7 == 0 {
        sh.bt[n] = *((bp + 8) as *const u64);
        n += 1;
        let nb = *(bp as *const usize);
        if nb <= bp {
            break;
        }
        bp = nb;
    }
    sh.nbt = n as u32;
}
