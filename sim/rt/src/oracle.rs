//! State of the oracles that is not part of the reachability model, and the injection points in
//! user code.
use crate::core_::*;
use crate::driver;
use crate::model;
use crate::sys::*;

pub const NSCRIPT: u8 = 16;
pub const NHEAP: usize = 1 + MAXT;

// harness fault kinds (indices into Cfg::user_rate)
pub const K_DROP_PANIC: u8 = 0;
pub const K_ACCEPT_PANIC: u8 = 1;
pub const K_COND_PANIC: u8 = 2;
pub const K_COND_TRUE: u8 = 3;
pub const K_STALL: u8 = 4;
pub const K_POISON: usize = 5;
pub const K_HELD: usize = 6;

// condition modes
pub const M_NEVER: u8 = 0;
pub const M_ALWAYS: u8 = 1;
pub const M_RANDOM: u8 = 2;
pub const M_DEFAULT: u8 = 3;
pub const M_PROBE: u8 = 4;

// probes
pub const P_SWEPT: usize = 0; // destroyed although another undestroyed object refers to it
pub const P_COUNTED: usize = 1; // destroyed with no reference left
pub const P_DTOR_SCRIPT: usize = 2;
pub const P_DROP_IN_DTOR: usize = 3;
pub const P_AUTO: usize = 4; // condition returned true
pub const P_EXPLICIT: usize = 5;
pub const P_CONC_COLLECT: usize = 6; // collection begun while another is running
pub const P_HELD_TRACE: usize = 7; // traced while a guard is held
pub const P_CROSS_DESTROY: usize = 8; // destroyed by a thread other than its creator
pub const P_DEAD_SEEN: usize = 9; // dead handle observed
pub const P_ESCAPED: usize = 10; // live handle escaped from a destructor
pub const P_TLS_DROP: usize = 11; // handle dropped during thread-local teardown
pub const P_NESTED_COLLECT: usize = 12; // collect() inside a destructor
pub const P_POISONED: usize = 13;
pub const P_INTERRUPT: usize = 14; // operation interrupted by an injected panic
pub const P_COUNTERS: usize = 15;
pub const P_COMPLETE: usize = 16;
pub const P_MUT_DURING_COLLECT: usize = 17; // an edge changed while a collection was running
pub const P_AUTO_CHECKED: usize = 18;
pub const P_FOREIGN: usize = 19;
pub const P_UNSIZED: usize = 20;
pub const P_DEFAULT_COLLECT: usize = 21;
pub const P_AMORT: usize = 22;
pub const P_MUST: usize = 23;
pub const P_LEAK: usize = 24;
pub const P_PROMPT: usize = 25;
pub const P_PROMPT_DEEP: usize = 26;
pub const P_CHURN: usize = 27;
pub const PROBE_NAMES: [&str; 28] = [
    "destroyed by a sweep", "destroyed by count", "destructor scripts run", "handle dropped inside a destructor",
    "condition returned true", "explicit collections", "collection begun during another", "traced while a guard is held",
    "destroyed by another thread", "dead handle observed", "live handle escaped from destructor",
    "handle dropped in thread-local teardown", "collect() inside destructor", "locks poisoned",
    "operations interrupted by an injected panic", "counter checks", "completeness checks",
    "edges changed during a collection", "automatic collection effect checked", "sync handle moved into unsync object",
    "unsized handles", "default condition fired", "amortisation checks", "collect() with own garbage", "guards leaked",
    "last handle dropped, object gone at once", "and what it held as well", "100,000 drops in a row",
];

#[derive(Default)]
pub struct Orc {
    pub mode: [u8; NHEAP],
    pub mode_step: [u64; NHEAP],
    pub mode_busy: [u32; NHEAP],
    pub explicit: [u32; NHEAP],
    /// threads whose current drop got `true` from the condition, per heap
    pub auto: [u16; NHEAP],
    pub dying: [u32; MAXT],
    pub in_tls: [bool; MAXT],
    /// calls of trace methods, per thread
    pub accepts: [u64; MAXT],
    pub inflight: [u32; NHEAP],
    pub lo: [i64; NHEAP],
    pub hi: [i64; NHEAP],
    pub colls: [u64; NHEAP],
    pub depth: [u32; MAXT],
    pub drop_start: [u64; MAXT],
    pub unknown_lo: [bool; NHEAP],
    /// unreachable objects at the moment the condition returned true
    pub snap: [Vec<u32>; MAXT],
    pub vals: FxMap<u32, u64>,
    pub captured: Option<(u64, u64)>,
    pub opts: u32,
    pub held: u32,
    /// the library's own default condition is in force, where the oracle cannot see it
    pub raw: [bool; NHEAP],
    /// changes whenever a collection begins or ends
    pub epoch: [u64; NHEAP],
    pub epoch0: [[u64; NHEAP]; MAXT],
    /// something may wait for the next collection although it has no handles left
    pub postponed: bool,
    /// a collection was run when all other threads had ended
    pub settled: bool,
}

pub const O_SCRIPTS: u32 = 1; // destructors do things
pub const O_COND: u32 = 2; // C10's rules are checked
pub const O_PANICS: u32 = 4;
pub const O_COUNT: u32 = 8; // C09's rules are checked
pub const O_PROMPT: u32 = 16; // C17's rules are checked

#[inline(never)]
pub fn o() -> &'static mut Orc {
    &mut rt().orc
}
#[inline(never)]
pub fn heap(fl: u8) -> usize {
    if fl == 0 { 0 } else { 1 + cur_tid() }
}

/// The payload of every injected panic.
pub struct Injected;

#[inline(never)]
pub fn panic_now() -> ! {
    std::panic::panic_any(Injected)
}

fn may_panic() -> bool {
    !std::thread::panicking() && !o().in_tls[cur_tid()]
}

/// A user trace method was called.
#[inline(never)]
pub fn on_accept(_fl: u8, id: u32, canary: u64) {
    if id == 0 || id >= model::n_nodes() || canary != model::canary(id) {
        host(|| violation("trace-corrupt", &format!("trace method called on a corrupt value (id {id}, canary {canary:#x})")));
    }
    if model::state(id) != model::LIVE_ {
        host(|| violation("trace-destroyed", &format!("trace method called on object {id} whose destructor has run")));
    }
    o().accepts[cur_tid()] += 1;
    in_trace();
    if o().held > 0 {
        probe(P_HELD_TRACE);
        o().postponed = true;
    }
    if user_fault(K_ACCEPT_PANIC, 1).is_some() && may_panic() {
        interrupted();
        panic_now();
    }
}

/// RAII: the destructor of an object is running.
pub struct Dying;
impl Dying {
    #[inline(never)]
    pub fn enter(fl: u8, id: u32) -> Dying {
        let t = cur_tid();
        let held = model::in_degree(id) > 0;
        probe(if held { P_SWEPT } else { P_COUNTED });
        if model::home(id) as usize != t {
            probe(P_CROSS_DESTROY);
        }
        let r = o();
        let h = heap(fl);
        let exit = fl == 1 && r.in_tls[t];
        if r.opts & O_COND != 0 && held && r.explicit[h] == 0 && r.auto[h] == 0 && !r.raw[h] && !exit {
            host(|| violation("collected-uninvited", &format!("object {id} was swept although no collect() call was running and no condition had returned true")));
        }
        r.dying[t] += 1;
        Dying
    }
}
impl Drop for Dying {
    fn drop(&mut self) {
        o().dying[cur_tid()] -= 1;
    }
}
#[inline(never)]
pub fn dtor_fault() {
    if user_fault(K_DROP_PANIC, 1).is_some() && may_panic() {
        interrupted();
        panic_now();
    }
}
/// The object's own handles are about to be dropped.
#[inline(never)]
pub fn fields_dropped(fl: u8, n: i64) {
    let r = o();
    let h = heap(fl);
    r.hi[h] += n;
    if quiet(h) {
        r.lo[h] += n;
    }
}
/// No collection of this heap has been running since the current drop began.
fn quiet(h: usize) -> bool {
    let r = o();
    let t = cur_tid();
    r.explicit[h] == 0 && r.auto[h] == 0 && (r.depth[t] == 0 || r.epoch[h] == r.epoch0[t][h])
}

fn interrupted() {
    probe(P_INTERRUPT);
    model::excuse_all();
    let r = o();
    for h in 0..NHEAP {
        r.unknown_lo[h] = true;
    }
    for s in r.snap.iter_mut() {
        s.clear();
    }
}

/// A handle is about to be dropped by the program (or a destructor).
#[inline(never)]
pub fn drop_begin(fl: u8) {
    let t = cur_tid();
    let r = o();
    r.depth[t] += 1;
    if r.depth[t] == 1 {
        r.drop_start[t] = steps();
        r.epoch0[t] = r.epoch;
        r.snap[t].clear();
    }
    r.inflight[heap(fl)] += 1;
    if r.dying[t] > 0 {
        probe(P_DROP_IN_DTOR);
    }
    if r.in_tls[t] {
        probe(P_TLS_DROP);
    }
}
#[inline(never)]
pub fn drop_end(fl: u8, ok: bool) {
    let t = cur_tid();
    let h = heap(fl);
    let r = o();
    let alone = quiet(h);
    r.depth[t] -= 1;
    r.inflight[h] -= 1;
    r.hi[h] += 1;
    if alone {
        r.lo[h] += 1;
    }
    if r.depth[t] == 0 {
        for h in 0..NHEAP {
            if r.auto[h] & 1 << t != 0 {
                r.auto[h] &= !(1 << t);
                in_collection(-1);
                // an automatic collection ended
                r.epoch[h] += 1;
                r.lo[h] = 0;
                r.colls[h] += 1;
            }
        }
        if ok && r.dying[t] == 0 {
            host(|| {
                let s = std::mem::take(&mut o().snap[t]);
                if !s.is_empty() {
                    probe(P_AUTO_CHECKED);
                }
                for id in s {
                    if model::is_live(id) && !model::excused(id) && !model::reachable(id) {
                        violation("condition-ignored", &format!("the condition returned true for a drop, but unreachable object {id} was still there when the drop returned"));
                    }
                }
            });
        }
    }
}

fn collection_begins(h: usize) {
    let r = o();
    if r.explicit[h] != 0 || r.auto[h] != 0 {
        probe(P_CONC_COLLECT);
    }
    // every drop in flight may be counted before or after the reset
    r.hi[h] = r.inflight[h] as i64 + dying_edges(h);
    r.lo[h] = 0;
    r.epoch[h] += 1;
}
fn dying_edges(h: usize) -> i64 {
    model::dying_edges(|n| if h == 0 { n.flavor == 0 } else { n.flavor == 1 && n.home as usize + 1 == h })
}

/// Run an explicit collection.
#[inline(never)]
pub fn explicit_collect(fl: u8, f: fn()) {
    struct End(usize);
    impl Drop for End {
        fn drop(&mut self) {
            in_collection(-1);
            let r = o();
            r.explicit[self.0] -= 1;
            r.colls[self.0] += 1;
            r.epoch[self.0] += 1;
            if r.explicit[self.0] == 0 && r.auto[self.0] == 0 {
                r.lo[self.0] = 0;
            }
        }
    }
    let h = heap(fl);
    probe(P_EXPLICIT);
    if o().dying[cur_tid()] > 0 {
        probe(P_NESTED_COLLECT);
        o().postponed = true;
    } else {
        collection_begins(h);
    }
    trace(|| format!("t{} collect() begins", cur_tid()));
    let must = if o().in_tls[cur_tid()] { Vec::new() } else { model::must_collect(fl) };
    if !must.is_empty() {
        probe(P_MUST);
    }
    o().explicit[h] += 1;
    in_collection(1);
    let e = End(h);
    f();
    drop(e);
    model::collect_ended(must);
    if fl == 0 && (only_thread() || first_thread()) && o().dying[cur_tid()] == 0 {
        o().settled |= only_thread();
        o().postponed = o().held > 0;
    }
    trace(|| format!("t{} collect() ends", cur_tid()));
}
/// The harness is about to install condition `mode` (call before and after).
#[inline(never)]
pub fn cond_installing(fl: u8) {
    o().mode_busy[heap(fl)] += 1;
}
#[inline(never)]
pub fn cond_installed(fl: u8, mode: u8) {
    let h = heap(fl);
    let r = o();
    r.mode_busy[h] -= 1;
    r.mode[h] = mode;
    // another thread may still be acting on what the default condition said
    r.raw[h] &= h == 0;
    r.mode_step[h] = steps();
}
#[inline(never)]
pub fn cond_init(fl: u8, mode: u8) {
    o().mode[heap(fl)] = mode;
    o().raw[heap(fl)] = mode == M_DEFAULT;
}

/// Is the library's default condition in force, as it is when a program starts?
#[inline(never)]
pub fn raw_default(fl: u8) -> bool {
    let h = heap(fl);
    o().raw[h] && o().mode_step[h] == 0
}

/// The condition `mode` was called by the collector.
#[inline(never)]
pub fn cond(fl: u8, mode: u8, dflt: impl FnOnce() -> bool) -> bool {
    let h = heap(fl);
    let t = cur_tid();
    {
        let r = o();
        if r.opts & O_COND != 0 && r.mode[h] != mode && r.mode_busy[h] == 0 && r.mode_step[h] < r.drop_start[t] && r.depth[t] > 0 && rt().cfg.stale_rate == 0 {
            let m = r.mode[h];
            host(|| violation("wrong-condition", &format!("condition {mode} was asked although {m} is in force (heap {h})")));
        }
    }
    if user_fault(K_COND_PANIC, 1).is_some() && may_panic() {
        interrupted();
        panic_now();
    }
    let v = match mode {
        M_NEVER | M_PROBE => false,
        M_ALWAYS => true,
        M_RANDOM => user_fault(K_COND_TRUE, 1).is_some(),
        _ => dflt(),
    };
    if v {
        probe(P_AUTO);
        if mode == M_DEFAULT {
            probe(P_DEFAULT_COLLECT);
        }
        let t = cur_tid();
        trace(|| format!("t{t} condition returns true"));
        if o().depth[t] > 0 && o().auto[h] & 1 << t == 0 {
            in_collection(1);
        }
        if o().dying[t] == 0 && o().depth[t] > 0 {
            collection_begins(h);
            o().auto[h] |= 1 << t;
            if fl == 1 && o().opts & O_COND != 0 && o().depth[t] == 1 && dying_edges(h) == 0 {
                host(|| {
                    let me = t as u8;
                    let v = model::unreachable_live(|n, _| n.flavor == 1, me);
                    o().snap[t] = v;
                });
            }
        } else if o().depth[t] > 0 {
            o().auto[h] |= 1 << t;
        }
    }
    v
}

#[inline(never)]
pub fn script_probe(sc: u8) {
    if sc != 0 {
        probe(P_DTOR_SCRIPT);
    }
}
#[inline(never)]
pub fn model_val_set(id: u32, v: u64) {
    host(|| {
        o().vals.insert(id, v);
    })
}
#[inline(never)]
pub fn model_val_check(id: u32, v: u64) {
    host(|| {
        let w = o().vals.get(&id).copied().unwrap_or(0);
        if v != w {
            violation("lost-write", &format!("object {id}: read {v} through one handle, last written through another was {w}"));
        }
    })
}

#[inline(never)]
pub fn held(n: i32) {
    if n > 0 {
        count_fault(K_HELD);
    }
    o().held = (o().held as i32 + n) as u32;
}
/// So many handles were dropped that candidates were passed on.
#[inline(never)]
pub fn churned() {
    o().postponed = true;
    probe(P_CHURN);
}
/// Is this the only thread that has not ended?
fn only_thread() -> bool {
    let t = cur_tid();
    rt().th.iter().enumerate().all(|(i, h)| i == t || matches!(h.state, St::Unborn | St::Done))
}
/// Is this the first thread to do anything?
fn first_thread() -> bool {
    let t = cur_tid();
    let p = &driver::spec().prog.threads;
    rt().th.iter().enumerate().all(|(i, h)| i == t || matches!(h.state, St::Unborn | St::Join(_))) && (t == 0 || p.len() <= 2 && p[0].iter().all(|o| o.code == 0))
}
/// A handle to `id` was just dropped.
#[inline(never)]
pub fn check_prompt(fl: u8, id: u32) {
    let t = cur_tid();
    let r = o();
    if fl == 1 {
        let h = heap(1);
        let plain = r.depth[t] == 1 && r.dying[t] == 0 && r.explicit[h] == 0 && r.auto[h] & 1 << t == 0 && !r.in_tls[t] && r.opts & O_PANICS == 0;
        return model::check_prompt(id, if plain { Some(1) } else { None });
    }
    if r.opts & O_PROMPT == 0 || r.depth[t] != 1 || r.dying[t] > 0 || r.explicit[0] > 0 || r.in_tls[t] || r.postponed || model::any_jammed() {
        return;
    }
    // either nobody else has ever dropped anything, or all of that has been looked at
    if first_thread() || (r.settled && only_thread()) {
        model::check_prompt(id, if r.auto[0] & 1 << t == 0 { Some(0) } else { None });
    }
}
/// An injected panic has reached the operation's caller.
#[inline(never)]
pub fn unwound() {
    let t = cur_tid();
    let r = o();
    r.postponed = true;
    for h in 0..NHEAP {
        if r.auto[h] & 1 << t != 0 {
            r.auto[h] &= !(1 << t);
            in_collection(-1);
        }
    }
    r.depth[t] = 0;
}
#[inline(never)]
pub fn capture(existing: u64, dropped: u64) {
    o().captured = Some((existing, dropped));
}
#[inline(never)]
pub fn judge_counters(fl: u8, when: &str) {
    host(|| {
        probe(P_COUNTERS);
        let h = heap(fl);
        let t = cur_tid() as u8;
        let Some((e, d)) = o().captured.take() else {
            violation("counter-condition", "the condition was not consulted for a drop");
        };
        let want = model::handle_count(|n| if fl == 0 { n.flavor == 0 } else { n.flavor == 1 && n.home == t });
        if e as i64 != want {
            violation("counter-existing", &format!("{when}: condition was told that {e} handles exist; there are {want}"));
        }
        if !o().unknown_lo[h] {
            let (lo, hi) = (o().lo[h], o().hi[h]);
            if (d as i64) < lo || d as i64 > hi {
                violation("counter-dropped", &format!("{when}: condition was told {d} drops since the last collection; there were between {lo} and {hi}"));
            }
        }
    })
}
