//! The simulated program: drives the real dumpster crate and checks it against the model.
#![cfg_attr(feature = "unsized", feature(coerce_unsized, unsize))]
#![allow(clippy::all, static_mut_refs)]
#[global_allocator]
static ALLOC: rt::mem::SimAlloc = rt::mem::SimAlloc;

use rt::driver::spec;
use rt::{model, oracle};

pub mod prelude {
    pub use dumpster::{Collectable, Visitor};
    pub use rt::prog::{Oc, Op, ALL, LEAF, NBAG};
    pub use rt::{model, oracle};
    pub use std::borrow::Cow;
    pub use std::collections::*;
    pub use std::mem::ManuallyDrop;
    pub use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    pub use std::sync::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, TryLockError};
    pub use std::ops::{Deref, DerefMut};
}

/// Run user-level code that must panic.
pub fn expect_panic(f: impl FnOnce()) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_ok() {
        rt::violation("dead-handle-state", "using a dead handle did not panic");
    }
    rt::probe(oracle::P_DEAD_SEEN);
}

pub fn injected(p: &(dyn std::any::Any + Send)) -> bool {
    p.downcast_ref::<oracle::Injected>().is_some()
}
/// Run one operation; only injected panics may come out of it.
pub fn guarded(f: impl FnOnce()) {
    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        if !injected(&*p) {
            rt::violation("panic", "unexpected panic");
        }
        oracle::unwound();
    }
}

pub mod sw {
    use crate::prelude::*;
    use dumpster::sync as gcm;
    pub const FL: u8 = 0;
    #[derive(Collectable)]
    pub enum Store {
        Leaf,
        Mx(Mutex<Bag>),
        Rw(RwLock<Bag>),
    }
    pub enum Guard<'a> {
        M(MutexGuard<'a, Bag>),
        W(RwLockWriteGuard<'a, Bag>),
    }
    pub enum RGuard<'a> {
        M(MutexGuard<'a, Bag>),
        R(RwLockReadGuard<'a, Bag>),
    }
    include!("locks.rs");
    impl Store {
        pub fn new(l: u8, b: Bag) -> Store {
            if l % 2 == 0 { Store::Mx(Mutex::new(b)) } else { Store::Rw(RwLock::new(b)) }
        }
        pub fn lock(&self, block: bool) -> Option<Guard<'_>> {
            match self {
                Store::Leaf => None,
                Store::Mx(m) => lock_m(m, block).map(Guard::M),
                Store::Rw(m) => lock_w(m, block).map(Guard::W),
            }
        }
        pub fn read(&self, block: bool) -> Option<RGuard<'_>> {
            match self {
                Store::Leaf => None,
                Store::Mx(m) => lock_m(m, block).map(RGuard::M),
                Store::Rw(m) => lock_r(m, block).map(RGuard::R),
            }
        }
        pub fn get_mut(&mut self) -> Option<&mut Bag> {
            match self {
                Store::Leaf => None,
                Store::Mx(m) => Some(m.get_mut().unwrap_or_else(|e| e.into_inner())),
                Store::Rw(m) => Some(m.get_mut().unwrap_or_else(|e| e.into_inner())),
            }
        }
        pub fn poison(&self) {
            match self {
                Store::Leaf => {}
                Store::Mx(m) => poison(|| lock_m(m, false)),
                Store::Rw(m) => poison(|| lock_w(m, false)),
            }
        }
    }
    impl<'a> Deref for Guard<'a> {
        type Target = Bag;
        fn deref(&self) -> &Bag { match self { Guard::M(g) => g, Guard::W(g) => g } }
    }
    impl<'a> DerefMut for Guard<'a> {
        fn deref_mut(&mut self) -> &mut Bag { match self { Guard::M(g) => g, Guard::W(g) => g } }
    }
    impl RGuard<'_> {
        pub fn exclusive(&self) -> bool { matches!(self, RGuard::M(_)) }
    }
    impl<'a> Deref for RGuard<'a> {
        type Target = Bag;
        fn deref(&self) -> &Bag { match self { RGuard::M(g) => g, RGuard::R(g) => g } }
    }

    pub static STASH: [RwLock<Option<H>>; NSTASH] = [const { RwLock::new(None) }; NSTASH];
    pub fn stash_write(i: u8, block: bool) -> Option<RwLockWriteGuard<'static, Option<H>>> {
        lock_w(&STASH[i as usize % NSTASH], block)
    }
    pub fn stash_read(i: u8, block: bool) -> Option<RwLockReadGuard<'static, Option<H>>> {
        lock_r(&STASH[i as usize % NSTASH], block)
    }
    #[derive(Collectable)]
    pub struct Once(Option<G>);
    impl Once {
        pub const NEW: Once = Once(None);
        fn get(&self) -> Option<&G> { self.0.as_ref() }
        fn take(&mut self) -> Option<G> { self.0.take() }
        fn put(&mut self, g: G) { self.0 = Some(g) }
    }
    /// A lock inside the lock.
    #[derive(Collectable)]
    pub enum Inner {
        M(Mutex<Option<G>>),
        W(RwLock<Option<G>>),
    }
    impl Inner {
        fn new(i: usize) -> Inner { if i % 2 == 0 { Inner::M(Mutex::new(None)) } else { Inner::W(RwLock::new(None)) } }
        fn slot(&mut self) -> &mut Option<G> {
            match self { Inner::M(m) => m.get_mut().unwrap_or_else(|e| e.into_inner()), Inner::W(m) => m.get_mut().unwrap_or_else(|e| e.into_inner()) }
        }
        fn get(&self) -> Option<&G> {
            // the outer lock keeps the contents as they are
            let p: *const Option<G> = match self { Inner::M(m) => &*m.lock().unwrap_or_else(|e| e.into_inner()), Inner::W(m) => &*m.read().unwrap_or_else(|e| e.into_inner()) };
            unsafe { (*p).as_ref() }
        }
        fn take(&mut self) -> Option<G> { self.slot().take() }
        fn put(&mut self, g: G) { *self.slot() = Some(g) }
    }
    /// One more handle behind a lock of its own.
    #[derive(Collectable)]
    pub struct Side(Inner);
    impl Side {
        pub fn new(i: u32) -> Side { Side(Inner::new(i as usize)) }
        /// Run `f` on the content, with the lock held exclusively.
        pub fn with<R>(&self, block: bool, f: impl FnOnce(&mut Option<G>) -> R) -> Option<R> {
            match &self.0 {
                Inner::M(m) => lock_m(m, block).map(|mut g| f(&mut g)),
                Inner::W(m) => lock_w(m, block).map(|mut g| f(&mut g)),
            }
        }
        pub fn read<R>(&self, block: bool, f: impl FnOnce(&Option<G>) -> R) -> Option<R> {
            match &self.0 {
                Inner::M(m) => lock_m(m, block).map(|g| f(&g)),
                Inner::W(m) => lock_r(m, block).map(|g| f(&g)),
            }
        }
    }
    #[derive(Collectable)]
    pub struct Foreign;
    impl Foreign {
        pub fn new() -> Foreign { Foreign }
        pub fn dropping(&mut self, _: u32) -> i64 { 0 }
    }
    impl Ctx {
        fn extra(&mut self, _: &Op, _: &mut crate::uw::Ctx) {}
    }
    pub type OtherCtx = crate::uw::Ctx;
    use crate::uw as other;
    #[cfg(not(feature = "unsized"))]
    include!("tails_base.rs");
    #[cfg(all(feature = "unsized", not(feature = "swap")))]
    pub type Dst = dyn Fx + Send + Sync;
    #[cfg(all(feature = "unsized", not(feature = "swap")))]
    include!("tails_dyn.rs");
    #[cfg(feature = "swap")]
    include!("tails_slice.rs");
    include!("body.rs");
}

pub mod uw {
    use crate::prelude::*;
    use dumpster::unsync as gcm;
    use std::cell::{Ref, RefCell, RefMut};
    pub const FL: u8 = 1;
    #[derive(Collectable)]
    pub enum Store {
        Leaf,
        Mx(Mutex<Bag>),
        Rw(RwLock<Bag>),
        Rc(RefCell<Bag>),
    }
    pub enum Guard<'a> {
        M(MutexGuard<'a, Bag>),
        W(RwLockWriteGuard<'a, Bag>),
        C(RefMut<'a, Bag>),
    }
    pub enum RGuard<'a> {
        M(MutexGuard<'a, Bag>),
        R(RwLockReadGuard<'a, Bag>),
        C(Ref<'a, Bag>),
    }
    include!("locks.rs");
    impl Store {
        pub fn new(l: u8, b: Bag) -> Store {
            match l % 3 { 0 => Store::Rc(RefCell::new(b)), 1 => Store::Mx(Mutex::new(b)), _ => Store::Rw(RwLock::new(b)) }
        }
        // a thread-local value is never waited for
        pub fn lock(&self, _: bool) -> Option<Guard<'_>> {
            match self {
                Store::Leaf => None,
                Store::Mx(m) => lock_m(m, false).map(Guard::M),
                Store::Rw(m) => lock_w(m, false).map(Guard::W),
                Store::Rc(m) => m.try_borrow_mut().ok().map(Guard::C),
            }
        }
        pub fn read(&self, _: bool) -> Option<RGuard<'_>> {
            match self {
                Store::Leaf => None,
                Store::Mx(m) => lock_m(m, false).map(RGuard::M),
                Store::Rw(m) => lock_r(m, false).map(RGuard::R),
                Store::Rc(m) => m.try_borrow().ok().map(RGuard::C),
            }
        }
        pub fn get_mut(&mut self) -> Option<&mut Bag> {
            match self {
                Store::Leaf => None,
                Store::Mx(m) => Some(m.get_mut().unwrap_or_else(|e| e.into_inner())),
                Store::Rw(m) => Some(m.get_mut().unwrap_or_else(|e| e.into_inner())),
                Store::Rc(m) => Some(m.get_mut()),
            }
        }
        pub fn poison(&self) {
            match self {
                Store::Mx(m) => poison(|| lock_m(m, false)),
                Store::Rw(m) => poison(|| lock_w(m, false)),
                _ => {}
            }
        }
    }
    impl<'a> Deref for Guard<'a> {
        type Target = Bag;
        fn deref(&self) -> &Bag { match self { Guard::M(g) => g, Guard::W(g) => g, Guard::C(g) => g } }
    }
    impl<'a> DerefMut for Guard<'a> {
        fn deref_mut(&mut self) -> &mut Bag { match self { Guard::M(g) => g, Guard::W(g) => g, Guard::C(g) => g } }
    }
    impl RGuard<'_> {
        pub fn exclusive(&self) -> bool { matches!(self, RGuard::M(_)) }
    }
    impl<'a> Deref for RGuard<'a> {
        type Target = Bag;
        fn deref(&self) -> &Bag { match self { RGuard::M(g) => g, RGuard::R(g) => g, RGuard::C(g) => g } }
    }

    thread_local! {
        pub static STASH: [RefCell<Option<H>>; NSTASH] = const { [const { RefCell::new(None) }; NSTASH] };
    }
    fn stash(i: u8) -> Option<&'static RefCell<Option<H>>> {
        STASH.try_with(|s| unsafe { &*(&s[i as usize % NSTASH] as *const RefCell<Option<H>>) }).ok()
    }
    pub fn stash_write(i: u8, _: bool) -> Option<RefMut<'static, Option<H>>> {
        stash(i)?.try_borrow_mut().ok()
    }
    pub fn stash_read(i: u8, _: bool) -> Option<Ref<'static, Option<H>>> {
        stash(i)?.try_borrow().ok()
    }

    #[derive(Collectable)]
    pub struct Once(std::cell::OnceCell<G>);
    impl Once {
        pub const NEW: Once = Once(std::cell::OnceCell::new());
        fn get(&self) -> Option<&G> { self.0.get() }
        fn take(&mut self) -> Option<G> { self.0.take() }
        fn put(&mut self, g: G) { let _ = self.0.set(g); }
    }
    /// A cell or lock inside the lock.
    #[derive(Collectable)]
    pub enum Inner {
        C(RefCell<Option<G>>),
        M(Mutex<Option<G>>),
        W(RwLock<Option<G>>),
    }
    impl Inner {
        fn new(i: usize) -> Inner {
            match i % 3 { 0 => Inner::C(RefCell::new(None)), 1 => Inner::M(Mutex::new(None)), _ => Inner::W(RwLock::new(None)) }
        }
        fn slot(&mut self) -> &mut Option<G> {
            match self { Inner::C(m) => m.get_mut(), Inner::M(m) => m.get_mut().unwrap_or_else(|e| e.into_inner()), Inner::W(m) => m.get_mut().unwrap_or_else(|e| e.into_inner()) }
        }
        fn get(&self) -> Option<&G> {
            let p: *const Option<G> = match self { Inner::C(m) => m.as_ptr(), Inner::M(m) => &*m.lock().unwrap_or_else(|e| e.into_inner()), Inner::W(m) => &*m.read().unwrap_or_else(|e| e.into_inner()) };
            unsafe { (*p).as_ref() }
        }
        fn take(&mut self) -> Option<G> { self.slot().take() }
        fn put(&mut self, g: G) { *self.slot() = Some(g) }
    }

    /// One more handle behind a lock of its own.
    #[derive(Collectable)]
    pub struct Side(Inner);
    impl Side {
        pub fn new(i: u32) -> Side { Side(Inner::new(i as usize)) }
        /// Run `f` on the content, with the lock held exclusively.
        pub fn with<R>(&self, _: bool, f: impl FnOnce(&mut Option<G>) -> R) -> Option<R> {
            match &self.0 {
                Inner::C(m) => m.try_borrow_mut().ok().map(|mut g| f(&mut g)),
                Inner::M(m) => lock_m(m, false).map(|mut g| f(&mut g)),
                Inner::W(m) => lock_w(m, false).map(|mut g| f(&mut g)),
            }
        }
        pub fn read<R>(&self, _: bool, f: impl FnOnce(&Option<G>) -> R) -> Option<R> {
            match &self.0 {
                Inner::C(m) => m.try_borrow().ok().map(|g| f(&g)),
                Inner::M(m) => lock_m(m, false).map(|g| f(&g)),
                Inner::W(m) => lock_r(m, false).map(|g| f(&g)),
            }
        }
    }
    /// A handle of the shared collector inside a thread-local object.
    #[derive(Collectable)]
    pub struct Foreign(RefCell<Option<crate::sw::G>>);
    impl Foreign {
        pub fn new() -> Foreign { Foreign(RefCell::new(None)) }
        /// The owner is being destroyed: the handle goes with it.
        pub fn dropping(&mut self, owner: u32) -> i64 {
            if model::edge(owner, 6) != 0 { 1 } else { 0 }
        }
    }
    impl Ctx {
        fn extra(&mut self, o: &Op, s: &mut crate::sw::Ctx) {
            let ur = o.a[0] as usize % NREG;
            let sr = o.a[1] as usize % NREG;
            let Some(h) = self.live(ur) else { return };
            let id = h.id;
            match ALL[(o.code & 63) as usize] {
                Oc::PutForeign => {
                    if s.fixed_reg(sr) || s.live(sr).is_none() { return; }
                    let sh = s.regs[sr].take().unwrap();
                    let n = h.check();
                    let Ok(mut f) = n.foreign.0.try_borrow_mut() else { return };
                    let old = f.take();
                    let oid = model::edge(id, 6);
                    let sid = sh.id;
                    *f = Some(sh.into_gc());
                    model::edge_set(id, 6, sid);
                    let old = old.map(|g| crate::sw::H::from_slot(g, oid));
                    rt::probe(oracle::P_FOREIGN);
                    drop(f);
                    drop(old);
                }
                Oc::TakeForeign => {
                    if s.fixed_reg(sr) { return; }
                    let n = h.check();
                    let Ok(mut f) = n.foreign.0.try_borrow_mut() else { return };
                    let Some(g) = f.take() else { return };
                    let oid = model::edge(id, 6);
                    model::edge_set(id, 6, 0);
                    let sh = crate::sw::H::from_slot(g, oid);
                    drop(f);
                    s.set(sr, Some(sh));
                }
                Oc::GetForeign => {
                    if s.fixed_reg(sr) { return; }
                    let n = h.check();
                    let Ok(f) = n.foreign.0.try_borrow() else { return };
                    let Some(g) = f.as_ref() else { return };
                    let oid = model::edge(id, 6);
                    if oid == 0 { return; }
                    let sn: &crate::sw::Node = g;
                    crate::sw::check_node(sn, oid);
                    let c = g.clone();
                    let sh = crate::sw::H::new(c, oid);
                    drop(f);
                    s.set(sr, Some(sh));
                }
                _ => {}
            }
        }
    }
    pub type OtherCtx = crate::sw::Ctx;
    use crate::sw as other;
    #[cfg(not(feature = "unsized"))]
    include!("tails_base.rs");
    #[cfg(all(feature = "unsized", not(feature = "swap")))]
    include!("tails_slice.rs");
    #[cfg(feature = "swap")]
    pub type Dst = dyn Fx;
    #[cfg(feature = "swap")]
    include!("tails_dyn.rs");
    include!("body.rs");
}

fn run_ops(i: usize, base: usize) -> (sw::Ctx, uw::Ctx) {
    let mut s = sw::Ctx::new();
    let mut u = uw::Ctx::new();
    let ops = &spec().prog.threads[i];
    for (j, o) in ops.iter().enumerate() {
        if o.code == 0 {
            continue;
        }
        rt::begin_op(base + j + 1);
        rt::trace(|| format!("t{i} op{} {} {:?}", j + 1, rt::prog::name_of(o.code), o.a));
        guarded(|| if o.code & rt::prog::U != 0 { u.step(o, &mut s) } else { s.step(o, &mut u) });
    }
    rt::begin_op(base + ops.len() + 1);
    (s, u)
}

fn thread_entry(i: usize) {
    let k = |n: &str| spec().prog.knob(n);
    if k("stash_first") != 0 {
        uw::touch_stash();
    }
    if k("keep_first") != 0 {
        uw::touch_keep();
        sw::touch_keep();
    }
    if k("cond_u") != 3 || k("opts") as u32 & oracle::O_COUNT != 0 {
        uw::set_cond(k("cond_u") as u8);
    } else {
        oracle::cond_init(1, 3);
    }
    let (mut s, mut u) = run_ops(i, 0);
    u.end();
    s.end();
    uw::final_default();
    let leave = k("leave");
    if leave & 1 == 0 {
        uw::clear_stash();
        if leave & 2 == 0 {
            uw::final_collect("t");
        }
    }
    rt::begin_op(spec().prog.threads[i].len() + 2);
    oracle::o().in_tls[i] = true;
}

fn program_main(_: usize) {
    let k = |n: &str| spec().prog.knob(n);
    oracle::o().opts = k("opts") as u32;
    if k("cond_s") != 3 || k("opts") as u32 & oracle::O_COUNT != 0 {
        sw::set_cond(k("cond_s") as u8);
    } else {
        oracle::cond_init(0, 3);
    }
    oracle::cond_init(1, 3);
    let n = spec().prog.threads.len();
    let (mut s, mut u) = run_ops(0, 0);
    u.end();
    uw::clear_stash();
    s.release();
    if k("keep_setup") == 0 {
        s.end();
    }
    // the last program may be run by this thread when the others have ended
    let after = k("after") != 0 && n > 2;
    oracle::o().settled = false;
    let mut ts = Vec::new();
    for i in 1..n - after as usize {
        ts.push(rt::spawn(thread_entry, i));
    }
    for t in ts {
        rt::join_thread(t);
    }
    rt::begin_op(1000);
    s.end();
    rt::begin_op(1001);
    // everything is quiet now
    uw::check_threads_done();
    uw::final_collect("m");
    sw::check_counters("after all threads exited");
    sw::final_default();
    if k("final_auto") != 0 {
        sw::final_auto();
    }
    rt::begin_op(1002);
    sw::final_collect("with shared handles left");
    sw::walk_stash();
    if after {
        let (mut s, mut u) = run_ops(n - 1, 500);
        u.end();
        s.end();
        uw::clear_stash();
        uw::final_collect("m2");
    }
    rt::begin_op(1003);
    sw::clear_stash();
    sw::final_collect("with no handles left");
    sw::check_counters("at the end");
    rt::finish_ok(model::state_hash());
}

fn main() {
    rt::driver::main(program_main);
}
