//! Shadow model: who owns which handle.  Updated by the harness at points that are atomic with
//! respect to scheduling, so that "unreachable in the model" implies "unreachable in the program".
use crate::core_::*;
use crate::mem::*;
use crate::oracle::{P_PROMPT, P_PROMPT_DEEP};
use crate::shm::SHM;
use crate::sys::*;

pub const SLOTS: usize = 8;
pub const LIVE_: u8 = 1;
pub const DYING: u8 = 2;
pub const GONE: u8 = 3; // all fields dropped

#[derive(Clone)]
pub struct NodeM {
    pub state: u8,
    pub roots: i32,
    pub edges: [u32; SLOTS], // 0 = none
    pub addr: usize,
    pub flavor: u8,
    pub home: u8,
    pub excused: bool,
    pub dropper: (u8, u16),
    pub birth: (u8, u16),
    /// threads that have used the object (bit mask)
    pub touch: u16,
    /// a guard was leaked: the value cannot be locked, or (exclusive) not even be traced, any more
    pub jammed: bool,
    pub pinned: bool,
}

#[derive(Default)]
pub struct Model {
    pub n: Vec<NodeM>,
    pub created: u64,
    pub destroyed: u64,
    /// handles that exist and are not dead, per flavor (sync: index 0) and home thread
    pub handles: [i64; 1 + MAXT],
    pub drops: [i64; 1 + MAXT],
    pub evhash: u64,
    pinned: bool,
    mark: Vec<u32>,
    epoch: u32,
    stack: Vec<u32>,
}

fn m() -> &'static mut Model {
    &mut rt().model
}

#[inline(never)]
pub fn canary(id: u32) -> u64 {
    mix(0xC0FFEE, id as u64) | 1
}

#[inline(never)]
pub fn object_at(a: usize) -> Option<u32> {
    let b = unsafe { block_of(a)?.start };
    for (i, x) in m().n.iter().enumerate().skip(1) {
        if x.addr != 0 {
            if let Some(bb) = unsafe { block_of(x.addr) } {
                if bb.start == b {
                    return Some(i as u32);
                }
            }
        }
    }
    None
}

/// A new object is about to be created; its id.
#[inline(never)]
pub fn new_node(flavor: u8) -> u32 {
    host(|| {
        let md = m();
        if md.n.is_empty() {
            md.n.reserve(256);
            md.n.push(NodeM { state: 0, roots: 0, edges: [0; SLOTS], addr: 0, flavor: 0, home: 0, excused: false, dropper: (0, 0), birth: (0, 0), touch: 0, jammed: false, pinned: false });
        }
        let id = md.n.len() as u32;
        let t = cur_tid() as u8;
        md.n.push(NodeM { state: LIVE_, roots: 0, edges: [0; SLOTS], addr: 0, flavor, home: t, excused: false, dropper: (0, 0), birth: (t, cur_op()), touch: 1 << t, jammed: false, pinned: false });
        md.created += 1;
        id
    })
}
#[inline(never)]
pub fn set_addr(id: u32, addr: usize) {
    m().n[id as usize].addr = addr;
}
#[inline(never)]
pub fn addr(id: u32) -> usize {
    m().n[id as usize].addr
}
#[inline(never)]
pub fn root_inc(id: u32) {
    touch(id);
    m().n[id as usize].roots += 1;
}
fn touch(id: u32) {
    m().n[id as usize].touch |= 1 << cur_tid();
}
#[inline(never)]
pub fn root_dec(id: u32) {
    touch(id);
    let n = &mut m().n[id as usize];
    n.roots -= 1;
    if n.roots < 0 {
        violation("harness-error", "model root count underflow");
    }
}
#[inline(never)]
pub fn edge_set(owner: u32, slot: usize, to: u32) {
    touch(owner);
    touch(m().n[owner as usize].edges[slot]);
    touch(to);
    m().n[owner as usize].edges[slot] = to;
}
#[inline(never)]
pub fn edge(owner: u32, slot: usize) -> u32 {
    m().n[owner as usize].edges[slot]
}
#[inline(never)]
pub fn state(id: u32) -> u8 {
    m().n[id as usize].state
}
#[inline(never)]
pub fn is_live(id: u32) -> bool {
    state(id) == LIVE_
}
#[inline(never)]
pub fn excuse(id: u32) {
    m().n[id as usize].excused = true;
}
/// May a guard of `id` be leaked (nobody else can be waiting for it)?
#[inline(never)]
pub fn may_leak(id: u32) -> bool {
    m().n[id as usize].touch == 1 << cur_tid()
}
#[inline(never)]
pub fn leaked(id: u32, exclusive: bool) {
    let md = m();
    md.n[id as usize].jammed = true;
    if exclusive {
        md.n[id as usize].pinned = true;
        md.pinned = true;
    }
    trace(|| format!("a guard of object {id} was leaked"));
}
#[inline(never)]
pub fn any_pinned() -> bool {
    m().pinned
}
#[inline(never)]
pub fn any_jammed() -> bool {
    m().n.iter().any(|n| n.jammed)
}
#[inline(never)]
pub fn jammed(id: u32) -> bool {
    m().n[id as usize].jammed
}
#[inline(never)]
pub fn n_nodes() -> u32 {
    m().n.len() as u32
}
#[inline(never)]
pub fn created() -> u64 {
    m().created
}
#[inline(never)]
pub fn destroyed() -> u64 {
    m().destroyed
}
#[inline(never)]
pub fn flavor(id: u32) -> u8 {
    m().n[id as usize].flavor
}
#[inline(never)]
pub fn home(id: u32) -> u8 {
    m().n[id as usize].home
}

fn mark_from(pred: impl Fn(usize, &NodeM) -> bool) {
    let md = m();
    md.epoch += 1;
    let e = md.epoch;
    md.mark.resize(md.n.len(), 0);
    md.stack.clear();
    if md.pinned {
        // what cannot be examined is preserved, unless the last handle to it goes
        for i in 1..md.n.len() {
            if md.n[i].state == LIVE_ && md.n[i].pinned && md.n.iter().any(|n| n.state == LIVE_ && n.edges.contains(&(i as u32))) {
                md.mark[i] = e;
                md.stack.push(i as u32);
            }
        }
    }
    for i in 1..md.n.len() {
        if md.n[i].state == LIVE_ && md.mark[i] != e && pred(i, &md.n[i]) {
            md.mark[i] = e;
            md.stack.push(i as u32);
        }
    }
    while let Some(x) = md.stack.pop() {
        for s in 0..SLOTS {
            let y = md.n[x as usize].edges[s] as usize;
            if y != 0 && md.mark[y] != e && md.n[y].state == LIVE_ {
                md.mark[y] = e;
                md.stack.push(y as u32);
            }
        }
    }
}

/// Is `n` where reachability starts from, as far as objects of flavor `fl` are concerned?  The
/// shared collector cannot know whether a thread-local owner is itself garbage.
fn root(fl: u8) -> impl Fn(usize, &NodeM) -> bool {
    move |_, n| n.roots > 0 || (fl == 0 && n.flavor == 1)
}
/// Reachable from handles owned outside managed objects (or from live edges of those).
#[inline(never)]
pub fn reachable(id: u32) -> bool {
    host(|| {
        if m().n[id as usize].roots > 0 {
            return true;
        }
        mark_from(root(m().n[id as usize].flavor));
        let md = m();
        md.mark[id as usize] == md.epoch
    })
}

/// The destructor of `id` starts.
#[inline(never)]
pub fn on_drop(id: u32, canary_seen: u64) {
    host(|| {
        let md = m();
        if id == 0 || id as usize >= md.n.len() || canary_seen != canary(id) {
            violation("destructor-garbage", &format!("destructor called on corrupt value (id {id}, canary {canary_seen:#x})"));
        }
        if md.n[id as usize].state != LIVE_ {
            let d = md.n[id as usize].dropper;
            violation("double-destroy", &format!("object {id} destroyed again (first by thread {} op {})", d.0, d.1));
        }
        if reachable(id) {
            let why = explain(id);
            violation("destroyed-reachable", &format!("object {id} destroyed while reachable: {why}"));
        }
        let md = m();
        let t = cur_tid() as u8;
        let n = &mut md.n[id as usize];
        n.state = DYING;
        n.dropper = (t, cur_op());
        md.destroyed += 1;
        md.evhash = mix(md.evhash, (id as u64) << 8 | t as u64);
        trace(|| format!("t{t} destroy object {id}"));
    })
}

/// The last field of `id` has been dropped.
#[inline(never)]
pub fn on_gone(id: u32) {
    let n = &mut m().n[id as usize];
    if n.state != DYING {
        violation("double-destroy", &format!("the fields of object {id} were dropped in state {}", n.state));
    }
    n.state = GONE;
    for y in n.edges {
        touch(y);
    }
}

/// The objects that a collection started now by this thread must destroy: those that are
/// unreachable, that no other thread has used, and that neither refer to nor are referred to by
/// anything another thread has used.
/// Empty inside a destructor of an object of the same flavour.
#[inline(never)]
pub fn must_collect(fl: u8) -> Vec<u32> {
    host(|| {
        let t = cur_tid();
        let md = m();
        if md.n.iter().any(|n| n.state == DYING && n.flavor == fl && n.dropper.0 as usize == t) {
            return Vec::new();
        }
        spread_excuses();
        mark_from(root(fl));
        let md = m();
        let mine = |n: &NodeM| n.flavor == fl && if fl == 1 { n.home as usize == t } else { alone() || n.touch == 1 << t };
        let shared = fl == 0 && !alone();
        {
            // what dying objects or others may still be working on, and all it refers to
            let e = md.epoch;
            let mut held = vec![false; md.n.len()];
            for n in &md.n {
                if n.state == LIVE_ || n.state == DYING {
                    for &y in &n.edges {
                        held[y as usize] = true;
                    }
                }
            }
            md.stack.clear();
            for i in 1..md.n.len() {
                let n = &md.n[i];
                if n.state == DYING || (shared && n.state == LIVE_ && n.flavor == 0 && md.mark[i] != e && (!mine(n) || !held[i] || n.edges.iter().any(|&y| y != 0 && !mine(&md.n[y as usize])))) {
                    md.mark[i] = e;
                    md.stack.push(i as u32);
                } else if fl == 0 && n.pinned && n.state == LIVE_ && md.mark[i] != e {
                    // what it holds is only seen once it is gone
                    md.stack.push(i as u32);
                }
            }
            while let Some(x) = md.stack.pop() {
                for s in 0..SLOTS {
                    let y = md.n[x as usize].edges[s] as usize;
                    if y != 0 && md.mark[y] != e {
                        md.mark[y] = e;
                        md.stack.push(y as u32);
                    }
                }
            }
        }
        let md = m();
        (1..md.n.len()).filter(|&i| md.n[i].state == LIVE_ && md.mark[i] != md.epoch && !md.n[i].excused && mine(&md.n[i])).map(|i| i as u32).collect()
    })
}
#[inline(never)]
pub fn collect_ended(must: Vec<u32>) {
    host(|| {
        // others may have begun to use what the objects refer to
        let t = cur_tid();
        let others = |y: u32| m().n[y as usize].flavor == 0 && m().n[y as usize].touch & !(1 << t) != 0;
        let mut kept: Vec<u32> = must.iter().copied().filter(|&i| !alone() && m().n[i as usize].flavor == 0 && m().n[i as usize].edges.iter().any(|&y| y != 0 && others(y))).collect();
        let mut k = 0;
        while k < kept.len() {
            for y in m().n[kept[k] as usize].edges {
                if y != 0 && !kept.contains(&y) {
                    kept.push(y);
                }
            }
            k += 1;
        }
        for i in must {
            let n = &m().n[i as usize];
            if n.state == LIVE_ && !n.excused && !kept.contains(&i) {
                violation("leak-undestroyed", &format!("object {i} (created by thread {} op {}) was unreachable when collect() was called and still existed when it returned", n.birth.0, n.birth.1));
            }
        }
    })
}

fn explain(id: u32) -> String {
    let md = m();
    let n = &md.n[id as usize];
    if n.roots > 0 {
        return format!("{} handle(s) owned outside", n.roots);
    }
    for (i, x) in md.n.iter().enumerate() {
        if x.state == LIVE_ && x.edges.contains(&id) {
            return format!("held by live object {i} (roots {})", x.roots);
        }
    }
    "?".into()
}

/// Value read through a handle to `id`: check it.
#[inline(never)]
pub fn check_deref(id: u32, seen_id: u32, seen_canary: u64, addr: usize) {
    host(|| {
        if seen_id != id || seen_canary != canary(id) {
            violation("deref-corrupt", &format!("handle to object {id} dereferenced to id {seen_id}, canary {seen_canary:#x}"));
        }
        if !is_live(id) {
            violation("deref-destroyed", &format!("handle to object {id} dereferenced after its destructor ran"));
        }
        touch(id);
        if addr != m().n[id as usize].addr {
            violation("identity", &format!("object {id} moved from {:#x} to {addr:#x}", m().n[id as usize].addr));
        }
    })
}

/// All unreachable shared objects that only exited threads have used must be destroyed and freed.
#[inline(never)]
pub fn check_left_behind(class: &str) {
    let mine: Vec<bool> = host(|| {
        // what this thread has used as well, and all that holds
        let md = m();
        md.epoch += 1;
        let e = md.epoch;
        md.mark.resize(md.n.len(), 0);
        md.stack.clear();
        for i in 1..md.n.len() {
            if md.n[i].touch >> cur_tid() & 1 != 0 {
                md.mark[i] = e;
                md.stack.push(i as u32);
            }
        }
        while let Some(x) = md.stack.pop() {
            for y in md.n[x as usize].edges {
                if y != 0 && md.mark[y as usize] != e {
                    md.mark[y as usize] = e;
                    md.stack.push(y);
                }
            }
        }
        let r = (0..md.n.len()).map(|i| md.mark[i] == e).collect();
        r
    });
    check_complete_at(0, class, class, |i, _| !mine[i]);
}

/// All objects selected by `sel` that are unreachable must be destroyed and freed.
#[inline(never)]
pub fn check_complete(fl: u8, class_und: &str, class_unf: &str, sel: impl Fn(&NodeM) -> bool) {
    check_complete_at(fl, class_und, class_unf, |_, n| sel(n))
}
#[inline(never)]
fn check_complete_at(fl: u8, class_und: &str, class_unf: &str, sel: impl Fn(usize, &NodeM) -> bool) {
    let sel = |i: usize, n: &NodeM| n.flavor == fl && sel(i, n);
    host(|| {
        probe(crate::oracle::P_COMPLETE);
        spread_excuses();
        mark_from(root(fl));
        let md = m();
        for i in 1..md.n.len() {
            let n = &md.n[i];
            if n.excused || !sel(i, n) {
                continue;
            }
            if n.state == LIVE_ && md.mark[i] != md.epoch {
                let held: Vec<usize> = (1..md.n.len()).filter(|&j| md.n[j].state == LIVE_ && md.n[j].edges.contains(&(i as u32))).collect();
                violation(class_und, &format!("unreachable object {i} (created by thread {} op {}) was never destroyed; referenced from {held:?}", n.birth.0, n.birth.1));
            }
            if n.state >= DYING && n.addr != 0 {
                if let Some(b) = unsafe { block_of(n.addr) } {
                    if b.state != FREED {
                        violation(class_unf, &format!("memory of destroyed object {i} was never freed"));
                    }
                }
            }
        }
    })
}
/// Are there unreachable live objects (that a repeated collection might still find)?
#[inline(never)]
pub fn garbage_left(fl: u8, sel: impl Fn(&NodeM) -> bool) -> usize {
    host(|| {
        spread_excuses();
        mark_from(root(fl));
        let md = m();
        (1..md.n.len()).filter(|&i| !md.n[i].excused && md.n[i].flavor == fl && sel(&md.n[i]) && md.n[i].state == LIVE_ && md.mark[i] != md.epoch).count()
    })
}
/// Every object that exists now may have taken part in an interrupted operation.
#[inline(never)]
pub fn excuse_all() {
    for n in m().n.iter_mut() {
        n.excused = true;
    }
}
#[inline(never)]
pub fn excused(id: u32) -> bool {
    m().n[id as usize].excused
}
/// What an undestroyed excused object refers to is excused too.
fn spread_excuses() {
    let md = m();
    let mut st: Vec<u32> = (1..md.n.len()).filter(|&i| md.n[i].excused && md.n[i].state == LIVE_).map(|i| i as u32).collect();
    while let Some(x) = st.pop() {
        for s in 0..SLOTS {
            let y = md.n[x as usize].edges[s];
            if y != 0 && !md.n[y as usize].excused {
                md.n[y as usize].excused = true;
                st.push(y);
            }
        }
    }
}
/// Undestroyed unreachable objects of thread `home`.
#[inline(never)]
pub fn unreachable_live(sel: fn(&NodeM, u8) -> bool, home: u8) -> Vec<u32> {
    host(|| {
        mark_from(root(1));
        let md = m();
        (1..md.n.len()).filter(|&i| md.n[i].home == home && sel(&md.n[i], home) && md.n[i].state == LIVE_ && !md.n[i].excused && md.mark[i] != md.epoch).map(|i| i as u32).collect()
    })
}
/// Number of undestroyed objects (including itself) that refer to `id`.
#[inline(never)]
pub fn in_degree(id: u32) -> usize {
    let md = m();
    let mut c = 0;
    for (i, n) in md.n.iter().enumerate() {
        if (n.state == LIVE_ || i == id as usize) && n.edges.contains(&id) {
            c += 1;
        }
    }
    c
}
/// A handle to `id` was just dropped: if it was the last one, `id` must be gone by now, and so must
/// all (of flavour `down`) that it held the last handle to.
#[inline(never)]
pub fn check_prompt(id: u32, down: Option<u8>) {
    let md = m();
    let x = &md.n[id as usize];
    if x.state == GONE && down == Some(x.flavor) {
        host(|| {
            let mut todo = vec![id];
            let mut k = 0;
            while k < todo.len() {
                for y in m().n[todo[k] as usize].edges {
                    if y != 0 && !todo.contains(&y) {
                        if m().n[y as usize].state == GONE {
                            todo.push(y);
                        } else if Some(m().n[y as usize].flavor) == down {
                            check_prompt(y, None);
                        }
                    }
                }
                k += 1;
            }
            if todo.len() > 1 {
                probe(P_PROMPT_DEEP);
            }
        });
    }
    if x.state == GONE && down.is_some() {
        probe(P_PROMPT);
    }
    if x.state != LIVE_ || x.roots > 0 || x.excused {
        return;
    }
    if md.n.iter().all(|n| n.state == 0 || n.state == GONE || !n.edges.contains(&id)) {
        violation("late-destroy", &format!("the last handle to object {id} is gone, and the object still exists"));
    }
}
/// Handles inside objects whose destructor has begun.
#[inline(never)]
pub fn dying_edges(sel: impl Fn(&NodeM) -> bool) -> i64 {
    let md = m();
    md.n.iter().filter(|n| n.state == DYING && sel(n)).map(|n| n.edges.iter().filter(|&&e| e != 0).count() as i64).sum()
}

/// Number of handles that exist according to the model: owned outside, or inside live objects.
#[inline(never)]
pub fn handle_count(sel: impl Fn(&NodeM) -> bool) -> i64 {
    host(|| {
        let md = m();
        let mut c = 0;
        for i in 1..md.n.len() {
            let n = &md.n[i];
            if sel(n) {
                c += n.roots as i64;
            }
            if n.state == LIVE_ {
                for &e in &n.edges {
                    if e != 0 && sel(&md.n[e as usize]) {
                        c += 1;
                    }
                }
            }
        }
        c
    })
}

#[inline(never)]
pub fn state_hash() -> u64 {
    let md = m();
    let mut h = md.evhash;
    for n in &md.n {
        h = mix(h, n.state as u64 | (n.roots as u64) << 8);
        for &e in &n.edges {
            h = mix(h, e as u64);
        }
    }
    unsafe { mix(h, (*SHM).ops_done) }
}
