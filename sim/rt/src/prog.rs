//! Programs: what the simulated threads do.  Plain data, textual form for replay files.
use crate::core_::Cfg;
use crate::shm::Dec;
use std::collections::BTreeMap;
use std::fmt::Write;

pub const NARG: usize = 5;
/// Kinds of containers; objects of kind LEAF hold none.
pub const NBAG: u8 = 29;
pub const LEAF: u8 = 63;
/// Locks inside the lock.
pub const NESTED: u8 = 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Op {
    pub code: u8,
    pub a: [u8; NARG],
}

macro_rules! opcodes {
    ($($name:ident = $text:expr),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Oc { $($name),* }
        pub const NAMES: &[&str] = &[$($text),*];
        pub const ALL: &[Oc] = &[$(Oc::$name),*];
    };
}
opcodes! {
    Nop = "nop",
    New = "new",               // reg, bag kind, script, fixed-source reg
    Clone = "clone",           // dst, src
    Drop = "drop",             // reg
    Move = "move",             // dst, src
    PutMove = "put-move",      // node reg, slot, src reg
    PutClone = "put-clone",    // node reg, slot, src reg
    Take = "take",             // node reg, slot, dst reg
    Get = "get",               // node reg, slot, dst reg
    ClearSlot = "clear-slot",  // node reg, slot, (drop inside the lock?)
    SwapSlots = "swap",        // node reg, slot, node reg, slot
    Walk = "walk",             // node reg, slot, slot, dst reg
    WalkTake = "walk-take",    // node reg, slot, slot, dst reg
    Deref = "deref",           // reg
    StashPut = "stash-put",    // stash, reg
    StashTake = "stash-take",  // stash, reg
    StashGet = "stash-get",    // stash, reg
    StashDeref = "stash-deref",// stash
    StashDrop = "stash-drop",  // stash
    Hold = "hold",             // reg: keep the lock of its bag
    HoldPut = "hold-put",      // slot, reg
    HoldTake = "hold-take",    // slot, reg
    Release = "release",
    Pin = "pin",               // reg, via fixed edge?
    PinTake = "pin-take",      // slot, dst reg
    PinPut = "pin-put",        // slot, src reg
    Unpin = "unpin",
    Collect = "collect",
    Yield = "yield",           // stall amount
    SetCond = "set-cond",      // mode
    Poison = "poison",         // reg
    Keep = "keep",             // reg: hand to a thread-local owner
    Ident = "ident",           // reg, reg
    Write = "write",           // reg, value
    Counters = "counters",
    NewCycle = "new-cycle",    // bag kind, length, script
    PutForeign = "put-foreign", // unsync object in reg, sync handle in reg: move it in
    TakeForeign = "take-foreign", // unsync object in reg, sync reg
    GetForeign = "get-foreign", // unsync object in reg, sync reg
    Raw = "raw",               // keep an uncoerced handle / drop one
    Churn = "churn",           // reg, count: so many drops that candidates are passed on
    Escape = "escape",         // use whatever destructors let escape
    Expect = "expect",         // nothing unreachable may be left here
    Leak = "leak",             // reg, shared?: never release a guard
    Fan = "fan",               // node reg, size, bag kind, slot: many objects that all refer back to one
    PinDup = "pin-dup",        // slot, register, where: put a clone into the pinned object
    PinPeek = "pin-peek",      // slot, where: use a handle in its place in the pinned object
    PinMove = "pin-move",      // slot, direction: between the two locks of the pinned object
    SidePut = "side-put",      // node reg, src reg, clone?, drop inside the lock?: the other lock of an object
    SideTake = "side-take",    // node reg, dst reg
    SideGet = "side-get",      // node reg, dst reg
}

/// Operations of the unsync world carry this flag.
pub const U: u8 = 0x40;
pub fn name_of(code: u8) -> String {
    let n = NAMES[(code & !U) as usize];
    if code & U != 0 { format!("u.{n}") } else { n.into() }
}
pub fn code_of(name: &str) -> Option<u8> {
    if let Some(n) = name.strip_prefix("u.") {
        return code_of(n).map(|c| c | U);
    }
    NAMES.iter().position(|n| *n == name).map(|i| i as u8)
}

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub threads: Vec<Vec<Op>>,
    pub knobs: BTreeMap<String, i64>,
}
impl Program {
    pub fn knob(&self, k: &str) -> i64 {
        self.knobs.get(k).copied().unwrap_or(0)
    }
    pub fn nops(&self) -> usize {
        self.threads.iter().map(|t| t.iter().filter(|o| o.code != 0).count()).sum()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub prop: String,
    pub seed: u64,
    pub prog: Program,
    pub cfg: Cfg,
    pub class: String,
    pub msg: String,
}

impl Spec {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "dumpster-sim-replay 1");
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        if !self.class.is_empty() {
            let _ = writeln!(s, "class {}", self.class);
            let _ = writeln!(s, "# {}", self.msg.replace('\n', " "));
        }
        let c = &self.cfg;
        let _ = writeln!(s, "cfg seed={} hash={} policy={} period={} depth={} est={} step_cap={} access_cap={} spur={} stale={} clock={} user={}",
            c.seed, c.hash_seed, c.policy, c.period, c.depth, c.est_steps, c.step_cap, c.access_cap, c.spur_rate, c.stale_rate, c.clock_rate,
            c.user_rate.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        for (k, v) in &self.prog.knobs {
            let _ = writeln!(s, "knob {k} {v}");
        }
        for (i, t) in self.prog.threads.iter().enumerate() {
            let _ = writeln!(s, "thread {} {}", i, t.len());
            for (j, o) in t.iter().enumerate() {
                if o.code != 0 {
                    let _ = writeln!(s, "  {} {} {}", j, name_of(o.code), o.a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                }
            }
        }
        for d in &c.replay {
            let _ = writeln!(s, "dec {} {} {} {} {}", d.tid, d.op, d.hook, d.kind, d.val);
        }
        s
    }

    pub fn from_text(t: &str) -> Result<Spec, String> {
        let mut s = Spec::default();
        for line in t.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = line.split_whitespace().collect();
            let num = |x: &str| x.parse::<u64>().map_err(|e| format!("{line}: {e}"));
            match w[0] {
                "dumpster-sim-replay" => {}
                "property" => s.prop = w[1].into(),
                "seed" => s.seed = num(w[1])?,
                "class" => s.class = w[1].into(),
                "cfg" => {
                    for kv in &w[1..] {
                        let (k, v) = kv.split_once('=').ok_or("bad cfg")?;
                        let c = &mut s.cfg;
                        match k {
                            "seed" => c.seed = num(v)?,
                            "hash" => c.hash_seed = num(v)?,
                            "policy" => c.policy = num(v)? as u8,
                            "period" => c.period = num(v)?,
                            "depth" => c.depth = num(v)? as u32,
                            "est" => c.est_steps = num(v)?,
                            "step_cap" => c.step_cap = num(v)?,
                            "access_cap" => c.access_cap = num(v)?,
                            "spur" => c.spur_rate = num(v)? as u32,
                            "stale" => c.stale_rate = num(v)? as u32,
                            "clock" => c.clock_rate = num(v)? as u32,
                            "user" => {
                                for (i, x) in v.split(',').enumerate() {
                                    c.user_rate[i] = num(x)? as u32;
                                }
                            }
                            _ => return Err(format!("cfg {k}")),
                        }
                    }
                }
                "knob" => {
                    s.prog.knobs.insert(w[1].into(), w[2].parse().map_err(|_| "knob")?);
                }
                "thread" => s.prog.threads.push(vec![Op::default(); num(w[2])? as usize]),
                "dec" => s.cfg.replay.push(Dec { tid: num(w[1])? as u8, op: num(w[2])? as u16, hook: num(w[3])? as u32, kind: num(w[4])? as u8, val: num(w[5])? }),
                _ => {
                    let i = num(w[0])? as usize;
                    let mut o = Op { code: code_of(w[1]).ok_or(format!("op {}", w[1]))?, a: [0; NARG] };
                    for (k, x) in w[2..].iter().enumerate() {
                        o.a[k] = num(x)? as u8;
                    }
                    let t = s.prog.threads.last_mut().ok_or("op before thread")?;
                    t[i] = o;
                }
            }
        }
        Ok(s)
    }
}
