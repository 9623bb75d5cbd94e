//! Seeded generation of programs and run configurations, one profile per property.
use crate::core_::Cfg;
use crate::oracle::*;
use crate::prog::*;
use crate::sys::*;

pub fn program_hash(p: &Program) -> u64 {
    let mut h = 7;
    for (i, t) in p.threads.iter().enumerate() {
        h = mix(h, i as u64);
        for o in t {
            let mut w = o.code as u64;
            for x in o.a {
                w = w << 8 | x as u64;
            }
            h = mix(h, w);
        }
    }
    for (k, v) in &p.knobs {
        h = mix(h, k.len() as u64 ^ *v as u64);
    }
    h
}

pub struct Profile {
    /// percentage of sync operations (0: pure unsync, 100: pure sync)
    pub sync: u32,
    pub threads: (u64, u64),
    pub ops: u64,
    pub w: Vec<(Oc, u32)>,
    /// chance (percent) that destructors run scripts in this run
    pub scripts: u32,
    pub script_set: Vec<u8>,
    pub conds: Vec<u8>,
    pub leaf: u32,
    pub opts: u32,
    pub keep: bool,
    pub panics: bool,
    pub poison: bool,
    pub change_cond: bool,
    pub stale: u32,
    pub setup: u32,
    /// chance (percent) of a program built around one shared structure
    pub contend: u32,
}

fn base_weights() -> Vec<(Oc, u32)> {
    use Oc::*;
    vec![
        (New, 14), (Clone, 10), (Drop, 14), (Move, 3), (PutMove, 10), (PutClone, 12), (Take, 7), (Get, 9), (ClearSlot, 6),
        (SwapSlots, 3), (Walk, 4), (WalkTake, 3), (Deref, 5), (StashPut, 7), (StashTake, 7), (StashGet, 8), (StashDeref, 3),
        (StashDrop, 4), (Hold, 3), (HoldPut, 2), (HoldTake, 2), (Release, 3), (Pin, 2), (PinTake, 2), (PinPut, 2), (PinMove, 3), (PinPeek, 2), (PinDup, 2), (Unpin, 2),
        (Collect, 8), (Yield, 3), (NewCycle, 7), (Fan, 2), (SidePut, 8), (SideTake, 3), (SideGet, 4),
    ]
}
fn set_w(w: &mut Vec<(Oc, u32)>, o: Oc, v: u32) {
    w.retain(|x| x.0 != o);
    w.push((o, v));
}

fn profile(prop: &str, r: &mut Rng) -> Profile {
    use Oc::*;
    let mut p = Profile {
        sync: 100, threads: (2, 4), ops: 28, w: base_weights(), scripts: 0, script_set: (1..14).collect(), conds: vec![M_NEVER, M_ALWAYS, M_RANDOM, M_RANDOM, M_DEFAULT],
        leaf: 15, opts: 0, keep: false, panics: false, poison: false, change_cond: false, stale: 50, setup: 60, contend: 40,
    };
    match prop {
        "C01" | "C02" => {
            p.scripts = 15;
        }
        "C03" => {
            p.leaf = 25;
        }
        "C04" => {
            p.scripts = 40;
            p.script_set = vec![5, 6, 7, 8, 11, 12, 13];
            set_w(&mut p.w, Hold, 6);
            set_w(&mut p.w, Yield, 6);
            set_w(&mut p.w, Collect, 12);
        }
        "C05" | "C06" => {
            p.sync = 0;
            p.threads = (1, 2);
            p.ops = 60;
            p.scripts = 25;
            p.script_set = vec![1, 2, 5, 6, 7, 8, 11, 12, 13];
            set_w(&mut p.w, Expect, 3);
        }
        "C07" => {
            p.sync = if r.chance(1, 2) { 100 } else { 0 };
            if p.sync == 0 { p.threads = (1, 1) } else { p.threads = (1, 3) }
            p.scripts = 100;
            p.ops = 40;
            set_w(&mut p.w, Escape, 5);
            set_w(&mut p.w, Collect, 10);
        }
        "C08" => {
            p.sync = if r.chance(1, 2) { 100 } else { 0 };
            p.threads = if p.sync == 0 { (1, 1) } else { (1, 3) };
            p.scripts = 10;
            p.script_set = vec![1, 2, 5, 6, 11, 12];
            p.panics = true;
            p.opts |= O_PANICS;
            set_w(&mut p.w, Expect, 2);
        }
        "C09" => {
            p.sync = if r.chance(1, 2) { 100 } else { 0 };
            p.threads = if p.sync == 0 { (1, 2) } else { (1, 3) };
            p.scripts = 40;
            p.script_set = vec![1, 2, 5, 6, 7, 11, 12];
            p.opts |= O_COUNT;
            p.conds = vec![M_NEVER, M_NEVER, M_RANDOM, M_DEFAULT];
            set_w(&mut p.w, Counters, 5);
        }
        "C10" => {
            p.sync = [100, 0, 50][r.below(3) as usize];
            p.threads = (1, 3);
            p.opts |= O_COND;
            p.stale = 20;
            p.change_cond = true;
            p.ops = 40;
            set_w(&mut p.w, SetCond, 6);
            set_w(&mut p.w, Collect, 3);
        }
        "C11" => {
            p.sync = [100, 0, 50][r.below(3) as usize];
            p.threads = (1, 4);
            p.ops = 20;
            p.keep = true;
            p.scripts = 20;
            p.script_set = vec![1, 2, 5, 6, 11, 12];
            set_w(&mut p.w, Keep, 12);
        }
        "C12" => {
            p.sync = if r.chance(1, 2) { 100 } else { 0 };
            p.threads = if p.sync == 0 { (1, 1) } else { (2, 4) };
            if p.sync == 0 { p.ops = 60; }
            p.poison = true;
            set_w(&mut p.w, Poison, 5);
            set_w(&mut p.w, Leak, 6);
            p.contend = 60;
            set_w(&mut p.w, Hold, 9);
            set_w(&mut p.w, HoldPut, 5);
            set_w(&mut p.w, HoldTake, 5);
            set_w(&mut p.w, Collect, 10);
        }
        "C13" => {
            p.sync = if r.chance(1, 3) { 100 } else { 0 };
            p.threads = (1, 2);
            p.ops = 50;
            p.leaf = 5;
            set_w(&mut p.w, NewCycle, 14);
            set_w(&mut p.w, PutClone, 18);
            if p.sync == 0 { set_w(&mut p.w, Expect, 3); }
        }
        "C14" => {
            p.sync = 45;
            p.threads = (1, 3);
            p.ops = 45;
            p.scripts = 40;
            p.script_set = vec![1, 2, 5, 6, 8, 11, 12, 14, 15];
            set_w(&mut p.w, PutForeign, 14);
            set_w(&mut p.w, TakeForeign, 6);
            set_w(&mut p.w, GetForeign, 6);
            p.keep = r.chance(1, 4);
            if p.keep { set_w(&mut p.w, Keep, 6); }
        }
        "C15" => {
            p.sync = if r.chance(1, 2) { 100 } else { 0 };
            p.threads = if p.sync == 0 { (1, 1) } else { (1, 3) };
            set_w(&mut p.w, Ident, 14);
            set_w(&mut p.w, Write, 14);
            set_w(&mut p.w, Clone, 14);
        }
        "C16" => {
            p.sync = if r.chance(1, 2) { 100 } else { 0 };
            p.threads = if p.sync == 0 { (1, 1) } else { (1, 3) };
            p.ops = 45;
            p.scripts = 20;
            p.script_set = vec![1, 2, 3, 5, 6, 12];
            set_w(&mut p.w, Raw, 10);
        }
        "C17" => {
            p.threads = if r.chance(1, 2) { (1, 1) } else { (2, 3) };
            p.setup = if p.threads.1 == 1 { 30 } else { 60 };
            p.ops = 40;
            p.scripts = 30;
            p.script_set = vec![1, 2, 5, 6, 11, 12];
            p.opts |= O_PROMPT;
            set_w(&mut p.w, Collect, 8);
            set_w(&mut p.w, Drop, 20);
        }
        _ => {}
    }
    p
}

pub fn generate(prop: &str, seed: u64, index: u64, _tier: &str) -> Spec {
    let mut h = mix(seed, 0x5eed);
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    let run_seed = mix(mix(h, index), 0xabc);
    let mut r = Rng::new(run_seed);
    let mut p = profile(prop, &mut r);
    // swarm: leave out or stress kinds of operations
    for x in p.w.iter_mut() {
        match r.below(10) {
            0 | 1 => x.1 = 0,
            2 => x.1 *= 4,
            3 => x.1 *= 2,
            _ => {}
        }
    }
    for k in [Oc::New, Oc::Drop, Oc::StashPut, Oc::StashGet] {
        if let Some(x) = p.w.iter_mut().find(|x| x.0 == k) {
            x.1 = x.1.max(4);
        }
    }
    let nreg = 2 + r.below(5);
    let nslot = 1 + r.below(4);
    let nstash = 1 + r.below(4);
    let scripts = r.below(100) < p.scripts as u64;
    let script_rate = if scripts { 1 + r.below(100) } else { 0 };
    let mut sset: Vec<u8> = p.script_set.iter().copied().filter(|_| r.chance(1, 2)).collect();
    if sset.is_empty() {
        sset.push(p.script_set[r.below(p.script_set.len() as u64) as usize]);
    }
    let nb = NBAG as u64;
    let mut bags: Vec<u8> = (0..NBAG).filter(|_| r.chance(1, 5)).collect();
    if bags.is_empty() || r.chance(1, 3) {
        bags = vec![r.below(nb) as u8];
    }
    let leaf = if r.chance(1, 3) { 0 } else { p.leaf as u64 };
    let locks: u64 = 1 + r.below(3);
    let nthreads = (p.threads.0 + r.below(p.threads.1 - p.threads.0 + 1)) as usize;
    let mut prog = Program::default();
    let tot: u64 = p.w.iter().map(|x| x.1 as u64).sum();
    let gen_op = |r: &mut Rng, p: &Profile, tot: u64| -> Op {
        let mut k = r.below(tot.max(1));
        let mut oc = Oc::Nop;
        for x in &p.w {
            if k < x.1 as u64 {
                oc = x.0;
                break;
            }
            k -= x.1 as u64;
        }
        let u = if r.below(100) >= p.sync as u64 { U } else { 0 };
        let reg = |r: &mut Rng| r.below(nreg) as u8;
        let slot = |r: &mut Rng| r.below(nslot) as u8;
        let stash = |r: &mut Rng| r.below(nstash) as u8;
        let bag = |r: &mut Rng| {
            let b = if r.below(100) < leaf { LEAF } else { bags[r.below(bags.len() as u64) as usize] };
            b | (r.below(locks) as u8) << 6
        };
        let script = |r: &mut Rng| if r.below(100) < script_rate { sset[r.below(sset.len() as u64) as usize] } else { 0 };
        let any = |r: &mut Rng| r.below(256) as u8;
        let mut a = match oc {
            Oc::New => {
                let fixed = if r.chance(1, 3) { 1 + r.below(3) as u8 } else { 0 };
                [reg(r), bag(r), script(r), fixed, reg(r)]
            }
            Oc::NewCycle => {
                let mut b = bag(r);
                if b & 63 == LEAF { b = b & 0xc0 | bags[0]; }
                [b, r.below(4) as u8, script(r), reg(r), any(r)]
            }
            Oc::Clone | Oc::Move | Oc::Ident => [reg(r), reg(r), 0, 0, 0],
            Oc::Drop | Oc::Hold | Oc::Keep | Oc::Poison => [reg(r), 0, 0, 0, 0],
            Oc::Deref | Oc::Pin | Oc::Leak => [reg(r), any(r), 0, 0, 0],
            Oc::PutMove | Oc::PutClone | Oc::Take | Oc::Get => [reg(r), slot(r), reg(r), any(r), 0],
            Oc::ClearSlot => [reg(r), slot(r), any(r), 0, 0],
            Oc::SwapSlots => [reg(r), slot(r), reg(r), slot(r), 0],
            Oc::PinMove | Oc::PinPeek => [slot(r), any(r), 0, 0, 0],
            Oc::PinDup => [slot(r), reg(r), any(r), 0, 0],
            Oc::Fan => [reg(r), if r.chance(1, 40) { 250 + r.below(6) as u8 } else { r.below(250) as u8 }, bag(r), slot(r), 0],
            Oc::SidePut => [reg(r), reg(r), any(r), any(r), 0],
            Oc::SideTake | Oc::SideGet => [reg(r), reg(r), 0, 0, 0],
            Oc::Walk | Oc::WalkTake => [reg(r), slot(r), slot(r), reg(r), 0],
            Oc::StashPut | Oc::StashTake | Oc::StashGet => [stash(r), reg(r), any(r), 0, 0],
            Oc::StashDeref => [stash(r), 0, 0, 0, 0],
            Oc::StashDrop => [stash(r), any(r), 0, 0, 0],
            Oc::PinTake => [slot(r), reg(r), any(r), 0, 0],
            Oc::HoldPut | Oc::HoldTake | Oc::PinPut => [slot(r), reg(r), 0, 0, 0],
            Oc::Yield => [r.below(11) as u8, 0, 0, 0, 0],
            Oc::SetCond => [p.conds[r.below(p.conds.len() as u64) as usize], 0, 0, 0, 0],
            Oc::Write => [reg(r), any(r), reg(r), 0, 0],
            Oc::PutForeign | Oc::TakeForeign | Oc::GetForeign => [reg(r), reg(r), 0, 0, 0],
            Oc::Raw => [reg(r), any(r), r.below(nb) as u8, 0, 0],
            Oc::Churn => [r.below(8) as u8, any(r), 0, 0, 0],
            _ => [0; 5],
        };
        if matches!(oc, Oc::New) && a[2] != 0 && r.chance(1, 4) {
            a[3] |= 8 | sset[r.below(sset.len() as u64) as usize] << 4;
        }
        let u = if matches!(oc, Oc::PutForeign | Oc::TakeForeign | Oc::GetForeign) { U } else { u };
        Op { code: oc as u8 | u, a }
    };
    let gen_thread = |r: &mut Rng, p: &Profile, max: u64| -> Vec<Op> {
        let n = match r.below(4) {
            0 => 1 + r.below(6.min(max)),
            1 => 1 + r.below(max / 2 + 1),
            _ => 1 + r.below(max),
        };
        (0..n).map(|_| gen_op(r, p, tot)).collect()
    };
    let setup = if r.below(100) < p.setup as u64 && p.sync > 0 {
        let mut t = gen_thread(&mut r, &p, 14);
        // make sure something is shared
        for i in 0..nstash {
            if r.chance(2, 3) {
                t.push(Op { code: Oc::New as u8, a: [0, bags[0], 0, 0, 0] });
                t.push(Op { code: Oc::StashPut as u8, a: [i as u8, 0, 0, 0, 0] });
            }
        }
        if r.chance(1, 3) {
            t.push(Op { code: Oc::Collect as u8, a: [0; NARG] });
        }
        t
    } else {
        Vec::new()
    };
    let pinned = p.contend > 0 && p.sync == 100 && nthreads >= 2 && r.chance(1, 10);
    let closing = !pinned && matches!(prop, "C03" | "C11" | "C12") && p.sync == 100 && nthreads >= 2 && r.chance(1, 10);
    let contend = !pinned && !closing && p.contend > 0 && p.sync == 100 && nthreads >= 2 && r.below(100) < p.contend as u64;
    if closing {
        // one thread closes a cycle and collects, while others examine parts of it in their drops
        let op = |c: Oc, a: [u8; NARG]| Op { code: c as u8, a };
        let bag = |r: &mut Rng| bags[r.below(bags.len() as u64) as usize] | (r.below(locks) as u8) << 6;
        let two = r.chance(1, 3) as u8;
        let mut t = vec![op(Oc::New, [0, bag(&mut r), 0, 0, 0])];
        if two != 0 {
            t.push(op(Oc::New, [2, bag(&mut r), 0, 0, 0]));
            t.push(op(Oc::StashPut, [2, 2, 0, 0, 0]));
        }
        t.push(op(Oc::Clone, [1, 0, 0, 0, 0]));
        t.push(op(Oc::StashPut, [0, 0, 0, 0, 0]));
        t.push(op(Oc::StashPut, [1, 1, 0, 0, 0]));
        prog.threads.push(t);
        for i in 0..nthreads {
            let mut t = Vec::new();
            let wait = |r: &mut Rng, t: &mut Vec<Op>| if r.chance(1, 4) { t.push(Op { code: Oc::Yield as u8, a: [r.below(9) as u8, 0, 0, 0, 0] }) };
            if i == 0 {
                t.push(op(Oc::StashTake, [0, 0, 0, 0, 0]));
                if two != 0 { t.push(op(Oc::StashTake, [2, 1, 0, 0, 0])); }
                wait(&mut r, &mut t);
                for (x, y) in [(0, two), (two, 0)] {
                    if y == x && two == 0 && r.chance(1, 2) && t.len() > 2 { continue; }
                    let slot = r.below(nslot) as u8;
                    t.push(if r.chance(1, 2) { op(Oc::SidePut, [x, y, 1, 0, 0]) } else { op(Oc::PutClone, [x, slot, y, 0, 0]) });
                }
                t.push(op(Oc::Drop, [0, 0, 0, 0, 0]));
                if two != 0 { t.push(op(Oc::Drop, [1, 0, 0, 0, 0])); }
                for _ in 0..1 + r.below(2) {
                    wait(&mut r, &mut t);
                    t.push(op(Oc::Collect, [0; NARG]));
                }
            } else if i == 1 || r.chance(1, 2) {
                wait(&mut r, &mut t);
                if i > 1 { t.push(op(Oc::StashGet, [r.below(2) as u8, 0, 0, 0, 0])); } else { t.push(op(Oc::StashTake, [1, 0, 0, 0, 0])); }
                t.push(op(Oc::Drop, [0, 0, 0, 0, 0]));
            } else {
                wait(&mut r, &mut t);
                t.push(op(Oc::Collect, [0; NARG]));
            }
            prog.threads.push(t);
        }
    } else if pinned {
        // one thread rearranges a small cycle through a reference it has from before, while others collect
        let op = |c: Oc, a: [u8; NARG]| Op { code: c as u8, a };
        let deep = r.below(2) as u8;
        let peek = r.chance(1, 2);
        let escape = r.chance(1, 3);
        let locks = if peek { 4 } else { locks };
        let bag = |r: &mut Rng| bags[r.below(bags.len() as u64) as usize] | (r.below(locks) as u8) << 6;
        let mut t = Vec::new();
        t.push(op(Oc::New, [0, bag(&mut r), 0, 0, 0]));
        if escape {
            // object 0 refers to 1 and 2, and 1 to 0
            t.push(op(Oc::New, [1, bag(&mut r), 0, 1, 0]));
            t.push(op(Oc::New, [2, bag(&mut r), 0, 0, 0]));
        } else if deep != 0 {
            t.push(op(Oc::New, [1, bag(&mut r), 0, 1, 0]));
        } else {
            t.push(op(Oc::Move, [1, 0, 0, 0, 0]));
            t.push(op(Oc::Clone, [0, 1, 0, 0, 0]));
        }
        let at = r.below(nslot) as u8;
        let mut side = r.chance(1, 2);
        let obj = 1 + escape as u8;
        t.push(if side { op(Oc::SidePut, [0, obj, 1, 0, 0]) } else { op(Oc::PutClone, [0, at, obj, 0, 0]) });
        if escape {
            t.push(if !side { op(Oc::SidePut, [0, 1, 1, 0, 0]) } else { op(Oc::PutClone, [0, at, 1, 0, 0]) });
            t.push(op(Oc::Drop, [2, 0, 0, 0, 0]));
            t.push(op(Oc::StashPut, [1, 0, 0, 0, 0]));
            t.push(op(Oc::StashPut, [0, 1, 0, 0, 0]));
        } else {
            if r.chance(1, 4) {
                t.push(op(Oc::PutClone, [0, r.below(nslot) as u8, r.below(2) as u8, 0, 0]));
            }
            t.push(op(Oc::Drop, [0, 0, 0, 0, 0]));
            t.push(op(Oc::Clone, [0, 1, 0, 0, 0]));
            t.push(op(Oc::StashPut, [0, 0, 0, 0, 0]));
            t.push(op(Oc::StashPut, [1, 1, 0, 0, 0]));
        }
        if r.chance(7, 8) { t.push(op(Oc::Collect, [0; NARG])); }
        prog.threads.push(t);
        for i in 0..nthreads as u64 {
            let mut t = Vec::new();
            if i == 0 {
                t.push(op(Oc::StashTake, [0, 0, 0, 0, 0]));
                t.push(op(Oc::Pin, [0, if r.chance(3, 4) || escape { deep | escape as u8 } else { 0 }, 0, 0, 0]));
                if escape {
                    for _ in 0..r.below(3) { t.push(op(Oc::Yield, [r.below(8) as u8, 0, 0, 0, 0])); }
                    t.push(op(Oc::PinTake, [at, 2, side as u8, 0, 0]));
                    t.push(op(Oc::Unpin, [0; NARG]));
                    t.push(op(Oc::Drop, [0, 0, 0, 0, 0]));
                    if r.chance(3, 4) { t.push(op(Oc::Yield, [r.below(11) as u8, 0, 0, 0, 0])); }
                    t.push(op(Oc::Deref, [2, 0, 0, 0, 0]));
                } else { for _ in 0..1 + r.below(8) {
                    if r.chance(1, 4) {
                        let s = r.below(nslot) as u8;
                        match r.below(4) {
                            0 => t.push(op(Oc::PinTake, [s, 2, 0, 0, 0])),
                            1 => t.push(op(Oc::PinPut, [s, 2, 0, 0, 0])),
                            _ => t.push(op(Oc::PinDup, [s, 0, r.below(2) as u8, 0, 0])),
                        }
                    } else if peek && r.chance(1, 2) {
                        t.push(op(Oc::PinPeek, [at, side as u8, 0, 0, 0]));
                    } else {
                        t.push(op(Oc::PinMove, [at, side as u8, 0, 0, 0]));
                        side = !side;
                    }
                    if r.chance(1, 3) { t.push(op(Oc::Yield, [r.below(11) as u8, 0, 0, 0, 0])); }
                } }
                t.push(op(Oc::Deref, [0, 0, 0, 0, 0]));
            } else {
                if r.chance(1, 2) { t.push(op(Oc::Yield, [r.below(9) as u8, 0, 0, 0, 0])); }
                for _ in 0..1 + r.below(3) {
                    t.push(op(if r.chance(1, 4) { Oc::StashGet } else { Oc::StashTake }, [1, 0, 0, 0, 0]));
                    t.push(op(Oc::Drop, [0, 0, 0, 0, 0]));
                    if r.chance(3, 4) { t.push(op(Oc::Collect, [0; NARG])); }
                }
            }
            prog.threads.push(t);
        }
    } else if contend {
        // few objects, densely linked and shared; one thread collects, the others change the structure
        let op = |c: Oc, a: [u8; NARG]| Op { code: c as u8, a };
        let tiny = r.chance(1, 3);
        let n = if tiny { 1 + r.below(2) as u8 } else { 2 + r.below(4) as u8 };
        let nested = vec![NESTED];
        let bags = if tiny && r.chance(1, 4) { &nested } else { &bags };
        let mut t = Vec::new();
        for i in 0..n {
            let fixed = if i > 0 && r.chance(1, 4) { 1 } else { 0 };
            let b = bags[r.below(bags.len() as u64) as usize] | (r.below(locks) as u8) << 6;
            let sc = if r.below(100) < script_rate { sset[r.below(sset.len() as u64) as usize] } else { 0 };
            t.push(op(Oc::New, [i, b, sc, fixed, r.below(i as u64 + 1) as u8]));
        }
        for _ in 0..if tiny { r.below(2) } else { n as u64 + r.below(2 * n as u64) } {
            t.push(op(Oc::PutClone, [r.below(n as u64) as u8, r.below(nslot) as u8, r.below(n as u64) as u8, 0, 0]));
        }
        if !tiny && r.chance(1, 12) {
            t.push(op(Oc::Fan, [0, r.below(6) as u8, bags[0], 0, 0]));
        }
        for i in 0..nstash as u8 {
            t.push(op(Oc::StashPut, [i, r.below(n as u64) as u8, 0, 0, 0]));
        }
        if r.chance(1, 2) {
            // (otherwise what this thread dropped handles to is kept by its queue)
            t.push(op(Oc::Collect, [0; NARG]));
        }
        prog.threads.push(t);
        let mut mw: Vec<(Oc, u32)> = p.w.iter().copied().filter(|x| !matches!(x.0, Oc::New | Oc::NewCycle | Oc::Fan | Oc::Collect | Oc::Yield | Oc::Raw)).collect();
        for x in mw.iter_mut() {
            match x.0 {
                Oc::StashGet | Oc::StashTake | Oc::StashDrop | Oc::Drop | Oc::Take | Oc::Get | Oc::WalkTake | Oc::Walk | Oc::ClearSlot => x.1 = x.1 * 2 + 2,
                _ => {}
            }
        }
        let mut mp = Profile { w: mw, ..p };
        let collectors = 1 + r.below(2).min(nthreads as u64 - 2);
        for i in 0..nthreads as u64 {
            if i < collectors {
                let mut t = Vec::new();
                for _ in 0..1 + r.below(if tiny { 2 } else { 5 }) {
                    for _ in 0..r.below(3) {
                        t.push(op(Oc::StashGet, [r.below(nstash) as u8, 0, 0, 0, 0]));
                        if r.chance(1, 3) {
                            t.push(op(Oc::Get, [0, r.below(nslot) as u8, 1, 0, 0]));
                            t.push(op(Oc::Drop, [1, 0, 0, 0, 0]));
                        }
                        t.push(op(Oc::Drop, [0, 0, 0, 0, 0]));
                    }
                    t.push(op(Oc::Collect, [0; NARG]));
                }
                prog.threads.push(t);
            } else {
                mp.ops = if tiny { 5 } else { 12 };
                let n = 1 + r.below(mp.ops);
                let mut t = vec![op(Oc::StashGet, [r.below(nstash) as u8, 0, 0, 0, 0])];
                let tot: u64 = mp.w.iter().map(|x| x.1 as u64).sum();
                t.extend((0..n).map(|_| gen_op(&mut r, &mp, tot)));
                prog.threads.push(t);
            }
        }
        p = mp;
    } else {
        prog.threads.push(setup);
        for _ in 0..nthreads {
            prog.threads.push(gen_thread(&mut r, &p, p.ops));
        }
    }
    let churn = matches!(prop, "C02" | "C03" | "C11" | "C17") && p.sync == 100 && r.chance(1, 2500);
    if churn {
        let t = if prop == "C17" && nthreads > 1 { 0 } else { r.below(prog.threads.len() as u64) as usize };
        let at = r.below(prog.threads[t].len() as u64 + 1) as usize;
        let x = r.below(nreg) as u8;
        let bag = bags[0];
        prog.threads[t].insert(at, Op { code: Oc::New as u8, a: [x, bag, 0, 0, 0] });
        prog.threads[t].insert(at + 1, Op { code: Oc::Churn as u8, a: [x, r.below(256) as u8, 0, 0, 0] });
    }
    let k = &mut prog.knobs;
    let mut knob = |n: &str, v: u64| {
        if v != 0 {
            k.insert(n.into(), v as i64);
        }
    };
    let cs = p.conds[r.below(p.conds.len() as u64) as usize];
    let cu = p.conds[r.below(p.conds.len() as u64) as usize];
    let cs = if churn { M_NEVER } else { cs };
    knob("cond_s", cs as u64);
    knob("cond_u", cu as u64);
    knob("opts", (p.opts | if scripts { O_SCRIPTS } else { 0 }) as u64);
    knob("keep_setup", r.below(2));
    if p.opts & O_PROMPT != 0 && nthreads > 1 {
        knob("after", churn as u64 | r.below(2));
    }
    knob("keep_first", r.below(2));
    knob("stash_first", r.below(2));
    knob("leave", if p.keep { r.below(8) } else { 0 });
    knob("final_auto", if p.opts & O_COND != 0 && p.sync == 100 { r.below(2) } else { 0 });
    let nops: u64 = prog.threads.iter().map(|t| t.len() as u64).sum();
    let mut cfg = Cfg {
        seed: r.next(), hash_seed: r.next(), step_cap: 300_000, access_cap: 40_000_000, est_steps: nops * 60 + 200, ..Default::default()
    };
    cfg.policy = if contend || pinned || closing { [0, 1, 3, 4, 4, 4, 5, 5, 5, 5][r.below(10) as usize] } else { [0, 0, 1, 1, 2, 3, 3, 4, 4, 4, 5, 5][r.below(12) as usize] };
    cfg.period = r.logu(400);
    cfg.depth = 1 + r.below(12) as u32;
    if r.chance(1, 3) {
        cfg.spur_rate = 1 + r.below(300) as u32;
    }
    if r.chance(1, 3) {
        cfg.clock_rate = 1 + r.below(300) as u32;
    }
    if p.panics {
        for k in [K_DROP_PANIC, K_ACCEPT_PANIC, K_COND_PANIC] {
            if r.chance(1, 2) {
                cfg.user_rate[k as usize] = r.logu(200) as u32;
            }
        }
    }
    cfg.user_rate[K_COND_TRUE as usize] = r.logu(600) as u32;
    if p.stale > 0 && r.below(100) < p.stale as u64 {
        cfg.stale_rate = r.logu(1000) as u32;
    }
    Spec { prop: prop.into(), seed: run_seed, prog, cfg, class: String::new(), msg: String::new() }
}
