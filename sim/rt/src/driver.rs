//! Parent side: one forked child per simulated run; search, replay, minimisation.
use crate::core_::*;
use crate::gen;
use crate::oracle;
use crate::prog::*;
use crate::shm::*;
use crate::sys::*;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::time::{Duration, Instant};

static mut SPEC: *const Spec = core::ptr::null();
/// The run's specification (inside the child).
pub fn spec() -> &'static Spec {
    unsafe { &*SPEC }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// 1 fine, 2 violation, 3 harness problem
    pub status: u32,
    pub class: String,
    pub msg: String,
}

/// Simulate one run in a forked child.
pub fn simulate(s: &Spec, entry: fn(usize)) -> Outcome {
    unsafe {
        clear();
        let pid = libc::fork();
        if pid == 0 {
            SPEC = s;
            let rl = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            libc::alarm(180);
            prepare(s.cfg.clone());
            run(entry);
        }
        if pid < 0 {
            return Outcome { status: 3, class: "harness-fork".into(), msg: "fork failed".into() };
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let sh = &*SHM;
        let here = format!(" [thread {} op {}]", sh.cur_tid, sh.cur_op);
        let v = |class: &str, msg: String| Outcome { status: 2, class: class.into(), msg };
        if sh.status == 1 && libc::WIFEXITED(st) {
            return Outcome { status: 1, ..Default::default() };
        }
        if sh.status == 2 {
            let class = class();
            let mut m = msg();
            let p = panic_msg();
            if !p.is_empty() && class == "panic" {
                m = format!("{m}: {p}");
            }
            let status = if class.starts_with("harness") { 3 } else { 2 };
            return Outcome { status, class, msg: m };
        }
        if libc::WIFSIGNALED(st) {
            let p = panic_msg();
            return match libc::WTERMSIG(st) {
                libc::SIGABRT => v("abort", format!("process aborted: {p}{here}")),
                libc::SIGSEGV | libc::SIGBUS => v("segfault", format!("memory fault{here}")),
                libc::SIGILL | libc::SIGTRAP => v("trap", format!("illegal instruction {p}{here}")),
                libc::SIGXCPU => v("hang", format!("no progress: CPU time exhausted{here}")),
                s => Outcome { status: 3, class: "harness-signal".into(), msg: format!("signal {s}{here}") },
            };
        }
        Outcome { status: 3, class: "harness-exit".into(), msg: format!("exit status {}{here} {}", libc::WEXITSTATUS(st), panic_msg()) }
    }
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).map_or(d, |x| x.parse().unwrap())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn pin(core: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        let mut cur: libc::cpu_set_t = core::mem::zeroed();
        libc::sched_getaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &mut cur);
        let avail: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &cur)).collect();
        if avail.is_empty() {
            return;
        }
        libc::CPU_SET(avail[core % avail.len()], &mut set);
        libc::sched_setaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            libc::personality((p | libc::ADDR_NO_RANDOMIZE) as _);
            std::env::set_var("SIM_REEXEC", "1");
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            ptrs.push(core::ptr::null());
            libc::execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
        }
    }
}

fn print_bt() {
    unsafe {
        let sh = &*SHM;
        if sh.nbt > 0 {
            println!("bt {}", sh.bt[..sh.nbt as usize].iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(" "));
        }
    }
}

pub fn main(entry: fn(usize)) {
    no_aslr();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map_or("", |s| s.as_str());
    if cmd == "gen" {
        let s = gen::generate(&arg(&a, "--prop").unwrap(), num(&a, "--seed", 1), num(&a, "--index", 0), &arg(&a, "--tier").unwrap_or("quick".into()));
        print!("{}", s.to_text());
        return;
    }
    std::panic::set_hook(Box::new(|i| unsafe {
        let was = crate::mem::IN_RT;
        crate::mem::IN_RT = true;
        if i.payload().downcast_ref::<oracle::Injected>().is_none() && !SHM.is_null() {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
            let sh = &mut *SHM;
            let mut n = 0;
            set_bytes(&mut sh.panic, &mut n, &(m + &l));
            sh.panic_len = n;
        }
        crate::mem::IN_RT = was;
    }));
    crate::core_::init();
    match cmd {
        "worker" => worker(&a, entry),
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut s = Spec::from_text(&t).unwrap();
            s.cfg.trace = a.iter().any(|x| x == "--trace");
            let o = simulate(&s, entry);
            if s.cfg.trace {
                print!("{}", unsafe { crate::shm::trace() });
            }
            println!("status {} class {} msg {}", o.status, if o.class.is_empty() { "-" } else { &o.class }, o.msg);
            let sh = unsafe { &*SHM };
            println!("ihash {:016x} state {:016x} steps {} switches {} decs {}", sh.ihash, sh.state_hash, sh.steps, sh.switches, sh.ndec);
            print_bt();
            std::process::exit(match o.status { 1 => 0, 2 => 1, _ => 3 });
        }
        "minimise" => {
            pin(num(&a, "--core", 0) as usize);
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let s = Spec::from_text(&t).unwrap();
            let m = minimise(s, entry, Duration::from_secs(num(&a, "--time", 40)));
            match m {
                Ok(m) => {
                    std::fs::write(&a[3], m.to_text()).unwrap();
                    std::process::exit(0)
                }
                Err(e) => {
                    println!("{e}");
                    std::process::exit(3)
                }
            }
        }
        _ => {
            eprintln!("usage: work worker|replay|minimise|gen");
            std::process::exit(2);
        }
    }
}

fn worker(a: &[String], entry: fn(usize)) {
    let prop = arg(a, "--prop").unwrap();
    let seed = num(a, "--seed", 1);
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let from = num(a, "--from", 0);
    let step = num(a, "--step", 1);
    let count = num(a, "--count", 1);
    let cap = num(a, "--wall", 3600);
    let max_viol = num(a, "--max-viol", 3);
    let mine: Vec<String> = arg(a, "--classes").map(|c| c.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
    let dir = arg(a, "--out").unwrap();
    let verbose = a.iter().any(|x| x == "-v");
    pin(num(a, "--core", from) as usize);
    let start = Instant::now();
    let (mut runs, mut steps_, mut switches, mut simtime, mut ops, mut decs_) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults = [0u64; NFAULT];
    let mut runs_with = [0u64; NFAULT];
    let mut probes = [0u64; NPROBE];
    let mut probe_runs = [0u64; NPROBE];
    let mut nonquiet = 0u64;
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut other_eg: BTreeMap<String, String> = BTreeMap::new();
    let mut viols: Vec<String> = Vec::new();
    let mut nviol = 0;
    let mut errors: Vec<String> = Vec::new();
    let mut pol = [0u64; 10];
    let mut hashes: Vec<u8> = Vec::new();
    let mut complete = true;
    let mut i = from;
    for _ in 0..count {
        if start.elapsed().as_secs() > cap {
            complete = false;
            break;
        }
        let s = gen::generate(&prop, seed, i, &tier);
        let o = simulate(&s, entry);
        let sh = unsafe { &*SHM };
        runs += 1;
        steps_ += sh.steps;
        switches += sh.switches;
        simtime += sh.simtime;
        ops += sh.ops_done;
        decs_ += sh.ndec as u64;
        pol[s.cfg.policy as usize] += 1;
        for k in 0..NFAULT {
            faults[k] += sh.faults[k];
            runs_with[k] += (sh.faults[k] > 0) as u64;
        }
        for k in 0..NPROBE {
            probes[k] += sh.probes[k];
            probe_runs[k] += (sh.probes[k] > 0) as u64;
        }
        let prog_hash = gen::program_hash(&s.prog);
        // the final phase always collects twice per thread and three times at the end
        let interesting = sh.switches > 2 * s.prog.threads.len() as u64 || sh.probes[oracle::P_AUTO] + sh.probes[oracle::P_SWEPT] > 0;
        nonquiet += interesting as u64;
        hashes.extend_from_slice(&(if interesting { mix(sh.ihash, prog_hash) | 1 } else { 0 }).to_le_bytes());
        hashes.extend_from_slice(&sh.state_hash.to_le_bytes());
        if verbose {
            println!("{i} {} {} {:016x} {:016x} {} {}", o.status, o.class, sh.ihash, sh.state_hash, sh.steps, o.msg);
        }
        match o.status {
            1 => {}
            2 => {
                let matches = mine.is_empty() || mine.iter().any(|c| o.class.starts_with(c.as_str()));
                if matches {
                    nviol += 1;
                    if viols.len() < max_viol as usize {
                        let mut v = s.clone();
                        v.class = o.class.clone();
                        v.msg = o.msg.clone();
                        let f = format!("{dir}/raw-{prop}-{i}.replay");
                        std::fs::write(&f, v.to_text()).unwrap();
                        viols.push(format!("{{\"file\":{},\"class\":{},\"msg\":{},\"index\":{i}}}", esc(&f), esc(&o.class), esc(&o.msg)));
                    }
                    if nviol >= max_viol {
                        complete = false;
                        break;
                    }
                } else {
                    *other.entry(o.class.clone()).or_default() += 1;
                    other_eg.entry(o.class.clone()).or_insert(format!("index {i}: {}", o.msg));
                }
            }
            _ => {
                errors.push(format!("index {i}: {} {}", o.class, o.msg));
                if errors.len() > 5 {
                    complete = false;
                    break;
                }
            }
        }
        i += step;
    }
    std::fs::write(format!("{dir}/w{from}.hashes"), &hashes).unwrap();
    let arr = |x: &[u64]| format!("[{}]", x.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    let mut f = std::fs::File::create(format!("{dir}/w{from}.json")).unwrap();
    write!(
        f,
        "{{\"runs\":{runs},\"complete\":{complete},\"steps\":{steps_},\"switches\":{switches},\"simtime\":{simtime},\"ops\":{ops},\"decisions\":{decs_},\"nontrivial\":{nonquiet},\"faults\":{},\"fault_runs\":{},\"probes\":{},\"probe_runs\":{},\"probe_names\":[{}],\"policies\":{},\"nviol\":{nviol},\"violations\":[{}],\"errors\":[{}],\"other\":{{{}}},\"other_eg\":{{{}}},\"wall\":{}}}",
        arr(&faults), arr(&runs_with), arr(&probes), arr(&probe_runs),
        oracle::PROBE_NAMES.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        arr(&pol), viols.join(","), errors.iter().map(|e| esc(e)).collect::<Vec<_>>().join(","),
        other.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","),
        other_eg.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(","),
        start.elapsed().as_secs_f64()
    )
    .unwrap();
}

/// Reduce a violating run, keeping the class of the violation.
fn minimise(orig: Spec, entry: fn(usize), limit: Duration) -> Result<Spec, String> {
    let t0 = Instant::now();
    let o = simulate(&orig, entry);
    if o.status != 2 || (!orig.class.is_empty() && o.class != orig.class) {
        return Err(format!("violation did not reproduce: status {} class {} (expected {})", o.status, o.class, orig.class));
    }
    let class = o.class.clone();
    let mut best = orig.clone();
    best.class = class.clone();
    best.msg = o.msg.clone();
    if unsafe { (*SHM).ndec as usize } > MAXDEC {
        return Ok(best); // replays from its seed
    }
    if best.cfg.policy != 9 {
        let mut r = best.clone();
        r.cfg.replay = unsafe { decs() };
        r.cfg.policy = 9;
        let o = simulate(&r, entry);
        if o.status != 2 || o.class != class {
            return Ok(best); // should not happen; the seed still replays it
        }
        best = r;
    }
    let test = |s: &Spec| -> Option<String> {
        if t0.elapsed() > limit {
            return None;
        }
        let o = simulate(s, entry);
        (o.status == 2 && o.class == class).then_some(o.msg)
    };
    loop {
        let before = (best.prog.nops(), best.cfg.replay.len(), best.prog.knobs.len());
        // whole threads
        for t in 0..best.prog.threads.len() {
            if best.prog.threads[t].iter().any(|o| o.code != 0) {
                let mut c = best.clone();
                for o in &mut c.prog.threads[t] {
                    *o = Op::default();
                }
                c.cfg.replay.retain(|d| d.tid as usize != t || d.op == 0);
                if let Some(m) = test(&c) {
                    c.msg = m;
                    best = c;
                }
            }
        }
        // operations, in shrinking chunks
        let idx = |s: &Spec| -> Vec<(usize, usize)> {
            let mut v = Vec::new();
            for (t, ops) in s.prog.threads.iter().enumerate() {
                for (j, o) in ops.iter().enumerate() {
                    if o.code != 0 {
                        v.push((t, j));
                    }
                }
            }
            v
        };
        let mut n = (idx(&best).len() / 2).max(1);
        loop {
            let mut k = 0;
            loop {
                let v = idx(&best);
                if k >= v.len() {
                    break;
                }
                let mut c = best.clone();
                let e = (k + n).min(v.len());
                for &(t, j) in &v[k..e] {
                    c.prog.threads[t][j] = Op::default();
                }
                if let Some(m) = test(&c) {
                    c.msg = m;
                    best = c;
                } else {
                    k += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // decisions
        let mut n = (best.cfg.replay.len() / 2).max(1);
        loop {
            let mut k = 0;
            while k < best.cfg.replay.len() {
                let mut c = best.clone();
                let e = (k + n).min(c.cfg.replay.len());
                c.cfg.replay.drain(k..e);
                if let Some(m) = test(&c) {
                    c.msg = m;
                    best = c;
                } else {
                    k += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // trailing empty operations of each thread
        for t in 0..best.prog.threads.len() {
            let mut c = best.clone();
            while c.prog.threads[t].last().is_some_and(|o| o.code == 0) {
                c.prog.threads[t].pop();
            }
            if c.prog.threads[t].len() != best.prog.threads[t].len() {
                if let Some(m) = test(&c) {
                    c.msg = m;
                    best = c;
                }
            }
        }
        // arguments towards zero
        for (t, j) in idx(&best) {
            for k in 0..NARG {
                if best.prog.threads[t][j].a[k] != 0 {
                    let mut c = best.clone();
                    c.prog.threads[t][j].a[k] = 0;
                    if let Some(m) = test(&c) {
                        c.msg = m;
                        best = c;
                    }
                }
            }
        }
        if t0.elapsed() > limit || (best.prog.nops(), best.cfg.replay.len(), best.prog.knobs.len()) == before {
            break;
        }
    }
    Ok(best)
}
