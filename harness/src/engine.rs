//! Choice-tape generation, shrinking, parallel fixed-work running, crash and hang supervision, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// CPU seconds a single case may use before it is taken to hang (ordinary cases: well below 10 ms).
const HANG_CPU_S: f64 = 25.0;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// A source of bounded choices: random and recording, or replaying a tape (0 once it is used up).
pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), tape: Vec::new(), pos: 0 }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { rng: None, tape, pos: 0 }
    }
    /// A value in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let n = n as u64;
        match &mut self.rng {
            Some(r) => {
                let v = r.next() % n;
                self.tape.push(v);
                v as usize
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0).min(n - 1);
                self.pos += 1;
                v as usize
            }
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability p percent (false is the simple choice).
    pub fn pct(&mut self, p: usize) -> bool {
        if p == 0 {
            return false;
        }
        if p >= 100 {
            return true;
        }
        self.below(100) >= 100 - p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index by weight; earlier entries are simpler.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A small count with a geometric tail, at most max.
    pub fn count(&mut self, max: usize, pct_more: usize) -> usize {
        let mut n = 0;
        while n < max && self.pct(pct_more) {
            n += 1;
        }
        n
    }
    pub fn taken(&self) -> Vec<u64> {
        if self.rng.is_some() {
            self.tape.clone()
        } else {
            let mut t = self.tape.clone();
            t.truncate(self.pos);
            t
        }
    }
}

/// What a property sees of the current case.
pub struct Ctx {
    pub src: Src,
    pub thorough: bool,
    pub inputs: Vec<Vec<u8>>,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Ctx {
    pub fn new(src: Src, thorough: bool) -> Self {
        Ctx { src, thorough, inputs: vec![], notes: vec![], nontrivial: false, labels: vec![] }
    }
    pub fn input(&mut self, b: &[u8]) {
        self.inputs.push(b.to_vec());
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type PropFn = fn(&mut Ctx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Res {
    Pass,
    Fail(String),
    /// The harness itself panicked: an error of the check.
    Broken(String),
}

pub fn run_case(prop: &Prop, src: Src, thorough: bool) -> (Res, Ctx) {
    let mut ctx = Ctx::new(src, thorough);
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut ctx)));
    let res = match r {
        Ok(Ok(())) => Res::Pass,
        Ok(Err(e)) => Res::Fail(e),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") && !msg.starts_with("yary: ") {
                Res::Broken(format!("harness panicked at {}: {}", loc, msg))
            } else {
                Res::Fail(format!("panicked at {}: {}", loc, msg))
            }
        }
    };
    (res, ctx)
}

fn fnv(data: &[Vec<u8>]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for d in data {
        for b in d {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed ^ fnv(&[id.as_bytes().to_vec()]));
    let a = r.next();
    let mut r = Rng::new(a ^ index.wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

/// Finds a smaller tape for which the case still fails.
fn shrink(prop: &Prop, tape: Vec<u64>, thorough: bool, limit: Duration, progress: &mut dyn FnMut(&[u64], &str, &Ctx)) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut best = tape;
    let mut msg = String::new();
    let mut try_tape = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        if cand == *best {
            return false;
        }
        let (res, ctx) = run_case(prop, Src::replay(cand), thorough);
        if let Res::Fail(e) = res {
            let used = ctx.src.taken();
            if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                *best = used;
                progress(best, &e, &ctx);
                *msg = e;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                if start.elapsed() > limit {
                    return (best, msg);
                }
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                c.drain(lo..i.min(c.len()));
                if try_tape(c, &mut best, &mut msg) {
                    i = i.min(best.len());
                    continue;
                }
                i = lo;
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        // Zero blocks, then minimise values
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed() > limit {
                    return (best, msg);
                }
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|v| *v = 0);
                    try_tape(c, &mut best, &mut msg);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            let mut hi = best[i];
            while lo + 1 < hi {
                if start.elapsed() > limit {
                    return (best, msg);
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if try_tape(c, &mut best, &mut msg) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i];
                } else {
                    lo = mid;
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > limit {
            return (best, msg);
        }
    }
}

fn show(b: &[u8], max: usize) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i >= max {
            let _ = write!(o, "... ({} bytes)", b.len());
            break;
        }
        o.push(c);
    }
    o
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    max_input: usize,
    bytes: u64,
}

impl Stats {
    fn add(&mut self, idx: u64, ctx: &Ctx) {
        self.evaluations += 1;
        for l in &ctx.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        for i in &ctx.inputs {
            self.max_input = self.max_input.max(i.len());
            self.bytes += i.len() as u64;
        }
        if ctx.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(fnv(&ctx.inputs));
            if self.samples.len() < 6 && (idx % 97 == 3 || self.samples.is_empty()) {
                let s = ctx.inputs.iter().map(|i| show(i, 400)).collect::<Vec<_>>().join("\n=====\n");
                self.samples.push((idx, s));
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        self.max_input = self.max_input.max(o.max_input);
        self.bytes += o.bytes;
    }
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub cases: Option<u64>,
    pub root: PathBuf,
    pub budget: Duration,
}

impl Opts {
    fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

fn replay_path(o: &Opts, id: &str) -> PathBuf {
    let d = o.root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}.replay", id))
}

fn write_replay(path: &Path, id: &str, thorough: bool, how: &str, msg: &str, ctx: Option<&Ctx>) {
    let mut s = String::new();
    let _ = writeln!(s, "property {}", id);
    let _ = writeln!(s, "tier {}", if thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, "{}", how);
    let _ = writeln!(s, "failure {}", msg.replace('\n', "\n  "));
    if let Some(c) = ctx {
        for (i, inp) in c.inputs.iter().enumerate() {
            let _ = writeln!(s, "input {} ({} bytes): {:?}", i, inp.len(), show(inp, 20000));
        }
        for n in &c.notes {
            let _ = writeln!(s, "note {}", n);
        }
    }
    let _ = std::fs::write(path, s);
}

fn tape_line(t: &[u64]) -> String {
    format!("tape {}", t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))
}

/// user + system CPU seconds of a thread of this process
fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().map(String::from)))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

struct Slot {
    tid: AtomicU64,
    case: AtomicU64,
}

fn watchdog(slots: Arc<Vec<Slot>>, stop: Arc<AtomicBool>) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, f64)> = slots.iter().map(|_| (u64::MAX, 0.0)).collect();
        while !stop.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(250));
            for (i, s) in slots.iter().enumerate() {
                let case = s.case.load(SeqCst);
                if case == u64::MAX {
                    seen[i].0 = case;
                    continue;
                }
                let cpu = thread_cpu(s.tid.load(SeqCst)).unwrap_or(0.0);
                if seen[i].0 != case {
                    seen[i] = (case, cpu);
                } else if cpu - seen[i].1 > HANG_CPU_S {
                    eprintln!("case {} used more than {} s of CPU", case, HANG_CPU_S);
                    std::process::exit(70);
                }
            }
        }
    });
}

pub fn worker(prop: &'static Prop, o: &Opts) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let total = o.cases.unwrap_or(if o.thorough() { prop.thorough } else { prop.quick });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let fail: Arc<Mutex<Option<(u64, Vec<u64>, String)>>> = Arc::new(Mutex::new(None));
    let broken: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let stats = Arc::new(Mutex::new(Stats::default()));
    let slots: Arc<Vec<Slot>> =
        Arc::new((0..threads).map(|_| Slot { tid: AtomicU64::new(0), case: AtomicU64::new(u64::MAX) }).collect());
    let slot_file = Arc::new(std::fs::File::create(o.root.join("replays").join(format!("{}.slots", prop.id))).unwrap());
    let dog_stop = Arc::new(AtomicBool::new(false));
    watchdog(slots.clone(), dog_stop.clone());
    let mut hs = vec![];
    let cut = Arc::new(AtomicBool::new(false));
    for t in 0..threads {
        let (next, stop, fail, broken, stats, slots, slot_file, cut) = (
            next.clone(),
            stop.clone(),
            fail.clone(),
            broken.clone(),
            stats.clone(),
            slots.clone(),
            slot_file.clone(),
            cut.clone(),
        );
        let seed = o.seed;
        let thorough = o.thorough();
        let budget = o.budget;
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut local = Stats::default();
                    slots[t].tid.store(own_tid(), SeqCst);
                    'outer: loop {
                        let base = next.fetch_add(16, SeqCst);
                        if base >= total {
                            break;
                        }
                        for idx in base..(base + 16).min(total) {
                            if stop.load(SeqCst) {
                                break 'outer;
                            }
                            slots[t].case.store(idx, SeqCst);
                            let _ = slot_file.write_at(&(idx + 1).to_le_bytes(), t as u64 * 8);
                            let (res, ctx) = run_case(prop, Src::random(case_seed(seed, prop.id, idx)), thorough);
                            match res {
                                Res::Pass => local.add(idx, &ctx),
                                Res::Fail(e) => {
                                    local.add(idx, &ctx);
                                    let mut f = fail.lock().unwrap();
                                    if f.as_ref().map_or(true, |x| ctx.src.tape.len() < x.1.len()) {
                                        *f = Some((idx, ctx.src.taken(), e));
                                    }
                                    stop.store(true, SeqCst);
                                }
                                Res::Broken(e) => {
                                    *broken.lock().unwrap() = Some(format!("case {}: {}", idx, e));
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                        if t0.elapsed() > budget {
                            cut.store(true, SeqCst);
                            break;
                        }
                    }
                    slots[t].case.store(u64::MAX, SeqCst);
                    let _ = slot_file.write_at(&0u64.to_le_bytes(), t as u64 * 8);
                    stats.lock().unwrap().merge(local);
                })
                .unwrap(),
        );
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("worker thread failed");
            return 2;
        }
    }
    if let Some(b) = broken.lock().unwrap().take() {
        println!("ERROR {}", b);
        return 2;
    }
    let st = stats.lock().unwrap();
    let failed = fail.lock().unwrap().take();
    let was_cut = cut.load(SeqCst);
    evidence(prop, o, &st, total, was_cut, failed.is_some() as u64, t0.elapsed());
    println!(
        "{} {}: {} cases, {} non-trivial ({} distinct), {} input bytes, {:.1} s{}",
        prop.id,
        o.tier,
        st.evaluations,
        st.nontrivial,
        st.distinct.len(),
        st.bytes,
        t0.elapsed().as_secs_f64(),
        if was_cut { " (stopped by the time budget)" } else { "" }
    );
    if std::env::var("YV_LABELS").is_ok() {
        for (k, v) in &st.labels {
            println!("   {:40} {}", k, v);
        }
    }
    if let Some((idx, tape, msg)) = failed {
        dog_stop.store(true, SeqCst);
        let path = replay_path(o, prop.id);
        let thorough = o.thorough();
        write_replay(&path, prop.id, thorough, &tape_line(&tape), &msg, None);
        // Everything that runs cases again does so in a thread of its own: should it run into a hang, what was found
        // before it stands.
        let p2 = path.clone();
        let (tx, rx) = std::sync::mpsc::channel();
        let t2 = tape.clone();
        let first = msg.clone();
        let _ = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let (_, ctx) = run_case(prop, Src::replay(t2.clone()), thorough);
            write_replay(&p2, prop.id, thorough, &tape_line(&t2), &first, Some(&ctx));
            let (best, m) = shrink(prop, t2, thorough, Duration::from_secs(60), &mut |t, m, c| {
                write_replay(&p2, prop.id, thorough, &tape_line(t), m, Some(c))
            });
            let (res, ctx) = run_case(prop, Src::replay(best.clone()), thorough);
            let m = match res {
                Res::Fail(e) => e,
                _ if m.is_empty() => first,
                _ => m,
            };
            write_replay(&p2, prop.id, thorough, &tape_line(&best), &m, Some(&ctx));
            let _ = tx.send((best, m, ctx));
        });
        let (best, m, ctx) = match rx.recv_timeout(Duration::from_secs(120)) {
            Ok(r) => r,
            Err(_) => {
                println!("case {} failed: {}", idx, show(msg.as_bytes(), 3000));
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                std::process::exit(1);
            }
        };
        println!("case {} failed; reduced to {} choices:", idx, best.len());
        for i in &ctx.inputs {
            println!("  input {:?}", show(i, 1000));
        }
        println!("  {}", show(m.as_bytes(), 3000));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    0
}

fn evidence(prop: &Prop, o: &Opts, st: &Stats, total: u64, cut: bool, violations: u64, wall: Duration) {
    let mut s = String::new();
    let labels =
        st.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let mut samples = st.samples.clone();
    samples.sort();
    samples.truncate(12);
    let samples = samples.iter().map(|(_, x)| json_str(x)).collect::<Vec<_>>().join(",\n   ");
    let asm = prop.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ");
    let _ = write!(
        s,
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"nontrivial\": {}, \"planned\": {}, \"stopped_by_budget\": {}, \"input_bytes\": {}, \"longest_input\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]}},\n \"assumptions\": [{}], \"violations\": {}, \"wall_s\": {:.2}}}\n",
        json_str(prop.id),
        json_str(&o.tier),
        o.seed,
        st.evaluations,
        st.distinct.len(),
        st.nontrivial,
        total,
        cut,
        st.bytes,
        st.max_input,
        json_str(prop.rule),
        labels,
        samples,
        asm,
        violations,
        wall.as_secs_f64()
    );
    let d = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", prop.id)), s);
}

/// Replays a file, under the watchdog. 0: holds, 1: fails, 70 or a signal: hangs or dies.
pub fn replay(props: &'static [Prop], path: &Path) -> i32 {
    install_hook();
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path.display(), e);
            return 2;
        }
    };
    let mut id = "";
    let mut thorough = false;
    let mut src = None;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x;
        } else if let Some(x) = l.strip_prefix("tier ") {
            thorough = x == "thorough";
        } else if let Some(x) = l.strip_prefix("tape ") {
            src = Some(Src::replay(x.split(',').filter_map(|v| v.parse().ok()).collect()));
            break;
        } else if let Some(x) = l.strip_prefix("case ") {
            let mut it = x.split(' ').filter_map(|v| v.parse::<u64>().ok());
            let (seed, idx) = (it.next().unwrap_or(1), it.next().unwrap_or(0));
            src = Some(Src::random(case_seed(seed, id, idx)));
            break;
        }
    }
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {:?}", id);
            return 2;
        }
    };
    let src = match src {
        Some(s) => s,
        None => return 2,
    };
    let slots: Arc<Vec<Slot>> = Arc::new(vec![Slot { tid: AtomicU64::new(0), case: AtomicU64::new(u64::MAX) }]);
    watchdog(slots.clone(), Arc::new(AtomicBool::new(false)));
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            slots[0].tid.store(own_tid(), SeqCst);
            slots[0].case.store(0, SeqCst);
            let (res, ctx) = run_case(prop, src, thorough);
            for i in &ctx.inputs {
                println!("input {:?}", show(i, 4000));
            }
            for n in &ctx.notes {
                println!("note {}", show(n.as_bytes(), 4000));
            }
            match res {
                Res::Pass => {
                    println!("holds");
                    0
                }
                Res::Fail(e) => {
                    println!("fails: {}", e);
                    1
                }
                Res::Broken(e) => {
                    println!("ERROR {}", e);
                    2
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(2)
}

/// Runs the worker in a child process and deals with its death.
pub fn supervise(prop: &'static Prop, o: &Opts, args: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let _ = std::fs::create_dir_all(o.root.join("replays"));
    let _ = std::fs::remove_file(replay_path(o, prop.id));
    let t0 = Instant::now();
    let st = std::process::Command::new(&exe).arg("worker").args(args).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            return 2;
        }
    };
    match st.code() {
        Some(c @ 0..=2) => return c,
        _ => {}
    }
    let path = replay_path(o, prop.id);
    println!("{} worker ended abnormally ({}); looking for the case", prop.id, st);
    // Died after a failure was found, while running it again or shrinking it: the replay file is there already
    if path.exists() {
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    let slots = std::fs::read(o.root.join("replays").join(format!("{}.slots", prop.id))).unwrap_or_default();
    let mut cases: Vec<u64> =
        slots.chunks(8).filter(|c| c.len() == 8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v > 0).collect();
    cases.sort_unstable();
    for c in cases {
        let tmp = o.root.join("replays").join(format!("{}.case", prop.id));
        write_replay(&tmp, prop.id, o.thorough(), &format!("case {} {}", o.seed, c - 1), "", None);
        let r = std::process::Command::new(&exe).arg("replay").arg(&tmp).output();
        if let Ok(out) = r {
            let code = out.status.code();
            if code != Some(0) && code != Some(2) {
                let what = match code {
                    Some(70) => format!("does not return (more than {} s of CPU)", HANG_CPU_S),
                    Some(1) => String::from_utf8_lossy(&out.stdout).to_string(),
                    _ => format!("process died: {}", out.status),
                };
                write_replay(&path, prop.id, o.thorough(), &format!("case {} {}", o.seed, c - 1), &what, None);
                let mut st = Stats::default();
                st.evaluations = c;
                evidence(prop, o, &st, c, false, 1, t0.elapsed());
                println!("case {}: {}", c - 1, what);
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                return 1;
            }
        }
    }
    println!("ERROR the abnormal end could not be reproduced");
    2
}

