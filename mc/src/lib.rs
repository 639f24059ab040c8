//! A small stateless model checker for sequential and controlled-concurrent Rust code.
//!
//! A scenario is a closure that resolves all nondeterminism through [`Cx::choose`]. The explorer
//! enumerates the complete choice tree depth first, in parallel worker processes (so that a crash of
//! the code under test is an observed outcome, not the end of the check).
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub mod guard;

/// Registers the guarding allocator; call once per binary.
#[macro_export]
macro_rules! guarded_binary {
    () => {
        #[global_allocator]
        static GLOBAL: $crate::guard::Guarding = $crate::guard::Guarding;
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Scenario {
    pub name: String,
    pub bounds: String,
    run: Box<dyn Fn(&mut Cx)>,
}
pub fn scenario(
    name: impl Into<String>,
    bounds: impl Into<String>,
    run: impl Fn(&mut Cx) + 'static,
) -> Scenario {
    Scenario {
        name: name.into(),
        bounds: bounds.into(),
        run: Box::new(run),
    }
}

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-1a with a final mix; deterministic across processes.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

struct Failure {
    sig: String,
    msg: String,
}
struct Skip;
struct Diverged(String);

const PATHMAX: usize = 4096;
#[repr(C)]
struct Shared {
    execs: AtomicU64,
    scen: AtomicU32,
    len: AtomicU32,
    path: [AtomicU32; PATHMAX],
}

pub struct Cx {
    pub tier: Tier,
    prefix: Vec<(u32, u32)>,
    trail: Vec<(u32, u32)>,
    labels: Vec<&'static str>,
    shared: Option<*const Shared>,
    worker: u64,
    workers: u64,
    prod: u64,
    idx: u64,
    owned: bool,
    devs: u32,
    pub dev_bound: u32,
    seed: u64,
    steps: u64,
    obs: u64,
    scen_hash: u64,
    states: IdSet,
    states_capped: bool,
    outcomes: BTreeMap<String, u64>,
    pending: Vec<u64>,
    pending_out: Vec<String>,
    verbose: bool,
    notes: Vec<String>,
    known: HashSet<String>,
    known_hits: BTreeMap<String, u64>,
    pending_known: Vec<String>,
}

const STATE_CAP: usize = 6_000_000;

impl Cx {
    fn new(tier: Tier) -> Self {
        Cx {
            tier,
            prefix: vec![],
            trail: vec![],
            labels: vec![],
            shared: None,
            worker: 0,
            workers: 1,
            prod: 1,
            idx: 0,
            owned: false,
            devs: 0,
            dev_bound: 0,
            seed: 1,
            steps: 0,
            obs: 0,
            scen_hash: 0,
            states: IdSet::default(),
            states_capped: false,
            outcomes: BTreeMap::new(),
            pending: vec![],
            pending_out: vec![],
            verbose: false,
            notes: vec![],
            known: HashSet::new(),
            known_hits: BTreeMap::new(),
            pending_known: vec![],
        }
    }

    /// Resolve one nondeterministic decision among `n` alternatives (0 is the default answer).
    pub fn choose(&mut self, label: &'static str, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize, "choose({label}, {n})");
        let i = self.trail.len();
        let c = if i < self.prefix.len() {
            let (c, m) = self.prefix[i];
            if m != 0 && m != n as u32 {
                resume_unwind(Box::new(Diverged(format!(
                    "choice {i} ({label}) has {n} alternatives, had {m}"
                ))));
            }
            if c as usize >= n {
                resume_unwind(Box::new(Diverged(format!(
                    "choice {i} ({label}): {c} out of {n}"
                ))));
            }
            c
        } else {
            0
        };
        self.trail.push((c, n as u32));
        if self.verbose {
            self.labels.push(label);
        }
        self.steps += 1;
        if let Some(s) = self.shared {
            if i < PATHMAX {
                unsafe {
                    (*s).path[i].store(c, Relaxed);
                    (*s).len.store(i as u32 + 1, Release);
                }
            }
        }
        if !self.owned {
            self.idx = self.idx * n as u64 + c as u64;
            self.prod *= n as u64;
            if self.prod >= self.workers * 64 {
                self.settle();
            }
        }
        c as usize
    }
    /// Decide now which worker explores the rest of this execution (before costly work).
    pub fn own(&mut self) {
        if !self.owned {
            self.settle()
        }
    }
    fn settle(&mut self) {
        let h = hash_of(&(self.seed, self.idx));
        if self.workers > 1 && h % self.workers != self.worker {
            resume_unwind(Box::new(Skip));
        }
        self.owned = true;
    }
    pub fn flag(&mut self, label: &'static str) -> bool {
        self.choose(label, 2) == 1
    }
    pub fn pick<'a, T>(&mut self, label: &'static str, xs: &'a [T]) -> &'a T {
        &xs[self.choose(label, xs.len())]
    }
    /// Choice in `lo..=hi`.
    pub fn range(&mut self, label: &'static str, lo: usize, hi: usize) -> usize {
        lo + self.choose(label, hi - lo + 1)
    }
    /// A choice whose non-default answers count against the deviation bound.
    pub fn dev(&mut self, label: &'static str, n: usize) -> usize {
        if self.devs >= self.dev_bound || n == 1 {
            return 0;
        }
        let c = self.choose(label, n);
        if c != 0 {
            self.devs += 1;
        }
        c
    }
    /// A permutation of 0..n.
    pub fn perm(&mut self, label: &'static str, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = Vec::with_capacity(n);
        while !rest.is_empty() {
            let k = if rest.len() == 1 {
                0
            } else {
                self.choose(label, rest.len())
            };
            out.push(rest.remove(k));
        }
        out
    }
    /// Record a visited (canonical) state.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = hash_of(&(self.scen_hash, hash_of(t)));
        self.obs = hash_of(&(self.obs, h));
        self.pending.push(h);
    }
    /// Fold an observation into the determinism check without counting a state.
    pub fn observe<T: Hash + ?Sized>(&mut self, t: &T) {
        self.obs = hash_of(&(self.obs, hash_of(t)));
    }
    /// One executed operation of the code under test.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// `n` executed operations of the code under test.
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
    pub fn outcome(&mut self, s: impl Into<String>) {
        self.pending_out.push(s.into());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
    pub fn verbose(&self) -> bool {
        self.verbose
    }
    /// Report a violation. `sig` identifies the failing input class for the known-findings file.
    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) -> ! {
        guard::force_off();
        resume_unwind(Box::new(Failure {
            sig: sig.into(),
            msg: msg.into(),
        }))
    }
    #[track_caller]
    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.fail(sig.to_string(), m)
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, sig: &str) {
        if got != want {
            self.fail(
                sig.to_string(),
                format!("{sig}: got {got:?}, expected {want:?}"),
            )
        }
    }
    /// Run code under test; a panic becomes `Err(message)`.
    pub fn catch<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.steps += 1;
        catch(f)
    }

    fn reset(&mut self, prefix: Vec<(u32, u32)>) {
        self.prefix = prefix;
        self.trail.clear();
        self.labels.clear();
        self.prod = 1;
        self.idx = 0;
        self.owned = self.workers == 1;
        self.devs = 0;
        self.dev_bound = 0;
        self.obs = 0;
        self.pending.clear();
        self.pending_out.clear();
        self.pending_known.clear();
        self.notes.clear();
        if let Some(s) = self.shared {
            unsafe { (*s).len.store(0, Release) }
        }
    }
    fn commit(&mut self) {
        for h in self.pending.drain(..) {
            if self.states.len() < STATE_CAP {
                self.states.insert(h);
            } else {
                self.states_capped = true;
            }
        }
        for o in self.pending_out.drain(..) {
            if let Some(n) = self.outcomes.get_mut(&o) {
                *n += 1;
            } else if self.outcomes.len() < 2000 {
                self.outcomes.insert(o, 1);
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run code under test; a panic becomes `Err(message)`; explorer-internal unwinds pass through.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => guard::off(|| {
            if p.is::<Failure>() || p.is::<Skip>() || p.is::<Diverged>() {
                resume_unwind(p);
            }
            let here = LAST_PANIC.with(|l| l.borrow_mut().take());
            Err(here.unwrap_or_else(|| payload_text(&*p)))
        }),
    }
}

enum End {
    Ok,
    Skip,
    Fail(Failure),
    Diverged(String),
}

fn run_once(sc: &Scenario, cx: &mut Cx, prefix: Vec<(u32, u32)>) -> End {
    cx.reset(prefix);
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| {
        (sc.run)(cx);
        if !cx.owned {
            cx.settle();
        }
    }));
    guard::force_off();
    match r {
        Ok(()) => {
            if cx.trail.len() < cx.prefix.len() {
                return End::Diverged("execution ended before its prefix did".into());
            }
            End::Ok
        }
        Err(p) => {
            if p.is::<Skip>() {
                End::Skip
            } else if p.is::<Diverged>() {
                End::Diverged(p.downcast::<Diverged>().unwrap().0)
            } else if p.is::<Failure>() {
                End::Fail(*p.downcast::<Failure>().unwrap())
            } else {
                let m = LAST_PANIC
                    .with(|l| l.borrow_mut().take())
                    .unwrap_or_else(|| payload_text(&*p));
                // a panic nobody expected: the harness only lets panics of the code under test through
                End::Fail(Failure {
                    sig: "panic".into(),
                    msg: format!("panic: {m}"),
                })
            }
        }
    }
}

fn next_prefix(trail: &[(u32, u32)]) -> Option<Vec<(u32, u32)>> {
    let mut k = trail.len();
    while k > 0 {
        let (c, n) = trail[k - 1];
        if c + 1 < n {
            let mut p = trail[..k].to_vec();
            p[k - 1].0 += 1;
            return Some(p);
        }
        k -= 1;
    }
    None
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    cmd: String,
    kv: BTreeMap<String, String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.kv.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

fn read_known(a: &Args, prop: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    if let Some(t) = a.get("known").and_then(|p| std::fs::read_to_string(p).ok()) {
        for line in t.lines() {
            // known: property=Cxx sig=<signature>
            if let Some(rest) = line.strip_prefix("known: property=") {
                if let Some((p, s)) = rest.split_once(" sig=") {
                    if p == prop {
                        out.insert(s.trim().to_string());
                    }
                }
            }
        }
    }
    out
}

pub fn main(prop: &'static str, scenarios: fn(Tier) -> Vec<Scenario>) {
    let mut argv = std::env::args().skip(1);
    let cmd = argv.next().unwrap_or_else(|| "run".into());
    let mut kv = BTreeMap::new();
    let rest: Vec<String> = argv.collect();
    let mut i = 0;
    while i + 1 < rest.len() {
        kv.insert(
            rest[i].trim_start_matches('-').to_string(),
            rest[i + 1].clone(),
        );
        i += 2;
    }
    let a = Args { cmd, kv };
    let tier = if a.get("tier") == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    std::panic::set_hook(Box::new(|info| {
        guard::off(|| {
            let loc = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let text = payload_text(info.payload());
            let msg = format!("{text}{loc}");
            if text.contains("unsafe precondition") || text.contains("cannot unwind") {
                eprintln!("{msg}");
            }
            LAST_PANIC.with(|l| {
                if let Ok(mut l) = l.try_borrow_mut() {
                    *l = Some(msg)
                }
            });
        })
    }));
    let code = match a.cmd.as_str() {
        "worker" => worker(prop, &a, tier, scenarios(tier)),
        "replay" => replay(prop, &a, scenarios),
        "run" => parent(prop, &a, tier, scenarios(tier)),
        _ => {
            eprintln!("usage: run|replay");
            2
        }
    };
    std::process::exit(code);
}

unsafe fn map_shared(path: &str, create: bool) -> *const Shared {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path)
        .expect("shared file");
    let len = std::mem::size_of::<Shared>();
    if create {
        f.set_len(len as u64).expect("shared file size");
    }
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        f.as_raw_fd(),
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *const Shared
}

fn rlimit_as(bytes: u64) {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: bytes,
            rlim_max: bytes,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        // threads must not reserve an arena of address space each
        libc::mallopt(libc::M_ARENA_MAX, 2);
    }
}

fn worker(prop: &str, a: &Args, tier: Tier, scs: Vec<Scenario>) -> i32 {
    rlimit_as(a.num("as", 3 << 30));
    let shared = unsafe { map_shared(a.get("shared").unwrap(), false) };
    let out = a.get("out").unwrap().to_string();
    let only = a.get("scenario").map(|s| s.to_string());
    let deadline = Instant::now() + Duration::from_secs(a.num("budget", 600));
    let mut cx = Cx::new(tier);
    cx.shared = Some(shared);
    cx.worker = a.num("worker", 0);
    cx.workers = a.num("workers", 1);
    cx.seed = a.num("seed", 1);
    cx.known = read_known(a, prop);
    let mut j = String::new();
    let mut fails = 0;
    let mut code = 0;
    j.push_str("{\"scenarios\":[");
    let mut states_file = std::fs::File::create(format!("{out}.states")).unwrap();
    let mut first = true;
    'scen: for (si, sc) in scs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != sc.name) {
            continue;
        }
        unsafe { (*shared).scen.store(si as u32, Release) };
        cx.scen_hash = hash_of(&sc.name);
        cx.states.clear();
        cx.states_capped = false;
        cx.outcomes.clear();
        cx.known_hits.clear();
        cx.steps = 0;
        let mut execs = 0u64;
        let mut steps = 0u64;
        let mut maxlen = 0usize;
        let mut complete = true;
        let mut recheck = 1u64;
        let mut rechecked = 0u64;
        let mut failures = String::new();
        let mut samples: Vec<String> = vec![];
        let mut prefix = Some(vec![]);
        while let Some(p) = prefix {
            unsafe { (*shared).execs.fetch_add(1, Release) };
            cx.steps = 0;
            let end = run_once(sc, &mut cx, p);
            let mut failure = None;
            match end {
                End::Skip => {}
                End::Ok => {
                    execs += 1;
                    steps += cx.steps;
                    maxlen = maxlen.max(cx.trail.len());
                    cx.commit();
                    if execs == recheck {
                        recheck = recheck * 3 + 1;
                        rechecked += 1;
                        let trail = cx.trail.clone();
                        let obs = cx.obs;
                        cx.verbose = true;
                        let e2 = run_once(sc, &mut cx, trail.clone());
                        cx.verbose = false;
                        if let End::Fail(mut f) = e2 {
                            // the code under test remembers earlier calls: it failed this time
                            f.msg.push_str(" (when the same was done once more)");
                            cx.trail = trail;
                            failure = Some(f);
                        } else if !matches!(e2, End::Ok) || cx.obs != obs || cx.trail != trail {
                            eprintln!(
                                "ERROR nondeterministic harness in {}: path {:?}",
                                sc.name,
                                trail.iter().map(|x| x.0).collect::<Vec<_>>()
                            );
                            code = 3;
                            break 'scen;
                        }
                        if samples.len() < 3 || execs > 1000 {
                            if samples.len() >= 4 {
                                samples.pop();
                            }
                            samples.push(describe(&cx));
                        }
                    }
                }
                End::Diverged(m) => {
                    eprintln!("ERROR divergence in {}: {m}", sc.name);
                    code = 3;
                    break 'scen;
                }
                End::Fail(f) => {
                    execs += 1;
                    steps += cx.steps;
                    failure = Some(f);
                }
            }
            if let Some(f) = failure {
                if !cx.owned && cx.workers > 1 {
                    // failure before the partition point: report once, from worker 0
                    if cx.worker != 0 {
                        prefix = next_prefix(&cx.trail);
                        continue;
                    }
                }
                if cx.known.contains(&f.sig) {
                    *cx.known_hits.entry(f.sig).or_insert(0) += 1;
                } else {
                    if !failures.is_empty() {
                        failures.push(',');
                    }
                    let path: Vec<String> = cx.trail.iter().map(|x| x.0.to_string()).collect();
                    let _ = write!(
                        failures,
                        "{{\"sig\":{},\"msg\":{},\"path\":[{}]}}",
                        js(&f.sig),
                        js(&f.msg),
                        path.join(",")
                    );
                    fails += 1;
                    if fails >= 3 {
                        complete = false;
                    }
                }
            }
            if fails >= 3 {
                break;
            }
            prefix = next_prefix(&cx.trail);
            if prefix.is_some() && execs % 64 == 0 && Instant::now() > deadline {
                complete = false;
                break;
            }
        }
        if !first {
            j.push(',');
        }
        first = false;
        let _ = write!(
            j,
            "{{\"name\":{},\"execs\":{execs},\"steps\":{steps},\"maxlen\":{maxlen},\"complete\":{complete},\"rechecked\":{rechecked},\"states_capped\":{},\"nstates\":{},\"failures\":[{failures}],\"outcomes\":{{{}}},\"known\":{{{}}},\"samples\":[{}]}}",
            js(&sc.name),
            cx.states_capped,
            cx.states.len(),
            cx.outcomes
                .iter()
                .map(|(k, v)| format!("{}:{v}", js(k)))
                .collect::<Vec<_>>()
                .join(","),
            cx.known_hits
                .iter()
                .map(|(k, v)| format!("{}:{v}", js(k)))
                .collect::<Vec<_>>()
                .join(","),
            samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        );
        let mut buf = Vec::with_capacity(8 * cx.states.len() + 16);
        buf.extend_from_slice(&(si as u64).to_le_bytes());
        buf.extend_from_slice(&(cx.states.len() as u64).to_le_bytes());
        for s in &cx.states {
            buf.extend_from_slice(&s.to_le_bytes());
        }
        states_file.write_all(&buf).unwrap();
        if fails >= 3 {
            break;
        }
    }
    let _ = write!(
        j,
        "],\"guard_allocs\":{},\"guard_fallbacks\":{}}}",
        guard::allocs(),
        guard::fallbacks()
    );
    std::fs::write(&out, j).unwrap();
    code
}

fn describe(cx: &Cx) -> String {
    let ch: Vec<String> = cx
        .labels
        .iter()
        .zip(&cx.trail)
        .map(|(l, (c, n))| format!("{l}={c}/{n}"))
        .collect();
    let mut s = ch.join(" ");
    if s.len() > 900 {
        let mut k = 900;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    for n in cx.notes.iter().take(12) {
        s.push_str(" | ");
        s.push_str(n);
    }
    s
}

fn replay(prop: &str, a: &Args, scenarios: fn(Tier) -> Vec<Scenario>) -> i32 {
    rlimit_as(a.num("as", 3 << 30));
    let text = std::fs::read_to_string(a.get("file").expect("--file")).expect("replay file");
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}: ")))
            .map(|s| s.to_string())
    };
    let tier = if get("tier").as_deref() == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let name = get("scenario").expect("scenario");
    let path: Vec<(u32, u32)> = get("path")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| (s.parse().unwrap(), 0))
        .collect();
    let scs = scenarios(tier);
    let Some(sc) = scs.iter().find(|s| s.name == name) else {
        eprintln!("no scenario {name}");
        return 2;
    };
    let mut cx = Cx::new(tier);
    cx.seed = get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    cx.verbose = a.get("quiet").is_none();
    let end = run_once(sc, &mut cx, path);
    let d = describe(&cx);
    println!("property {prop}, scenario {name}");
    println!("{d}");
    match end {
        End::Ok => {
            println!("RESULT ok");
            0
        }
        End::Fail(f) => {
            println!("RESULT fail sig={} {}", f.sig, f.msg);
            1
        }
        End::Skip => 2,
        End::Diverged(m) => {
            println!("RESULT diverged {m}");
            2
        }
    }
}

struct W {
    child: Child,
    shared: *const Shared,
    out: String,
    err: String,
    last: u64,
    since: Instant,
    done: bool,
}

fn spawn(dir: &str, a: &Args, i: u64, n: u64, budget: u64) -> W {
    let exe = std::env::current_exe().unwrap();
    let sh = format!("{dir}/shared{i}");
    let out = format!("{dir}/out{i}");
    let err = format!("{dir}/err{i}");
    let shared = unsafe { map_shared(&sh, true) };
    let mut c = Command::new(exe);
    c.arg("worker")
        .args(["--worker", &i.to_string(), "--workers", &n.to_string()])
        .args(["--shared", &sh, "--out", &out])
        .args(["--budget", &budget.to_string()])
        .args(["--seed", a.get("seed").unwrap_or("1")])
        .args(["--tier", a.get("tier").unwrap_or("quick")]);
    for k in ["known", "scenario", "as"] {
        if let Some(v) = a.get(k) {
            c.args([&format!("--{k}"), v]);
        }
    }
    c.stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&err).unwrap());
    W {
        child: c.spawn().expect("spawn worker"),
        shared,
        out,
        err,
        last: 0,
        since: Instant::now(),
        done: false,
    }
}

/// Parent: runs the workers, watches for crashes and hangs, writes a JSON summary to --json.
fn parent(prop: &str, a: &Args, tier: Tier, scs: Vec<Scenario>) -> i32 {
    let t0 = Instant::now();
    let n = a.num("jobs", 8);
    let budget = a.num("budget", tier.pick(240, 3000));
    let hang = Duration::from_secs(a.num("hang", 60));
    let dir = format!(
        "{}/mc-{}-{}",
        std::env::temp_dir().display(),
        prop,
        std::process::id()
    );
    std::fs::create_dir_all(&dir).unwrap();
    let mut ws: Vec<W> = (0..n).map(|i| spawn(&dir, a, i, n, budget)).collect();
    // (scenario, path, sig, msg)
    let mut found: Vec<(usize, Vec<u32>, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let path_of = |w: &W| -> (usize, Vec<u32>) {
        unsafe {
            let s = &*w.shared;
            let len = (s.len.load(Acquire) as usize).min(PATHMAX);
            (
                s.scen.load(Acquire) as usize,
                (0..len).map(|k| s.path[k].load(Relaxed)).collect(),
            )
        }
    };
    loop {
        let mut alive = 0;
        for w in ws.iter_mut().filter(|w| !w.done) {
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(sig) = st.signal() {
                        let (si, p) = path_of(w);
                        let mut e = String::new();
                        let _ = std::fs::File::open(&w.err).map(|mut f| f.read_to_string(&mut e));
                        let e: String = e.chars().take(1500).collect();
                        found.push((
                            si,
                            p,
                            format!("signal{sig}"),
                            format!(
                                "the process was ended by signal {sig} in this execution: {}",
                                e.trim()
                            ),
                        ));
                    } else if st.code() != Some(0) {
                        let e = std::fs::read_to_string(&w.err).unwrap_or_default();
                        errors.push(format!("worker exit {:?}: {}", st.code(), e.trim()));
                    }
                }
                None => {
                    alive += 1;
                    let x = unsafe { (*w.shared).execs.load(Acquire) };
                    if x != w.last {
                        w.last = x;
                        w.since = Instant::now();
                    } else if x > 0 && w.since.elapsed() > hang {
                        let (si, p) = path_of(w);
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        found.push((
                            si,
                            p,
                            "hang".into(),
                            format!("no end within {} s", hang.as_secs()),
                        ));
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        if !found.is_empty() && ws.iter().any(|w| !w.done) && t0.elapsed() > Duration::from_secs(2)
        {
            // one confirmed crash is enough; do not wait for the rest
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    // merge
    let mut per: BTreeMap<usize, IdSet> = BTreeMap::new();
    let mut worker_json = vec![];
    for w in &ws {
        if let Ok(t) = std::fs::read_to_string(&w.out) {
            worker_json.push(t);
        }
        if let Ok(b) = std::fs::read(format!("{}.states", w.out)) {
            let mut k = 0;
            while k + 16 <= b.len() {
                let si = u64::from_le_bytes(b[k..k + 8].try_into().unwrap()) as usize;
                let m = u64::from_le_bytes(b[k + 8..k + 16].try_into().unwrap()) as usize;
                k += 16;
                let set = per.entry(si).or_default();
                for _ in 0..m {
                    set.insert(u64::from_le_bytes(b[k..k + 8].try_into().unwrap()));
                    k += 8;
                }
            }
        }
    }
    let crash: Vec<String> = found
        .iter()
        .map(|(si, p, sig, msg)| {
            format!(
                "{{\"scenario\":{},\"path\":[{}],\"sig\":{},\"msg\":{}}}",
                js(scs.get(*si).map(|s| s.name.as_str()).unwrap_or("?")),
                p.iter()
                    .map(|x| x.to_string())
                    .collect::<Vec<_>>()
                    .join(","),
                js(sig),
                js(msg)
            )
        })
        .collect();
    let j = format!(
        "{{\"property\":{},\"wall_s\":{:.3},\"workers\":[{}],\"states\":{{{}}},\"bounds\":{{{}}},\"crashes\":[{}],\"errors\":[{}]}}",
        js(prop),
        t0.elapsed().as_secs_f64(),
        worker_json.join(","),
        per.iter()
            .map(|(si, s)| format!("{}:{}", js(&scs[*si].name), s.len()))
            .collect::<Vec<_>>()
            .join(","),
        scs.iter()
            .map(|s| format!("{}:{}", js(&s.name), js(&s.bounds)))
            .collect::<Vec<_>>()
            .join(","),
        crash.join(","),
        errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    std::fs::write(a.get("json").expect("--json"), j).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    0
}
