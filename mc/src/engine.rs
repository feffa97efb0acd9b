//! Exploration engine: worker pool over a shared work stack, watchdog, violation
//! collection, evidence output.  Exploration never samples: every work item pushed is
//! processed unless a violation stops the run.
use crate::sut::{self, Out, Tok, Tree};
use serde_json::{json, Map, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ----- memory accounting (per worker) -----
pub struct Counting;
thread_local! {
    static NET: Cell<*const AtomicI64> = const { Cell::new(std::ptr::null()) };
    static CUR: Cell<*const Slot> = const { Cell::new(std::ptr::null()) };
}
fn account(d: i64) {
    let _ = NET.try_with(|p| {
        let p = p.get();
        if !p.is_null() {
            // only the owning thread writes
            let a = unsafe { &*p };
            a.store(a.load(Relaxed) + d, Relaxed);
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[repr(align(128))]
pub struct Slot {
    start_ms: AtomicU64, // 0 = idle, otherwise ms since epoch of the run + 1
    net: AtomicI64,
    base: AtomicI64,
    text: Mutex<String>,
}

pub const CALL_LIMIT_MS: u64 = 20_000;
pub const MEM_LIMIT: i64 = 2 << 30;
pub const STACK: usize = 256 << 20;

#[derive(Clone)]
pub struct Violation {
    pub input: String,
    pub what: String,
    pub data: Value,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub t0: Instant,
    pub stop: AtomicBool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub execs: AtomicU64,
    pub viol: Mutex<Vec<Violation>>,
    pub extra: Mutex<Map<String, Value>>,
    pub samples: Mutex<Vec<Value>>,
    pub counters: Mutex<HashMap<String, u64>>,
    pub nworkers: usize,
    pub assumptions: Mutex<Vec<String>>,
    pub known: Vec<(String, String)>,
    pub known_hit: Mutex<Vec<String>>,
}

pub struct Worker<'a> {
    pub ctx: &'a Ctx,
    slot: &'a Slot,
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub counters: HashMap<&'static str, u64>,
    pub id: usize,
}

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn open(p: *const u8, flags: i32, mode: u32) -> i32;
    fn _exit(c: i32) -> !;
}
static mut ABORT_PROP: [u8; 8] = [0; 8];
static mut ABORT_PATH: [u8; 256] = [0; 256];

/// A stack overflow inside the code under test ends in SIGABRT raised by the runtime on the
/// overflowing thread's alternate stack: report it as a violation with the current input.
extern "C" fn on_abort(_s: i32) {
    unsafe {
        let p = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null());
        if p.is_null() {
            _exit(3);
        }
        let path = &raw const ABORT_PATH as *const u8;
        let fd = open(path, 0o1101, 0o644);
        if let Ok(g) = (*p).text.try_lock() {
            write(fd, g.as_ptr(), g.len());
        }
        let m = b"VIOLATION property=";
        write(1, m.as_ptr(), m.len());
        let pp = &raw const ABORT_PROP as *const u8;
        let n = (0..8).position(|i| *pp.add(i) == 0).unwrap_or(8);
        write(1, pp, n);
        let m = b" replay=";
        write(1, m.as_ptr(), m.len());
        let n = (0..256).position(|i| *path.add(i) == 0).unwrap_or(256);
        write(1, path, n);
        let m = b" (crash: stack overflow or abort)\n";
        write(1, m.as_ptr(), m.len());
        _exit(1);
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        let dir = format!("{}/evidence/replay", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        unsafe {
            let path = format!("{}/{}.crash.txt", dir, prop);
            let dst = &raw mut ABORT_PATH as *mut u8;
            for (i, b) in path.bytes().take(255).enumerate() {
                *dst.add(i) = b;
            }
            let dst = &raw mut ABORT_PROP as *mut u8;
            for (i, b) in prop.bytes().take(7).enumerate() {
                *dst.add(i) = b;
            }
            signal(6, on_abort as *const () as usize);
        }
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir())) {
            if let Ok(Value::Array(a)) = serde_json::from_str::<Value>(&s) {
                for k in a {
                    if k["status"] == "known" && k["property"] == prop {
                        known.push((
                            k["input"].as_str().unwrap_or("").to_string(),
                            k["what"].as_str().unwrap_or("").to_string(),
                        ));
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            t0: Instant::now(),
            stop: AtomicBool::new(false),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            execs: AtomicU64::new(0),
            viol: Mutex::new(vec![]),
            extra: Mutex::new(Map::new()),
            samples: Mutex::new(vec![]),
            counters: Mutex::new(HashMap::new()),
            nworkers: std::env::var("MC_WORKERS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| {
                    std::thread::available_parallelism()
                        .map(|n| n.get())
                        .unwrap_or(4)
                        .min(16)
                }),
            assumptions: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(vec![]),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    pub fn note(&self, k: &str, v: Value) {
        self.extra.lock().unwrap().insert(k.into(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn violation(&self, input: &str, what: String, data: Value) {
        for (i, w) in &self.known {
            if i == input {
                let mut k = self.known_hit.lock().unwrap();
                if !k.contains(w) {
                    k.push(w.clone());
                }
                return;
            }
        }
        let mut v = self.viol.lock().unwrap();
        if v.len() < 3000000 {
            v.push(Violation {
                input: input.into(),
                what,
                data,
            });
        }
        let max: usize = std::env::var("MC_MAXVIOL")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        if v.len() >= max {
            self.stop.store(true, SeqCst);
        }
    }
    fn emergency(&self, text: &str, what: &str) -> ! {
        let path = format!("{}/evidence/replay/{}.json", verif_dir(), self.prop);
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({"property": self.prop, "input": text, "what": what}))
                .unwrap(),
        );
        self.write_evidence(1);
        println!("VIOLATION property={} replay={}", self.prop, path);
        println!("  {}: {:?}", what, text.chars().take(300).collect::<String>());
        std::process::exit(1);
    }
    pub fn write_evidence(&self, violations: usize) {
        let mut cov = self.extra.lock().unwrap().clone();
        cov.insert("states".into(), json!(self.states.load(SeqCst)));
        cov.insert("transitions".into(), json!(self.transitions.load(SeqCst)));
        cov.insert(
            "traces_validated_against_impl".into(),
            json!(self.execs.load(SeqCst)),
        );
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.entry("exhaustive".to_string()).or_insert(json!(violations == 0));
        let c = self.counters.lock().unwrap();
        let mut m = Map::new();
        let mut ks: Vec<_> = c.keys().cloned().collect();
        ks.sort();
        for k in ks {
            m.insert(k.clone(), json!(c[&k]));
        }
        cov.insert("counters".into(), Value::Object(m));
        let seed: i64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.elapsed(),
            "violations": violations,
        });
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{}/{}.json", dir, self.prop),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("cannot write evidence");
    }
    /// Report and return the exit code.
    pub fn finish(&self) -> i32 {
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        let mut v = self.viol.lock().unwrap().clone();
        v.sort_by_key(|v| v.input.len());
        self.write_evidence(v.len());
        println!(
            "{}: states={} transitions={} executions={} violations={} wall={:.1}s",
            self.prop,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.execs.load(SeqCst),
            v.len(),
            self.elapsed()
        );
        let c = self.counters.lock().unwrap();
        let mut ks: Vec<_> = c.iter().collect();
        ks.sort();
        println!(
            "  {}",
            ks.iter()
                .map(|(k, v)| format!("{}={}", k, v))
                .collect::<Vec<_>>()
                .join(" ")
        );
        if v.is_empty() {
            return 0;
        }
        let path = format!("{}/evidence/replay/{}.json", verif_dir(), self.prop);
        let f = &v[0];
        std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": self.prop, "input": f.input, "what": f.what, "data": f.data
            }))
            .unwrap(),
        )
        .expect("cannot write replay");
        println!("VIOLATION property={} replay={}", self.prop, path);
        let show: usize = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        if std::env::var("MC_DISTINCT").is_ok() {
            // triage aid: one input per distinct message
            let mut seen = std::collections::HashSet::new();
            v.retain(|f| seen.insert(f.what.clone()));
            println!("  {} distinct", v.len());
        }
        for f in v.iter().take(show) {
            println!("  input: {:?}\n  {}", f.input, f.what);
        }
        1
    }

    /// Process a stack of work items with all workers; `f` may push further items.
    pub fn run<T: Send>(
        &self,
        roots: Vec<T>,
        f: impl Fn(&mut Worker, T, &mut Vec<T>) + Sync,
    ) {
        let mut roots = roots;
        roots.reverse();
        let pending = AtomicUsize::new(roots.len());
        let stack = Mutex::new(roots);
        let slots: Vec<Slot> = (0..self.nworkers)
            .map(|_| Slot {
                start_ms: AtomicU64::new(0),
                net: AtomicI64::new(0),
                base: AtomicI64::new(0),
                text: Mutex::new(String::new()),
            })
            .collect();
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.nworkers)
                .map(|i| {
                    let (slots, stack, pending, f) = (&slots, &stack, &pending, &f);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            let slot = &slots[i];
                            NET.with(|n| n.set(&slot.net));
                            CUR.with(|n| n.set(slot));
                            let mut w = Worker {
                                ctx: self,
                                slot,
                                states: 0,
                                transitions: 0,
                                execs: 0,
                                counters: HashMap::new(),
                                id: i,
                            };
                            let mut local: Vec<T> = vec![];
                            loop {
                                if self.stopped() {
                                    break;
                                }
                                let item = match local.pop() {
                                    Some(x) => Some(x),
                                    None => stack.lock().unwrap().pop(),
                                };
                                match item {
                                    Some(x) => {
                                        let n0 = local.len();
                                        f(&mut w, x, &mut local);
                                        let n1 = local.len();
                                        if n1 > n0 {
                                            pending.fetch_add(n1 - n0, SeqCst);
                                        }
                                        if local.len() > 8 {
                                            let mut g = stack.lock().unwrap();
                                            if g.len() < 64 {
                                                // share the oldest half
                                                let k = local.len() / 2;
                                                let rest = local.split_off(k);
                                                g.extend(local.drain(..));
                                                local = rest;
                                            }
                                        }
                                        pending.fetch_sub(1, SeqCst);
                                    }
                                    None => {
                                        if pending.load(SeqCst) == 0 {
                                            break;
                                        }
                                        std::thread::sleep(Duration::from_micros(200));
                                    }
                                }
                            }
                            NET.with(|n| n.set(std::ptr::null()));
                            CUR.with(|n| n.set(std::ptr::null()));
                            self.states.fetch_add(w.states, SeqCst);
                            self.transitions.fetch_add(w.transitions, SeqCst);
                            self.execs.fetch_add(w.execs, SeqCst);
                            let mut c = self.counters.lock().unwrap();
                            for (k, v) in w.counters {
                                *c.entry(k.to_string()).or_insert(0) += v;
                            }
                        })
                        .expect("spawn")
                })
                .collect();
            let (slots_, done_) = (&slots, &done);
            s.spawn(move || {
                while !done_.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(10));
                    let now = self.t0.elapsed().as_millis() as u64 + 1;
                    for sl in slots_ {
                        let st = sl.start_ms.load(SeqCst);
                        if st == 0 {
                            continue;
                        }
                        let mem = sl.net.load(Relaxed) - sl.base.load(Relaxed);
                        if mem > MEM_LIMIT && sl.start_ms.load(SeqCst) == st {
                            let t = sl.text.lock().unwrap().clone();
                            self.emergency(&t, "the call uses memory without bound");
                        }
                        if now > st + CALL_LIMIT_MS && sl.start_ms.load(SeqCst) == st {
                            let t = sl.text.lock().unwrap().clone();
                            self.emergency(&t, "the call does not return");
                        }
                    }
                }
            });
            let mut bad = None;
            for h in hs {
                if let Err(e) = h.join() {
                    bad = Some(e);
                }
            }
            done.store(true, SeqCst);
            if let Some(e) = bad {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                eprintln!("internal error of the checker: {}", m);
                std::process::exit(3);
            }
        });
    }
}

impl<'a> Worker<'a> {
    fn begin(&mut self, text: &str) {
        {
            let mut g = self.slot.text.lock().unwrap();
            g.clear();
            g.push_str(text);
        }
        self.slot.base.store(self.slot.net.load(Relaxed), Relaxed);
        self.slot
            .start_ms
            .store(self.ctx.t0.elapsed().as_millis() as u64 + 1, SeqCst);
        self.execs += 1;
    }
    fn end(&mut self) {
        self.slot.start_ms.store(0, SeqCst);
    }
    pub fn tokenize(&mut self, text: &str) -> Out<Vec<Tok>> {
        self.begin(text);
        let r = sut::raw_tokenize(text);
        self.end();
        r
    }
    pub fn parse(&mut self, text: &str) -> Out<Vec<Tree>> {
        self.begin(text);
        let r = sut::raw_parse(text);
        self.end();
        r
    }
    /// any other call into the code under test, watched like parse
    pub fn guard<R>(&mut self, text: &str, f: impl FnOnce() -> R) -> R {
        self.begin(text);
        let r = f();
        self.end();
        r
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn violation(&self, input: &str, what: String) {
        self.ctx.violation(input, what, Value::Null);
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        if let Ok(mut s) = self.ctx.samples.try_lock() {
            if s.len() < 6 {
                s.push(v());
            }
        }
    }
}
