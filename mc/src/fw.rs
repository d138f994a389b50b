//! Exploration framework: workers, traces, tallies, violations, replay files, evidence.
use crate::cal::*;
use crate::sut::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Step {
    Put(String, Vec<u8>),
    Run(Req),
    /// a run whose file operations were answered one by one (Go where the list ends)
    Stepped(Req, Vec<Act>),
    /// two runs at once: the schedule says whose operation comes next
    Pair(Req, Req, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub trace: Vec<Step>,
}
pub type Check = Result<(), Violation>;

#[derive(Default)]
pub struct Tally {
    /// executions of the real program
    pub runs: u64,
    /// complete behaviours whose every observation was compared with the model
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: BTreeSet<String>,
}
impl Tally {
    fn merge(&mut self, o: Tally) {
        self.runs += o.runs;
        self.traces += o.traces;
        self.states.extend(o.states);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.notes.extend(o.notes);
    }
}

pub struct Ctx {
    pub srv: Server,
    second: Option<Server>,
    bin: PathBuf,
    shim: PathBuf,
    pub trace: Vec<Step>,
    pub t: Tally,
    pub sample: bool,
}

pub fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(bin: &Path, shim: &Path, root: &Path) -> Ctx {
        Ctx {
            srv: Server::spawn(bin, shim, root),
            second: None,
            bin: bin.into(),
            shim: shim.into(),
            trace: vec![],
            t: Tally::default(),
            sample: false,
        }
    }
    pub fn reset(&mut self) {
        self.srv.clear();
        self.trace.clear();
    }
    pub fn put(&mut self, rel: &str, s: &str) {
        self.put_bytes(rel, s.as_bytes())
    }
    pub fn put_bytes(&mut self, rel: &str, s: &[u8]) {
        self.srv.put_bytes(rel, s);
        self.trace.push(Step::Put(rel.into(), s.to_vec()));
    }
    pub fn get(&self, rel: &str) -> String {
        self.srv.get(rel)
    }
    pub fn run(&mut self, r: &Req) -> Res {
        self.t.runs += 1;
        self.trace.push(Step::Run(r.clone()));
        self.srv.run(r)
    }
    /// One run with its file operations answered by `f` (point number, kind, size, path).
    pub fn run_stepped(&mut self, r: &Req, mut f: impl FnMut(usize, u8, u64, &str) -> Act) -> (Vec<Act>, Res) {
        self.t.runs += 1;
        let mut acts = vec![];
        let mut ev = self.srv.start(r);
        loop {
            match ev {
                Ev::Point { kind, size, path } => {
                    if acts.len() > 5000 {
                        panic!("more than 5000 file operations in one run");
                    }
                    let a = f(acts.len(), kind, size, &path);
                    acts.push(a);
                    ev = self.srv.answer(a);
                }
                Ev::End(res) => {
                    self.trace.push(Step::Stepped(r.clone(), acts.clone()));
                    return (acts, res);
                }
            }
        }
    }
    /// Two runs at once on the same files. `f` picks 0 or 1 among the runs that still have an operation
    /// to do. Returns the schedule, the points of each and the results.
    pub fn run_pair(&mut self, a: &Req, b: &Req, mut f: impl FnMut(&[u8], (u8, &str), (u8, &str)) -> u8) -> (Vec<u8>, [Vec<String>; 2], [Res; 2]) {
        self.t.runs += 2;
        if self.second.is_none() {
            self.second = Some(Server::spawn(&self.bin, &self.shim, &self.srv.root.clone()));
        }
        let second = self.second.as_mut().unwrap();
        let mut evs = [Some(self.srv.start(a)), Some(second.start(b))];
        let mut res: [Option<Res>; 2] = [None, None];
        let mut pts: [Vec<String>; 2] = [vec![], vec![]];
        let mut sched = vec![];
        loop {
            for i in 0..2 {
                if let Some(Ev::End(_)) = &evs[i] {
                    if let Some(Ev::End(r)) = evs[i].take() {
                        res[i] = Some(r);
                    }
                }
            }
            let (x, y) = (evs[0].is_some(), evs[1].is_some());
            if !x && !y {
                break;
            }
            if sched.len() > 5000 {
                panic!("more than 5000 file operations in a pair of runs");
            }
            let c = match &evs {
                [Some(Ev::Point { kind: k0, path: p0, .. }), Some(Ev::Point { kind: k1, path: p1, .. })] => f(&sched, (*k0, p0), (*k1, p1)),
                _ => if x { 0 } else { 1 },
            };
            sched.push(c);
            let i = c as usize;
            if let Some(Ev::Point { kind, path, .. }) = &evs[i] {
                pts[i].push(format!("{} {}", *kind as char, path.rsplit('/').next().unwrap_or("")));
            }
            evs[i] = Some(if i == 0 { self.srv.answer(Act::Go) } else { second.answer(Act::Go) });
        }
        self.trace.push(Step::Pair(a.clone(), b.clone(), sched.clone()));
        let [r0, r1] = res;
        (sched, pts, [r0.unwrap(), r1.unwrap()])
    }
    pub fn state<T: std::hash::Hash>(&mut self, x: &T) -> bool {
        self.t.states.insert(hash(x))
    }
    pub fn outcome(&mut self, s: &str) {
        match self.t.outcomes.get_mut(s) {
            Some(n) => *n += 1,
            None => {
                self.t.outcomes.insert(s.to_string(), 1);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample && self.t.samples.len() < 3 {
            let s = f();
            self.t.samples.push(s);
        }
    }
    pub fn fail<T>(&self, msg: impl Into<String>) -> Result<T, Violation> {
        Err(Violation { msg: msg.into(), trace: self.trace.clone() })
    }
    /// Violation unless `ok`.
    pub fn need(&self, ok: bool, msg: impl FnOnce() -> String) -> Check {
        if ok { Ok(()) } else { self.fail(msg()) }
    }
}

pub const JF: &str = "j.sfox";

/// the usual request: subcommand and further arguments at noon UTC of a day
pub fn req(today: Day, args: &[&str]) -> Req {
    Req { args: args.iter().map(|s| s.to_string()).collect(), clock: today * 86400 + 43200, ..Req::default() }
}
pub fn show(r: &Res) -> String {
    format!("status {} stdout {:?} stderr {:?}", r.status, r.out, r.err)
}

pub struct Harness {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub tally: Mutex<Tally>,
    pub start: Instant,
    pub deadline: Duration,
    pub capped: AtomicBool,
    pub violation: Mutex<Option<(usize, usize, Violation)>>,
    phase: AtomicUsize,
    pub bounds: Mutex<Vec<String>>,
    pub known_hits: Mutex<BTreeSet<String>>,
    threads: usize,
}

impl Harness {
    pub fn new(id: &str, thorough: bool, bin: PathBuf, shim: PathBuf, verif: PathBuf) -> Harness {
        let scratch = PathBuf::from(format!("/dev/shm/sfmc-{}", std::process::id()));
        let scratch = if std::fs::create_dir_all(&scratch).is_ok() {
            scratch
        } else {
            let s = std::env::temp_dir().join(format!("sfmc-{}", std::process::id()));
            std::fs::create_dir_all(&s).expect("scratch directory");
            s
        };
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
        Harness {
            id: id.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            bin,
            shim,
            verif,
            scratch,
            tally: Mutex::default(),
            start: Instant::now(),
            deadline: Duration::from_secs(if thorough { 3000 } else { 400 }),
            capped: AtomicBool::new(false),
            violation: Mutex::new(None),
            phase: AtomicUsize::new(0),
            bounds: Mutex::default(),
            known_hits: Mutex::default(),
            threads: n,
        }
    }
    pub fn stop(&self) -> bool {
        self.violation.lock().unwrap().is_some() || self.capped.load(Ordering::SeqCst)
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    /// Runs jobs 0..n, all of them unless one fails: then the smallest failing one is kept.
    pub fn explore(&self, what: &str, n: usize, f: impl Fn(&mut Ctx, usize) -> Check + Sync) {
        let phase = self.phase.fetch_add(1, Ordering::SeqCst);
        if self.stop() {
            return;
        }
        if n == 0 {
            eprintln!("error of the check: nothing to explore in `{what}`");
            self.cleanup();
            std::process::exit(2);
        }
        let next = AtomicUsize::new(0);
        let best = AtomicUsize::new(usize::MAX);
        let t0 = Instant::now();
        let done = AtomicUsize::new(0);
        let found: Mutex<Option<(usize, Violation)>> = Mutex::new(None);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.threads.min(n.max(1)))
                .map(|w| {
                    let (next, best, done, found, f) = (&next, &best, &done, &found, &f);
                    s.spawn(move || {
                        let root = self.scratch.join(format!("p{phase}w{w}"));
                        let mut ctx = Ctx::new(&self.bin, &self.shim, &root);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > best.load(Ordering::SeqCst) {
                                break;
                            }
                            if self.start.elapsed() > self.deadline {
                                self.capped.store(true, Ordering::SeqCst);
                                break;
                            }
                            ctx.sample = n < 3 || i % (n / 3).max(1) == 0;
                            ctx.reset();
                            if let Err(v) = f(&mut ctx, i) {
                                best.fetch_min(i, Ordering::SeqCst);
                                let mut g = found.lock().unwrap();
                                if g.as_ref().is_none_or(|(j, _)| i < *j) {
                                    *g = Some((i, v));
                                }
                            }
                            done.fetch_add(1, Ordering::SeqCst);
                        }
                        self.tally.lock().unwrap().merge(std::mem::take(&mut ctx.t));
                        drop(ctx);
                        let _ = std::fs::remove_dir_all(&root);
                    })
                })
                .collect();
            for h in hs {
                if let Err(e) = h.join() {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    eprintln!("error of the check: a worker ended: {m}");
                    self.cleanup();
                    std::process::exit(2);
                }
            }
        });
        eprintln!("  {what}: {} of {n} cases in {:.1} s", done.load(Ordering::SeqCst), t0.elapsed().as_secs_f64());
        self.bound(format!("{what}: {} of {n} cases", done.load(Ordering::SeqCst)));
        let found = found.into_inner().unwrap();
        if let Some((i, v)) = found {
            // the same case has to fail again in a fresh process
            let root = self.scratch.join(format!("p{phase}r"));
            let mut ctx = Ctx::new(&self.bin, &self.shim, &root);
            ctx.reset();
            match f(&mut ctx, i) {
                Err(w) => {
                    if w.msg != v.msg {
                        eprintln!("note: the second message differs: {}", w.msg);
                    }
                    *self.violation.lock().unwrap() = Some((phase, i, w));
                }
                Ok(()) => {
                    eprintln!("error of the check: case {i} of `{what}` failed once and not again: {}", v.msg);
                    self.cleanup();
                    std::process::exit(2);
                }
            }
        }
    }

    pub fn cleanup(&self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }

    /// known findings of this property: lines `known: property=<id> case=<case> <text>`
    pub fn known(&self, case: &str) -> bool {
        let f = std::fs::read_to_string(self.verif.join("known_findings.txt")).unwrap_or_default();
        f.lines().any(|l| {
            let t: Vec<&str> = l.split_whitespace().collect();
            t.len() > 2 && t[0] == "known:" && t[1] == format!("property={}", self.id) && t[2] == format!("case={case}")
        })
    }
    pub fn known_hit(&self, text: impl Into<String>) {
        self.known_hits.lock().unwrap().insert(text.into());
    }

    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
        let t = self.tally.lock().unwrap();
        let v = self.violation.lock().unwrap();
        let capped = self.capped.load(Ordering::SeqCst);
        let fault = self.id == "C14";
        let mut e = String::from("{\n");
        let q = json_str;
        let _ = write!(
            e,
            " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            q(&self.id),
            q(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            q(if fault { "fault_enumeration" } else { "model_checking" })
        );
        if fault {
            let _ = write!(e, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", t.runs, t.states.len());
        } else {
            let _ = write!(
                e,
                "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
                t.states.len(),
                t.runs,
                t.traces
            );
        }
        let _ = write!(e, "  \"rule\": {},\n  \"exhaustive\": {},\n", q(rule), !capped && v.is_none());
        let b = self.bounds.lock().unwrap();
        let _ = write!(e, "  \"bounds\": [{}],\n", b.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(
            e,
            "  \"distinct_outcomes\": {},\n  \"outcomes\": {{{}}},\n",
            t.outcomes.len(),
            t.outcomes.iter().take(60).map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(e, "  \"notes\": [{}],\n", t.notes.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(e, "  \"samples\": [{}]\n }},\n", t.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(",\n   "));
        let _ = write!(
            e,
            " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            v.is_some() as u32
        );
        let ed = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        std::fs::write(ed.join(format!("{}.json", self.id)), e).expect("evidence");
        println!(
            "{}: {} executions, {} states, {} traces compared, {} distinct outcomes, {:.1} s{}",
            self.id,
            t.runs,
            t.states.len(),
            t.traces,
            t.outcomes.len(),
            self.start.elapsed().as_secs_f64(),
            if capped { " (time cap reached)" } else { "" }
        );
        self.cleanup();
        for k in self.known_hits.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {k}", self.id);
        }
        if let Some((phase, i, x)) = &*v {
            let rd = self.verif.join("replay");
            let _ = std::fs::create_dir_all(&rd);
            let p = rd.join(format!("{}-{phase}-{i}.trace", self.id));
            std::fs::write(&p, dump(&self.id, x)).expect("replay file");
            println!("{}", x.msg);
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        0
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- replay files
fn esc(b: &[u8]) -> String {
    let mut o = String::new();
    for &c in b {
        match c {
            b'\\' => o.push_str("\\\\"),
            0x20..=0x7e => o.push(c as char),
            _ => {
                let _ = write!(o, "\\x{c:02x}");
            }
        }
    }
    o
}
fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b.get(i + 1) == Some(&b'x') {
            o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap());
            i += 4;
        } else if b[i] == b'\\' {
            o.push(b[i + 1]);
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn dump_req(o: &mut String, r: &Req) {
    let _ = write!(o, "req clock={} seed={} width={} cwd={}\n", r.clock, r.seed, r.width, esc(r.cwd.as_bytes()));
    if let Some((at, by)) = r.tick {
        let _ = write!(o, " tick {at} {by}\n");
    }
    for a in &r.args {
        let _ = write!(o, " arg {}\n", esc(a.as_bytes()));
    }
    for (k, v) in &r.env {
        let _ = write!(o, " env {}={}\n", esc(k.as_bytes()), esc(v.as_bytes()));
    }
}
pub fn dump(id: &str, v: &Violation) -> String {
    let mut o = format!("# property {id}; replay with: bash replay.sh <this file>\n");
    for l in v.msg.lines() {
        let _ = write!(o, "# {l}\n");
    }
    for s in &v.trace {
        match s {
            Step::Put(n, c) => {
                let _ = write!(o, "put {}\n", esc(n.as_bytes()));
                for l in c.split_inclusive(|b| *b == b'\n') {
                    let nl = l.ends_with(b"\n");
                    let _ = write!(o, "{}{}\n", if nl { "|" } else { "+" }, esc(if nl { &l[..l.len() - 1] } else { l }));
                }
            }
            Step::Run(r) => {
                dump_req(&mut o, r);
                o.push_str("run\n");
            }
            Step::Stepped(r, a) => {
                dump_req(&mut o, r);
                o.push_str("stepped");
                for x in a {
                    let _ = match x {
                        Act::Go => write!(o, " go"),
                        Act::Fail(e) => write!(o, " fail:{e}"),
                        Act::Short(n) => write!(o, " short:{n}"),
                        Act::Crash => write!(o, " crash"),
                        Act::Torn(n) => write!(o, " torn:{n}"),
                        Act::CrashAfter => write!(o, " crashafter"),
                    };
                }
                o.push('\n');
            }
            Step::Pair(a, b, s) => {
                dump_req(&mut o, a);
                dump_req(&mut o, b);
                let _ = write!(o, "pair {}\n", s.iter().map(|c| (b'0' + c) as char).collect::<String>());
            }
        }
    }
    o
}
/// Executes a replay file against the real program and prints what happens.
pub fn replay(file: &Path, bin: &Path, shim: &Path) {
    let s = std::fs::read_to_string(file).expect("replay file");
    let root = PathBuf::from(format!("/dev/shm/sfmc-replay-{}", std::process::id()));
    let mut ctx = Ctx::new(bin, shim, &root);
    let mut reqs: Vec<Req> = vec![];
    let mut put: Option<(String, Vec<u8>)> = None;
    for l in s.lines().chain(std::iter::once("end")) {
        if l.starts_with('|') || l.starts_with('+') {
            let p = put.as_mut().unwrap();
            p.1.extend(unesc(&l[1..]));
            if l.starts_with('|') {
                p.1.push(b'\n');
            }
            continue;
        }
        if let Some((n, c)) = put.take() {
            println!("--- write {n}\n{}", String::from_utf8_lossy(&c));
            ctx.put_bytes(&n, &c);
        }
        let st = |b: Vec<u8>| String::from_utf8(b).unwrap();
        let report = |r: &Res| println!("status: {}\nstdout:\n{}\nstderr:\n{}\nfile operations:\n{}", r.status, r.out, r.err, r.ops);
        if l.starts_with('#') {
            println!("{l}");
        } else if let Some(n) = l.strip_prefix("put ") {
            put = Some((st(unesc(n)), vec![]));
        } else if let Some(x) = l.strip_prefix("req ") {
            let mut r = Req { env: vec![], ..Req::default() };
            for kv in x.split(' ') {
                let (k, v) = kv.split_once('=').unwrap();
                match k {
                    "clock" => r.clock = v.parse().unwrap(),
                    "seed" => r.seed = v.parse().unwrap(),
                    "width" => r.width = v.parse().unwrap(),
                    "cwd" => r.cwd = st(unesc(v)),
                    _ => {}
                }
            }
            reqs.push(r);
        } else if let Some(a) = l.strip_prefix(" arg ") {
            reqs.last_mut().unwrap().args.push(st(unesc(a)));
        } else if let Some(a) = l.strip_prefix(" tick ") {
            let (k, v) = a.split_once(' ').unwrap();
            reqs.last_mut().unwrap().tick = Some((k.parse().unwrap(), v.parse().unwrap()));
        } else if let Some(a) = l.strip_prefix(" env ") {
            let (k, v) = a.split_once('=').unwrap();
            reqs.last_mut().unwrap().env.push((st(unesc(k)), st(unesc(v))));
        } else if l == "run" {
            let r = reqs.pop().unwrap();
            println!("--- run silverfox {:?} (clock {}, cwd {:?})", r.args, r.clock, r.cwd);
            let x = ctx.run(&r);
            report(&x);
        } else if let Some(a) = l.strip_prefix("stepped") {
            let acts: Vec<Act> = a
                .split_whitespace()
                .map(|w| {
                    let (k, v) = w.split_once(':').unwrap_or((w, "0"));
                    match k {
                        "go" => Act::Go,
                        "fail" => Act::Fail(v.parse().unwrap()),
                        "short" => Act::Short(v.parse().unwrap()),
                        "crash" => Act::Crash,
                        "torn" => Act::Torn(v.parse().unwrap()),
                        _ => Act::CrashAfter,
                    }
                })
                .collect();
            let r = reqs.pop().unwrap();
            println!("--- run silverfox {:?} with file operations answered one by one", r.args);
            let (_, x) = ctx.run_stepped(&r, |i, k, n, p| {
                let a = acts.get(i).copied().unwrap_or(Act::Go);
                println!("    {} {p} ({n}): {a:?}", k as char);
                a
            });
            report(&x);
        } else if let Some(s) = l.strip_prefix("pair ") {
            let sch: Vec<u8> = s.bytes().map(|c| c - b'0').collect();
            let b = reqs.pop().unwrap();
            let a = reqs.pop().unwrap();
            println!("--- run silverfox {:?} and {:?} at once, schedule {s}", a.args, b.args);
            let (_, pts, [x, y]) = ctx.run_pair(&a, &b, |done, _, _| sch.get(done.len()).copied().unwrap_or(0));
            println!("{pts:?}");
            report(&x);
            report(&y);
        }
    }
    for (n, c) in ctx.srv.snapshot() {
        println!("--- finally {n}\n{}", String::from_utf8_lossy(&c));
    }
    drop(ctx);
    let _ = std::fs::remove_dir_all(&root);
}
