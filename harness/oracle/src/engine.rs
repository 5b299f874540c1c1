//! Case runner: deterministic cases, panic capture, hang watchdog, crash containment,
//! counters of what the monitors saw, evidence file, known findings, replay.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Fail {
    pub sig: String,
    pub detail: String,
}

/// Handed to every case.
pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub replay: bool,
    pub counters: BTreeMap<String, u64>,
    pub distinct: Vec<u64>,
    pub nontrivial: bool,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub fails: Vec<Fail>,
    pub sums: BTreeMap<String, Vec<f64>>,
    pub stage: &'static str,
}

impl Ctx {
    /// count an observation of a monitor
    pub fn ev(&mut self, name: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(name) {
            *x += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// a distinct non-trivial case
    pub fn seen(&mut self, h: u64) {
        self.distinct.push(h);
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        self.fails.push(Fail { sig: sig.into(), detail: detail.into() });
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample && self.samples.is_empty() {
            let mut t = s();
            if t.len() > 700 {
                let mut k = 700;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str(" ...");
            }
            self.samples.push(t);
        }
    }
    /// accumulate a vector of numbers (for statistical monitors)
    pub fn add(&mut self, name: &str, at: usize, x: f64) {
        let v = self.sums.entry(name.to_string()).or_default();
        if v.len() <= at {
            v.resize(at + 1, 0.0);
        }
        v[at] += x;
    }
    /// run code under test, turning a panic into a failure; None when it panicked
    pub fn guard<T>(&mut self, what: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match quiet(f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail(format!("panic:{what}:{}", e.0), format!("{what} panicked: {} at {}\ninput: {}", e.1, e.0, input()));
                None
            }
        }
    }
}

thread_local! {
    static LAST: RefCell<(String, String)> = RefCell::new((String::new(), String::new()));
    static QUIET: RefCell<bool> = RefCell::new(false);
}
static HOOKED: AtomicBool = AtomicBool::new(false);

fn hook() {
    if HOOKED.swap(true, Ordering::SeqCst) {
        return;
    }
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = (loc, msg));
        let q = QUIET.with(|q| *q.borrow());
        // threads started by the code under test are silent too
        if !q && std::thread::current().name() == Some("main") {
            old(i);
        }
    }));
}

/// Run f, catching a panic; Err((location, message)).
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    hook();
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub type CaseFn = fn(&mut Ctx);

pub struct Stage {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
}

#[derive(Default)]
pub struct Agg {
    pub counters: BTreeMap<String, u64>,
    pub sums: BTreeMap<String, Vec<f64>>,
    pub evaluations: u64,
}

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub stages: Vec<Stage>,
    /// monitors over the whole run (distribution tests, coverage obligations)
    pub finish: Option<fn(&Agg, &mut Ctx)>,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for the run to count as an observation at all
    pub must_see: &'static [&'static str],
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// verif root: the directory holding MANIFEST.json
pub fn root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// known findings: lines "property=<id> sig=<signature> | text"; a `fixed:` line suppresses nothing
fn known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={id} sig=")) {
                let (sig, text) = rest.split_once(" | ").unwrap_or((rest, rest));
                v.push((sig.trim().to_string(), text.trim().to_string()));
            }
        }
    }
    v
}

struct Slot {
    stage: AtomicUsize,
    seed: AtomicU64,
    since_ms: AtomicU64,
}

pub fn main(spec: Spec) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let replay = args.iter().position(|a| a == "--replay").map(|i| args[i + 1].clone());
    if std::env::var("VK_CHILD").is_err() {
        parent(&spec, &args[1..]);
    }
    hook();
    if let Some(r) = replay {
        let (st, seed) = r.split_once(':').expect("--replay stage:seed");
        let seed: u64 = u64::from_str_radix(seed.trim_start_matches("0x"), 16).expect("hex seed");
        let s = spec.stages.iter().find(|s| s.name == st).expect("stage");
        let mut ctx = new_ctx(s.name, seed, true);
        run_case(s.f, &mut ctx);
        for f in &ctx.fails {
            println!("[{}] {}", f.sig, f.detail);
        }
        for (k, v) in &ctx.counters {
            println!("{k} = {v}");
        }
        std::process::exit(if ctx.fails.is_empty() { 0 } else { 1 });
    }
    child(spec)
}

fn new_ctx(stage: &'static str, seed: u64, replay: bool) -> Ctx {
    Ctx {
        rng: Rng::new(seed),
        seed,
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        replay,
        counters: BTreeMap::new(),
        distinct: vec![],
        nontrivial: false,
        samples: vec![],
        want_sample: true,
        fails: vec![],
        sums: BTreeMap::new(),
        stage,
    }
}

fn run_case(f: CaseFn, ctx: &mut Ctx) {
    let r = quiet(|| {
        let c = &mut *ctx;
        f(c)
    });
    if let Err((loc, msg)) = r {
        ctx.fail(format!("panic:{loc}"), format!("panic: {msg} at {loc} in case {}:{:x}", ctx.stage, ctx.seed));
    }
}

fn cur_path(id: &str) -> std::path::PathBuf {
    root().join("run").join(format!("{id}.cur"))
}

fn child(spec: Spec) -> ! {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed = env_u64("VERIF_SEED", 1);
    let threads = env_u64("VK_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)) as usize;
    let cap_s = env_u64("VK_CAP_S", if thorough { 800 } else { 150 });
    let hang_s = env_u64("VK_HANG_S", 150);
    let _ = std::fs::create_dir_all(root().join("run"));
    let _ = std::fs::create_dir_all(root().join("evidence"));
    // interleave stages by progress fraction
    let scale = std::env::var("VK_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let mut order: Vec<(f64, usize, usize)> = vec![];
    let mut planned = vec![0; spec.stages.len()];
    for (si, s) in spec.stages.iter().enumerate() {
        let n = if thorough { s.thorough } else { 3 * s.quick };
        let n = if n == 0 { 0 } else { ((n as f64 * scale) as usize).max(1) };
        planned[si] = n;
        for i in 0..n {
            order.push(((i as f64 + 0.5) / n as f64, si, i));
        }
    }
    order.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot { stage: AtomicUsize::new(usize::MAX), seed: AtomicU64::new(0), since_ms: AtomicU64::new(0) })
        .collect();
    #[derive(Default)]
    struct Out {
        agg: Agg,
        distinct: HashSet<u64>,
        samples: BTreeMap<&'static str, Vec<String>>,
        per_stage: BTreeMap<&'static str, u64>,
        fails: Vec<(Fail, &'static str, u64)>,
        done_threads: usize,
    }
    let out: Mutex<Out> = Mutex::new(Out::default());
    let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(cur_path(spec.id)).ok();
    let known_sigs = known(spec.id);
    let known_seen: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());

    let hung: Option<(usize, u64)> = std::thread::scope(|sc| {
        for ti in 0..threads {
            let (order, next, stop, slots, out, spec, cur, known_sigs, known_seen) =
                (&order, &next, &stop, &slots, &out, &spec, &cur, &known_sigs, &known_seen);
            std::thread::Builder::new()
                .name(format!("worker{ti}"))
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut agg = Agg::default();
                    let mut distinct: HashSet<u64> = HashSet::new();
                    let mut per_stage: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples: BTreeMap<&'static str, Vec<String>> = BTreeMap::new();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs() >= cap_s {
                            break;
                        }
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= order.len() {
                            break;
                        }
                        let (_, si, i) = order[k];
                        let s = &spec.stages[si];
                        let cs = mix(mix(seed, crate::rng::hash_bytes(s.name.as_bytes())), i as u64);
                        slots[ti].seed.store(cs, Ordering::SeqCst);
                        slots[ti].since_ms.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slots[ti].stage.store(si, Ordering::SeqCst);
                        if let Some(f) = cur {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(format!("{:>3} {:016x}\n", si, cs).as_bytes(), ti as u64 * 21);
                        }
                        let mut ctx = new_ctx(s.name, cs, false);
                        ctx.thorough = thorough;
                        ctx.want_sample = samples.get(s.name).map(|v| v.len()).unwrap_or(0) < 1;
                        run_case(s.f, &mut ctx);
                        slots[ti].stage.store(usize::MAX, Ordering::SeqCst);
                        agg.evaluations += 1;
                        *per_stage.entry(s.name).or_insert(0) += 1;
                        for (k, v) in std::mem::take(&mut ctx.counters) {
                            *agg.counters.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in std::mem::take(&mut ctx.sums) {
                            let e = agg.sums.entry(k).or_default();
                            if e.len() < v.len() {
                                e.resize(v.len(), 0.0);
                            }
                            for (a, b) in e.iter_mut().zip(v) {
                                *a += b;
                            }
                        }
                        distinct.extend(ctx.distinct.drain(..));
                        if !ctx.samples.is_empty() {
                            samples.entry(s.name).or_default().append(&mut ctx.samples);
                        }
                        for f in ctx.fails.drain(..) {
                            if let Some((sig, text)) = known_sigs.iter().find(|k| k.0 == f.sig) {
                                known_seen.lock().unwrap().insert(sig.clone(), text.clone());
                                continue;
                            }
                            let mut o = out.lock().unwrap();
                            if o.fails.len() < 40 {
                                o.fails.push((f, s.name, cs));
                            }
                            if o.fails.len() >= 40 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.done_threads += 1;
                    o.agg.evaluations += agg.evaluations;
                    for (k, v) in agg.counters {
                        *o.agg.counters.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in agg.sums {
                        let e = o.agg.sums.entry(k).or_default();
                        if e.len() < v.len() {
                            e.resize(v.len(), 0.0);
                        }
                        for (a, b) in e.iter_mut().zip(v) {
                            *a += b;
                        }
                    }
                    for (k, v) in per_stage {
                        *o.per_stage.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in samples {
                        o.samples.entry(k).or_default().extend(v);
                    }
                    o.distinct.extend(distinct);
                })
                .unwrap();
        }
        // watchdog
        loop {
            std::thread::sleep(std::time::Duration::from_millis(20));
            if out.lock().unwrap().done_threads == threads {
                return None;
            }
            let now = t0.elapsed().as_millis() as u64;
            for s in &slots {
                let st = s.stage.load(Ordering::SeqCst);
                if st != usize::MAX && now > s.since_ms.load(Ordering::SeqCst) + hang_s * 1000 {
                    let sd = s.seed.load(Ordering::SeqCst);
                    // the worker cannot be joined: report and leave from here
                    let f = Fail {
                        sig: "hang".into(),
                        detail: format!("the case did not return within {hang_s} s (usual cases take milliseconds)"),
                    };
                    let path = write_replay(spec.id, &f, spec.stages[st].name, sd, 0);
                    println!("VIOLATION property={} replay={}", spec.id, path);
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        }
    });
    let _ = hung;
    let mut o = out.into_inner().unwrap();
    let complete = next.load(Ordering::Relaxed) >= order.len();
    if let Some(fin) = spec.finish {
        let mut ctx = new_ctx("finish", seed, false);
        ctx.thorough = thorough;
        let r = quiet(|| fin(&o.agg, &mut ctx));
        if let Err((loc, msg)) = r {
            ctx.fail("panic:finish", format!("{msg} at {loc}"));
        }
        for (k, v) in ctx.counters {
            *o.agg.counters.entry(k).or_insert(0) += v;
        }
        if !ctx.samples.is_empty() {
            o.samples.entry("finish").or_default().append(&mut ctx.samples);
        }
        for f in ctx.fails {
            if let Some((sig, text)) = known_sigs.iter().find(|k| k.0 == f.sig) {
                known_seen.lock().unwrap().insert(sig.clone(), text.clone());
                continue;
            }
            o.fails.push((f, "finish", seed));
        }
    }
    let mut unseen: Vec<&str> = vec![];
    if o.fails.is_empty() && scale >= 1.0 {
        for m in spec.must_see {
            if o.agg.counters.get(*m).cloned().unwrap_or(0) == 0 {
                unseen.push(m);
            }
        }
    }
    // evidence
    let mut j = String::new();
    let mut samples: Vec<String> = vec![];
    for (k, v) in &o.samples {
        for s in v.iter().take(2) {
            samples.push(format!("{{\"stage\": {}, \"case\": {}}}", json_str(k), json_str(s)));
        }
    }
    j.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(spec.id), json_str(if thorough { "thorough" } else { "quick" }), seed));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", o.agg.evaluations, o.distinct.len(), json_str(spec.rule)));
    j.push_str(&format!("  \"planned_cases_completed\": {},\n", complete));
    j.push_str(&format!(
        "  \"cases_per_stage\": {{{}}},\n",
        o.per_stage.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!(
        "  \"observed\": {{{}}},\n",
        o.agg.counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.join(", ")));
    j.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        spec.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        o.fails.len()
    ));
    std::fs::write(root().join("evidence").join(format!("{}.json", spec.id)), j).expect("write evidence");
    for (sig, text) in known_seen.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} [{}]", spec.id, text, sig);
    }
    let mut code = 0;
    if !o.fails.is_empty() {
        // one line per distinct signature
        let mut seen: HashSet<String> = HashSet::new();
        let mut n = 0;
        for (f, st, sd) in &o.fails {
            if !seen.insert(f.sig.clone()) || n >= 5 {
                continue;
            }
            let path = write_replay(spec.id, f, st, *sd, n);
            println!("# {} [{}] {}", spec.id, f.sig, f.detail.lines().next().unwrap_or(""));
            println!("VIOLATION property={} replay={}", spec.id, path);
            n += 1;
        }
        code = 1;
    } else if !unseen.is_empty() {
        println!("INCONCLUSIVE property={}: the monitors never observed {}", spec.id, unseen.join(", "));
        code = 2;
    } else {
        println!(
            "held property={} cases={} distinct={} wall={:.1}s",
            spec.id,
            o.agg.evaluations,
            o.distinct.len(),
            t0.elapsed().as_secs_f64()
        );
    }
    let _ = std::fs::remove_file(cur_path(spec.id));
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn write_replay(id: &str, f: &Fail, stage: &str, seed: u64, n: usize) -> String {
    let dir = root().join("run");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{n}.replay"));
    let text = format!(
        "property {id}\nsignature {}\nreplay with: ./run.sh {id} --replay {stage}:{seed:x}\n\n{}\n",
        f.sig, f.detail
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

/// The parent survives an abort (stack overflow, allocation failure, signal) of the code under test.
fn parent(spec: &Spec, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let run = |extra: &[String]| {
        std::process::Command::new(&exe).args(extra).env("VK_CHILD", "1").status().expect("spawn")
    };
    let mut crashes = 0;
    loop {
        let st = run(args);
        if let Some(c) = st.code() {
            std::process::exit(c);
        }
        let sig = st.signal().unwrap_or(0);
        eprintln!("{}: worker process ended by signal {sig}", spec.id);
        if sig == 9 || sig == 15 {
            // ended from outside (memory guard, time limit): no answer
            std::process::exit(2);
        }
        if args.iter().any(|a| a == "--replay") {
            std::process::exit(1);
        }
        crashes += 1;
        let cur = std::fs::read_to_string(cur_path(spec.id)).unwrap_or_default();
        let mut culprit = None;
        for l in cur.lines() {
            let p: Vec<&str> = l.split_whitespace().collect();
            if p.len() != 2 {
                continue;
            }
            let si: usize = p[0].parse().unwrap_or(usize::MAX);
            if si >= spec.stages.len() {
                continue;
            }
            let r = run(&["--replay".to_string(), format!("{}:{}", spec.stages[si].name, p[1])]);
            if r.code().is_none() && r.signal() != Some(9) {
                culprit = Some((spec.stages[si].name, u64::from_str_radix(p[1], 16).unwrap_or(0)));
                break;
            }
        }
        if culprit.is_some() || crashes >= 2 {
            let (st, sd) = culprit.unwrap_or(("?", 0));
            let f = Fail {
                sig: format!("abort:signal{sig}"),
                detail: format!("the process was ended by signal {sig} while running the code under test (abort, stack overflow or exhausted memory)\ncases in flight:\n{cur}"),
            };
            let path = write_replay(spec.id, &f, st, sd, 0);
            println!("VIOLATION property={} replay={}", spec.id, path);
            std::process::exit(1);
        }
    }
}
