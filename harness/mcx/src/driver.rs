//! Parent: distributes scenarios over worker processes, supervises them, confirms violations by replay,
//! writes evidence. Worker: explores one scenario.
use crate::ctx::{Ctx, Outcome, Shared, MAXTRACE};
use crate::json::{arr, esc};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Scenario {
    pub name: String,
    pub depth: u32,
    /// Split over this many workers, by a hash of the first `split_at` choices.
    pub parts: u32,
    pub split_at: usize,
    /// Only in builds whose name starts with this.
    pub only_in: &'static str,
    pub body: Box<dyn Fn(&mut Ctx)>,
}

impl Scenario {
    pub fn new(name: impl Into<String>, depth: u32, body: impl Fn(&mut Ctx) + 'static) -> Scenario {
        Scenario { name: name.into(), depth, parts: 1, split_at: 1, only_in: "", body: Box::new(body) }
    }
    pub fn split(mut self, parts: u32, at: usize) -> Scenario { self.parts = parts; self.split_at = at; self }
    pub fn only_in(mut self, build: &'static str) -> Scenario { self.only_in = build; self }
}

pub struct Meta {
    pub property: &'static str,
    /// What was enumerated and against which oracle.
    pub what: &'static str,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

struct Args { map: Vec<(String, String)> }
impl Args {
    fn parse() -> Args {
        let mut map = vec![];
        let mut it = std::env::args().skip(1).peekable();
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                let v = match it.peek() { Some(v) if !v.starts_with("--") => it.next().unwrap(), _ => String::new() };
                map.push((k.to_string(), v));
            }
        }
        Args { map }
    }
    fn get(&self, k: &str) -> Option<&str> { self.map.iter().find(|x| x.0 == k).map(|x| x.1.as_str()) }
    fn num(&self, k: &str, d: u64) -> u64 { self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d) }
}

fn map_shared(path: &str, create: bool) -> *const Shared {
    use std::os::fd::AsRawFd;
    extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).expect("shm file");
    if create { f.set_len(std::mem::size_of::<Shared>() as u64).unwrap(); }
    let p = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    p as *const Shared
}

fn limit_memory(bytes: u64) {
    #[repr(C)] struct R { a: u64, b: u64 }
    extern "C" { fn setrlimit(w: i32, r: *const R) -> i32; }
    unsafe { setrlimit(9, &R { a: bytes, b: bytes }); setrlimit(4, &R { a: 0, b: 0 }); }
}

pub fn main(meta: Meta, scenarios: fn(Tier) -> Vec<Scenario>) -> ! {
    let args = Args::parse();
    let tier = match args.get("tier").map(str::to_string).or(std::env::var("VERIF_TIER").ok()).as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    if args.get("worker").is_some() {
        // Explore on a thread with a large stack: some scenarios put megabytes on it.
        let _ = std::thread::Builder::new().stack_size(512 << 20).spawn(move || worker(&args, scenarios(tier))).expect("worker thread").join();
        std::process::exit(70)
    }
    let list = scenarios(tier);
    if let Some(file) = args.get("replay-file") { replay_file(&meta, &args, list, file) }
    parent(meta, &args, tier, list)
}

fn worker(args: &Args, list: Vec<Scenario>) {
    limit_memory(args.num("mem-mb", 6000) << 20);
    crate::ctx::install_panic_hook();
    let s = &list[args.num("worker", 0) as usize];
    let shared = match args.get("shm") { Some(p) => map_shared(p, false), None => std::ptr::null() };
    let depth = args.num("depth", s.depth as u64) as u32;
    let part = (args.num("part", 0) as u32, if args.get("part").is_some() { s.parts } else { 1 }, s.split_at);
    let mut ctx = Ctx::new(shared, depth, part);
    let out = std::io::stdout();
    if let Some(t) = args.get("replay") {
        let choices: Vec<u32> = t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        ctx.stream = true;
        let r = ctx.replay(&choices, true, &*s.body);
        let mut o = out.lock();
        match r {
            Ok(()) => writeln!(o, "PASSED").unwrap(),
            Err(m) => writeln!(o, "FAILED {}", m.replace('\n', " ")).unwrap(),
        }
        o.flush().unwrap();
        std::process::exit(0);
    }
    let cap = args.num("cap-s", 600) as f64;
    let r = ctx.explore(cap, 60_000_000, &*s.body);
    let mut o = out.lock();
    writeln!(o, "STAT executions {}", ctx.executions).unwrap();
    writeln!(o, "STAT transitions {}", ctx.transitions).unwrap();
    writeln!(o, "STAT states {}", ctx.states()).unwrap();
    writeln!(o, "STAT pruned {}", ctx.pruned).unwrap();
    writeln!(o, "STAT outcomes {}", ctx.distinct_outcomes()).unwrap();
    writeln!(o, "STAT probes {}", ctx.probe_checks).unwrap();
    for s in &ctx.samples { writeln!(o, "SAMPLE {}", s.replace('\n', " ")).unwrap(); }
    match r {
        Outcome::Complete => writeln!(o, "DONE").unwrap(),
        Outcome::Capped(w) => writeln!(o, "CAPPED {w}").unwrap(),
        Outcome::Failed(m) => {
            let t: Vec<String> = ctx.choices().iter().map(|c| c.to_string()).collect();
            if crate::ctx::NONDET.load(Ordering::SeqCst) { writeln!(o, "NONDET {m}").unwrap() }
            writeln!(o, "TRACE {}", t.join(",")).unwrap();
            writeln!(o, "FAILED {}", m.replace('\n', " ")).unwrap();
        }
    }
    o.flush().unwrap();
    // Skip destructors of whatever a failed execution left behind.
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(0) }
}

#[derive(Default, Clone)]
struct Report {
    stats: Vec<(String, u64)>,
    samples: Vec<String>,
    steps: Vec<String>,
    trace: Vec<u32>,
    failed: Option<String>,
    capped: Option<String>,
    done: bool,
    nondet: bool,
    died: bool,
    error: Option<String>,
}
impl Report { fn stat(&self, k: &str) -> u64 { self.stats.iter().find(|s| s.0 == k).map(|s| s.1).unwrap_or(0) } }

struct Sup { dir: String, stop: AtomicBool, seq: AtomicUsize }

/// Run one worker process; a crash or a hang becomes `failed` with the trace from shared memory.
fn run_worker(sup: &Sup, bin: &str, extra: &[String], hang_s: u64) -> Report {
    let id = sup.seq.fetch_add(1, Ordering::SeqCst);
    let shm = format!("{}/shm{}", sup.dir, id);
    let shared = map_shared(&shm, true);
    let sh = unsafe { &*shared };
    let mut rep = Report::default();
    let mut child = match Command::new(bin).args(extra).args(["--shm", &shm]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => { rep.error = Some(format!("cannot start worker: {e}")); return rep }
    };
    let stdout = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || { BufReader::new(stdout).lines().map_while(Result::ok).collect::<Vec<_>>() });
    let mut beat = (u64::MAX, u32::MAX);
    let mut since = Instant::now();
    let mut cpu0 = 0;
    let (status, hung) = loop {
        match child.try_wait() {
            Ok(Some(st)) => break (Some(st), false),
            Ok(None) => {}
            Err(e) => { rep.error = Some(format!("wait: {e}")); break (None, false) }
        }
        if sup.stop.load(Ordering::Relaxed) { let _ = child.kill(); let _ = child.wait(); break (None, false) }
        let b = (sh.beat.load(Ordering::Relaxed), sh.len.load(Ordering::Relaxed));
        if b != beat { beat = b; since = Instant::now(); cpu0 = cpu_ticks(child.id()); }
        else if since.elapsed() > Duration::from_secs(hang_s) {
            // Only a worker that really ran for most of that time counts as hung.
            let used = cpu_ticks(child.id()).saturating_sub(cpu0) / 100;
            if used * 2 >= hang_s || since.elapsed() > Duration::from_secs(hang_s * 10) {
                let _ = child.kill(); let _ = child.wait(); break (None, true)
            }
        }
        std::thread::sleep(Duration::from_millis(if since.elapsed().as_millis() < 50 { 1 } else { 10 }));
    };
    let lines = reader.join().unwrap_or_default();
    for l in &lines {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "STAT" => { if let Some((a, b)) = v.split_once(' ') { rep.stats.push((a.into(), b.parse().unwrap_or(0))) } }
            "SAMPLE" => rep.samples.push(v.into()),
            "STEP" => rep.steps.push(v.into()),
            "TRACE" => rep.trace = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            "FAILED" => rep.failed = Some(v.into()),
            "CAPPED" => rep.capped = Some(v.into()),
            "NONDET" => rep.nondet = true,
            "DONE" | "PASSED" => rep.done = true,
            _ => {}
        }
    }
    let from_shm = || { let n = (sh.len.load(Ordering::Relaxed) as usize).min(MAXTRACE); (0..n).map(|i| sh.choices[i].load(Ordering::Relaxed)).collect::<Vec<_>>() };
    if hung {
        rep.trace = from_shm();
        rep.failed = Some("the code under test does not terminate".into());
        rep.died = true;
    } else if let Some(st) = status {
        if let Some(sig) = st.signal() {
            rep.trace = from_shm();
            rep.failed = Some(format!("the code under test crashed the process (signal {sig}{})", match sig { 6 => " SIGABRT", 11 => " SIGSEGV", 7 => " SIGBUS", 4 => " SIGILL", 9 => " SIGKILL", _ => "" }));
            rep.died = true;
            if sig == 9 { rep.failed = None; rep.error = Some("worker was killed".into()); }
        } else if !st.success() && !rep.done && rep.failed.is_none() {
            rep.error = Some(format!("worker exited with {:?}", st.code()));
        }
    }
    let _ = std::fs::remove_file(&shm);
    rep
}

/// CPU time of a process that we started ourselves, in clock ticks.
fn cpu_ticks(pid: u32) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0 };
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn replay_file(meta: &Meta, args: &Args, list: Vec<Scenario>, file: &str) -> ! {
    let text = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{k}\": ")).map(|v| v.trim_end_matches(',').trim_matches('"').to_string()));
    let name = get("scenario").expect("scenario");
    let trace = get("choices").expect("choices").trim_matches(|c| c == '[' || c == ']').replace(' ', "");
    let idx = list.iter().position(|s| s.name == name).expect("no such scenario (other tier?)");
    let dir = work_dir();
    let sup = Sup { dir: dir.clone(), stop: AtomicBool::new(false), seq: AtomicUsize::new(0) };
    let variant = get("variant").unwrap_or_default();
    let bin = builds(args).into_iter().find(|b| b.1 == variant).map(|b| b.0).unwrap_or_else(self_exe);
    let depth = get("depth").unwrap_or_default();
    let tier = get("tier").unwrap_or_default();
    let r = run_worker(&sup, &bin, &[s("--worker"), idx.to_string(), s("--replay"), trace, s("--depth"), depth, s("--tier"), tier], 10);
    let _ = std::fs::remove_dir_all(&dir);
    for (i, l) in r.steps.iter().enumerate() { println!("  {:2}. {l}", i + 1); }
    match r.failed {
        Some(m) => { println!("{m}"); println!("VIOLATION property={} replay={file}", meta.property); std::process::exit(1) }
        None => { println!("replay passes"); std::process::exit(if r.error.is_some() { 2 } else { 0 }) }
    }
}

/// The builds to explore: this executable, a release build of it, or the list given as `--bins name=path,...`.
fn builds(args: &Args) -> Vec<(String, String)> {
    if let Some(l) = args.get("bins") { return l.split(',').filter_map(|x| x.split_once('=')).map(|(n, p)| (p.to_string(), n.to_string())).collect() }
    let mut bins = vec![(self_exe(), s("checked"))];
    if let Some(b) = args.get("rel-bin") { bins.push((b.to_string(), s("release"))) }
    bins
}

fn s(x: &str) -> String { x.to_string() }
fn self_exe() -> String { std::env::current_exe().unwrap().to_string_lossy().into_owned() }
fn work_dir() -> String {
    let d = format!("{}/mcx-{}-{}", std::env::temp_dir().to_string_lossy(), std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos());
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

#[derive(Clone)]
struct Job { bin: String, variant: String, idx: usize, part: u32, parts: u32 }

fn parent(meta: Meta, args: &Args, tier: Tier, list: Vec<Scenario>) -> ! {
    let t0 = Instant::now();
    let root = args.get("root").map(str::to_string).unwrap_or_else(|| ".".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let tiername = if tier == Tier::Quick { "quick" } else { "thorough" };
    let only = args.get("only").map(str::to_string);
    let cap = args.num("cap-s", if tier == Tier::Quick { 150 } else { 3000 });
    let dir = work_dir();
    let sup = Arc::new(Sup { dir: dir.clone(), stop: AtomicBool::new(false), seq: AtomicUsize::new(0) });
    let bins = builds(args);
    let mut jobs = vec![];
    for (idx, sc) in list.iter().enumerate() {
        if let Some(o) = &only { if !sc.name.contains(o.as_str()) { continue } }
        for (b, v) in &bins {
            if !v.starts_with(sc.only_in) { continue }
            if let Some(o) = args.get("build") { if v != o { continue } }
            for p in 0..sc.parts { jobs.push(Job { bin: b.clone(), variant: v.clone(), idx, part: p, parts: sc.parts }) }
        }
    }
    let njobs = jobs.len();
    let queue = Arc::new(Mutex::new(jobs.into_iter()));
    let results: Arc<Mutex<Vec<(Job, Report, f64)>>> = Arc::new(Mutex::new(vec![]));
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let mut hs = vec![];
    for _ in 0..ncpu {
        let (sup, queue, results) = (sup.clone(), queue.clone(), results.clone());
        hs.push(std::thread::spawn(move || loop {
            let job = match queue.lock().unwrap().next() { Some(j) => j, None => return };
            if sup.stop.load(Ordering::Relaxed) { return }
            // The quick tier has to answer in time even if the changed code blows up the search space.
            let spent = t0.elapsed().as_secs();
            let left = if tier == Tier::Quick { 500u64.saturating_sub(spent).clamp(1, cap.max(1)) } else { cap };
            let mut a = vec![s("--worker"), job.idx.to_string(), s("--tier"), s(tiername), s("--cap-s"), left.min(cap).to_string()];
            if job.parts > 1 { a.extend([s("--part"), job.part.to_string()]) }
            let t = Instant::now();
            let r = run_worker(&sup, &job.bin, &a, 20);
            let stop = sup.stop.load(Ordering::Relaxed);
            if r.failed.is_some() { sup.stop.store(true, Ordering::Relaxed) }
            if !stop || r.failed.is_some() { results.lock().unwrap().push((job, r, t.elapsed().as_secs_f64())); }
        }));
    }
    for h in hs { let _ = h.join(); }
    sup.stop.store(false, Ordering::Relaxed);
    let results = std::mem::take(&mut *results.lock().unwrap());

    let mut code = 0;
    let mut violations = 0;
    let mut viol_text = None;
    if let Some((job, rep, _)) = results.iter().filter(|r| r.1.failed.is_some()).min_by_key(|r| (r.1.nondet, r.1.died, r.1.trace.len())) {
        match confirm(&sup, job, rep, &list, tiername) {
            Ok((depth, r)) => {
                violations = 1;
                code = 1;
                let rd = format!("{root}/replays");
                let _ = std::fs::create_dir_all(&rd);
                let path = format!("{rd}/{}.json", meta.property);
                let text = format!("{{\n\"property\": {},\n\"scenario\": {},\n\"variant\": {},\n\"tier\": {},\n\"depth\": {},\n\"violation\": {},\n\"choices\": [{}],\n\"steps\": {}\n}}\n",
                    esc(meta.property), esc(&list[job.idx].name), esc(&job.variant), esc(tiername), depth, esc(r.failed.as_deref().unwrap_or("")),
                    r.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "), arr(&r.steps.iter().map(|x| esc(x)).collect::<Vec<_>>()));
                let _ = std::fs::write(&path, text);
                println!("scenario {} ({} build):", list[job.idx].name, job.variant);
                for (i, l) in r.steps.iter().enumerate() { println!("  {:2}. {l}", i + 1); }
                println!("  => {}", r.failed.as_deref().unwrap_or(""));
                println!("VIOLATION property={} replay={path}", meta.property);
                viol_text = r.failed.clone();
            }
            Err(e) => { println!("ERROR: {e}"); code = 2 }
        }
    }
    for (job, r, _) in &results {
        if let Some(e) = &r.error { println!("ERROR: scenario {}: {e}", list[job.idx].name); if code == 0 { code = 2 } }
        if r.error.is_none() && r.failed.is_none() && !r.done && r.capped.is_none() { println!("ERROR: scenario {}: no result", list[job.idx].name); if code == 0 { code = 2 } }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // Evidence
    let sum = |k: &str| results.iter().map(|r| r.1.stat(k)).sum::<u64>();
    let capped: Vec<String> = results.iter().filter_map(|r| r.1.capped.as_ref().map(|c| format!("{}: {c}", list[r.0.idx].name))).collect();
    let exhaustive = code == 0 && capped.is_empty() && results.len() == njobs && only.is_none() && args.get("build").is_none();
    let mut samples: Vec<String> = vec![];
    let mut seen_sc = std::collections::HashSet::new();
    for r in &results {
        if samples.len() >= 40 { break }
        if !seen_sc.insert(r.0.idx) { continue }
        for x in r.1.samples.iter().rev().take(2) {
            let x: String = if x.len() > 600 { x.chars().take(600).collect::<String>() + " ..." } else { x.clone() };
            samples.push(esc(&format!("[{}] {}", list[r.0.idx].name, x)));
        }
    }
    let mut table: Vec<String> = vec![];
    let mut names: Vec<(usize, &str)> = vec![];
    for r in &results { let k = (r.0.idx, r.0.variant.as_str()); if !names.contains(&k) { names.push(k) } }
    names.sort();
    for (i, v) in &names {
        let rs: Vec<_> = results.iter().filter(|r| r.0.idx == *i && r.0.variant == *v).collect();
        let f = |k: &str| rs.iter().map(|r| r.1.stat(k)).sum::<u64>();
        table.push(format!("{{\"scenario\": {}, \"build\": {}, \"depth\": {}, \"executions\": {}, \"operations\": {}, \"states\": {}, \"pruned\": {}, \"distinct_outcomes\": {}, \"complete\": {}}}",
            esc(&list[*i].name), esc(v), list[*i].depth, f("executions"), f("transitions"), f("states"), f("pruned"), f("outcomes"), rs.iter().all(|r| r.1.done)));
    }
    let shown = if table.len() > 400 { &table[..400] } else { &table[..] };
    let states = sum("states");
    let ev = format!("{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"model_checking\",\n\"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"pruned_revisits\": {},\n  \"distinct_outcomes\": {},\n  \"scenarios\": {},\n  \"exhaustive\": {},\n  \"caps_hit\": {},\n  \"what\": {},\n  \"bounds\": {},\n  \"binding\": \"the explored transitions are the calls of the real code built from the current /repo tree; the reference model runs in lockstep and every complete trace was compared with it\",\n  \"samples\": [\n    {}\n  ],\n  \"per_scenario\": [\n    {}\n  ]\n}},\n\"assumptions\": {},\n\"violations\": {},\n{}\"wall_s\": {:.2}\n}}\n",
        esc(meta.property), esc(tiername), seed, states, sum("transitions"), sum("executions"), sum("pruned"), sum("outcomes"), names.len(),
        exhaustive, arr(&capped.iter().map(|x| esc(x)).collect::<Vec<_>>()), esc(meta.what), esc(meta.bounds), samples.join(",\n    "), shown.join(",\n    "),
        arr(&meta.assumptions.iter().map(|x| esc(x)).collect::<Vec<_>>()), violations,
        viol_text.map(|v| format!("\"violation\": {},\n", esc(&v))).unwrap_or_default(), t0.elapsed().as_secs_f64());
    let ed = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(format!("{ed}/{}.json", meta.property), ev) { println!("ERROR: evidence: {e}"); if code == 0 { code = 2 } }
    if args.get("table").is_some() {
        let mut v: Vec<_> = results.iter().collect();
        v.sort_by(|a, b| b.2.total_cmp(&a.2));
        for (j, r, t) in v.iter().take(25) { println!("  {:6.2}s {:9} ex {:9} op {:8} st {:7} oc  {} [{}] {}/{}", t, r.stat("executions"), r.stat("transitions"), r.stat("states"), r.stat("outcomes"), list[j.idx].name, j.variant, j.part, j.parts) }
    }
    println!("{} {}: {} scenario runs, {} states, {} operations, {} traces compared, {} distinct outcomes, {}{:.1} s", meta.property, tiername, njobs, states, sum("transitions"), sum("executions"), sum("outcomes"),
        if exhaustive { "exhaustive within bounds, " } else if !capped.is_empty() { "CAPPED, " } else { "" }, t0.elapsed().as_secs_f64());
    std::process::exit(code)
}

/// Reproduce a failure in fresh processes; look for a shorter one first.
fn confirm(sup: &Sup, job: &Job, rep: &Report, list: &[Scenario], tier: &str) -> Result<(u32, Report), String> {
    let base = |depth: u32| vec![s("--worker"), job.idx.to_string(), s("--tier"), s(tier), s("--depth"), depth.to_string()];
    if rep.nondet { return Err(format!("scenario {} is not deterministic: {}", list[job.idx].name, rep.failed.clone().unwrap_or_default())) }
    let replay = |depth: u32, trace: &[u32]| {
        let mut a = base(depth);
        a.extend([s("--replay"), trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]);
        let mut r = run_worker(sup, &job.bin, &a, 10);
        r.trace = trace.to_vec();
        r
    };
    let full = list[job.idx].depth;
    let mut best = (full, rep.clone());
    let t = Instant::now();
    for d in 1..full {
        if t.elapsed().as_secs() > 60 { break }
        let mut a = base(d);
        a.extend([s("--cap-s"), s("20")]);
        let r = run_worker(sup, &job.bin, &a, 10);
        if r.failed.is_some() && !r.nondet { best = (d, r); break }
        if r.capped.is_some() { break }
    }
    for cand in [best, (full, rep.clone())] {
        let r1 = replay(cand.0, &cand.1.trace);
        let r2 = replay(cand.0, &cand.1.trace);
        if r1.failed.is_some() && r2.failed.is_some() {
            let mut r = r1;
            if r.steps.is_empty() { r.steps = vec![format!("(choices {:?})", cand.1.trace)] }
            return Ok((cand.0, r));
        }
    }
    // The failure may need the state left behind by earlier executions of the same process.
    let mut a = base(full);
    a.extend([s("--cap-s"), s("600")]);
    if job.parts > 1 { a.extend([s("--part"), job.part.to_string()]) }
    let r = run_worker(sup, &job.bin, &a, 20);
    if r.failed.is_some() && r.trace == rep.trace {
        let mut r = r;
        r.steps = vec![s("(reproduced by exploring the scenario again from its start; the failing execution depends on earlier ones in the process)")];
        return Ok((full, r));
    }
    Err(format!("scenario {}: a failure could not be reproduced: {}", list[job.idx].name, rep.failed.clone().unwrap_or_default()))
}
