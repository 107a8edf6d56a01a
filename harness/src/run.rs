//! Supervisor and workers.
//!
//! The supervisor (`<bin>`) starts worker processes (`<bin> --worker ...`), each of which runs a slice
//! of the cases of one part. A case that returns Err, panics, kills its process or makes no progress
//! for `hang_secs` is a violation; it is shrunk on its choice tape and written as a replay file.
use crate::jsonw::*;
use crate::src::{mix, shrink, Src};
use std::collections::HashSet;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// what a case reports about itself
pub struct Ctx {
    /// readable rendering of the generated case
    pub desc: String,
    /// did the case exercise the property (by the part's stated rule)?
    pub nontrivial: bool,
    /// class labels, for the distribution report
    pub labels: Vec<&'static str>,
    /// number of oracle evaluations inside the case
    pub evals: u64,
    pub thorough: bool,
}
impl Ctx {
    pub fn line(&mut self, s: &str) {
        if !self.desc.is_empty() {
            self.desc.push('\n');
        }
        self.desc.push_str(s);
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
}

pub struct Part {
    pub name: &'static str,
    /// rule for counting a case as non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// no progress within one case for this long is a violation
    pub hang_secs: u64,
    /// worker processes
    pub procs: usize,
    /// run each case on a fresh thread (own thread-local RNG)
    pub fresh_thread: bool,
    pub f: fn(&mut Src, &mut Ctx) -> R,
}
impl Part {
    pub fn new(name: &'static str, rule: &'static str, quick: u64, thorough: u64, f: fn(&mut Src, &mut Ctx) -> R) -> Part {
        Part { name, rule, quick, thorough, hang_secs: 90, procs: 8, fresh_thread: false, f }
    }
    pub fn fresh(mut self) -> Part {
        self.fresh_thread = true;
        self
    }
    pub fn hang(mut self, s: u64) -> Part {
        self.hang_secs = s;
        self
    }
    pub fn procs(mut self, n: usize) -> Part {
        self.procs = n;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<Part>,
    /// a time limit for all cases of one tier, seconds (quick, thorough)
    pub time: (u64, u64),
}

impl Prop {
    pub fn new(id: &'static str, parts: Vec<Part>) -> Prop {
        Prop { id, parts, time: (240, 3600) }
    }
}

static QUIET: AtomicBool = AtomicBool::new(false);
static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static LAST_PANIC: parking_lot::Mutex<String> = parking_lot::const_mutex(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let thread = std::thread::current().name().unwrap_or("?").to_string();
        PANICS.fetch_add(1, Ordering::SeqCst);
        *LAST_PANIC.lock() = format!("panic in thread {} at {}: {}", thread, loc, msg);
        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("panic at {}: {}", loc, msg);
        }
    }));
}

/// number of panics so far, in any thread
pub fn panics() -> u64 {
    PANICS.load(Ordering::SeqCst)
}
/// message of the most recent panic in any thread
pub fn last_panic() -> String {
    LAST_PANIC.lock().clone()
}

fn exec(part: &Part, mut s: Src, thorough: bool) -> (Src, Ctx, R) {
    let mut ctx = Ctx { desc: String::new(), nontrivial: false, labels: vec![], evals: 1, thorough };
    let f = part.f;
    getrandom::verif_reseed(if s.tape.is_empty() { 1 } else { s.tape.iter().fold(7, |a, v| mix(a ^ *v)) });
    let r = if part.fresh_thread {
        // entropy of the code under test is itself drawn from the tape
        let (s2, ctx2, r) = std::thread::Builder::new()
            .name("case".to_string())
            .stack_size(8 << 20)
            .spawn(move || {
                let seed = s.below(1 << 16);
                getrandom::verif_reseed(mix(seed + 1));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s, &mut ctx)));
                let r = match r {
                    Ok(r) => r,
                    Err(_) => Err(last_panic()),
                };
                (s, ctx, r)
            })
            .unwrap()
            .join()
            .unwrap();
        s = s2;
        ctx = ctx2;
        r
    } else {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s, &mut ctx))) {
            Ok(r) => r,
            Err(_) => Err(last_panic()),
        }
    };
    (s, ctx, r)
}

fn case_seed(seed: u64, part: &str, idx: u64) -> u64 {
    mix(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ crate::fnv(part.as_bytes()) ^ mix(idx))
}

fn worker(prop: &Prop, args: &[String]) {
    // --worker part tier seed start step count outprefix deadline_secs
    let part = prop.parts.iter().find(|p| p.name == args[0]).expect("part");
    let thorough = args[1] == "thorough";
    let seed: u64 = args[2].parse().unwrap();
    let start: u64 = args[3].parse().unwrap();
    let step: u64 = args[4].parse().unwrap();
    let count: u64 = args[5].parse().unwrap();
    let out = args[6].clone();
    let deadline = Duration::from_secs(args[7].parse().unwrap());
    QUIET.store(true, Ordering::Relaxed);
    let t0 = Instant::now();
    use std::os::unix::fs::FileExt;
    let prog = std::fs::File::create(format!("{}.prog", out)).unwrap();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: std::collections::BTreeMap<&'static str, u64> = Default::default();
    let mut samples: Vec<String> = vec![];
    let mut n = 0u64;
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut fail: Option<(Vec<u64>, String, String)> = None;
    let mut idx = start;
    while idx < count && t0.elapsed() < deadline {
        prog.write_at(format!("{:<20}", idx).as_bytes(), 0).unwrap();
        let (s, ctx, r) = exec(part, Src::fresh(case_seed(seed, part.name, idx)), thorough);
        n += 1;
        evals += ctx.evals;
        for l in &ctx.labels {
            *labels.entry(l).or_insert(0) += 1;
        }
        if ctx.nontrivial {
            nontriv += 1;
            hashes.insert(crate::fnv(ctx.desc.as_bytes()));
            if samples.len() < 2 || (samples.len() < 4 && n % 97 == 0) {
                let mut d = ctx.desc.clone();
                if d.len() > 700 {
                    let mut k = 700;
                    while !d.is_char_boundary(k) {
                        k -= 1;
                    }
                    d.truncate(k);
                    d.push_str(" ...");
                }
                samples.push(d);
            }
        }
        if let Err(msg) = r {
            // shrink in process
            prog.write_at(format!("{:<20}", "shrink").as_bytes(), 0).unwrap();
            let budget = if thorough { 60 } else { 25 };
            let best = shrink(s.tape.clone(), Duration::from_secs(budget), &mut |t| exec(part, Src::replay(t.to_vec()), thorough).2.is_err());
            let (_s2, ctx2, r2) = exec(part, Src::replay(best.clone()), thorough);
            match r2 {
                Err(m2) => fail = Some((best, m2, ctx2.desc)),
                Ok(()) => {
                    fail = Some((s.tape.clone(), format!("{} (not reproduced on replay: depends on scheduling or hash seeds)", msg), ctx.desc))
                }
            }
            break;
        }
        idx += step;
    }
    let mut f = std::fs::File::create(format!("{}.hash", out)).unwrap();
    let mut buf = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        buf.extend_from_slice(&h.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    let mut o = String::new();
    o += &format!("{{\"n\":{},\"nontriv\":{},\"evals\":{},\"failed\":{},\n", n, nontriv, evals, if fail.is_some() { 1 } else { 0 });
    o += "\"done\":1}\n";
    std::fs::write(format!("{}.labels", out), labels.iter().map(|(k, v)| format!("{}\t{}\n", k, v)).collect::<String>()).unwrap();
    std::fs::write(format!("{}.samples", out), samples.join("\u{1}")).unwrap();
    if let Some((tape, msg, desc)) = fail {
        std::fs::write(format!("{}.fail", out), replay_text(prop.id, part.name, args[1].as_str(), &tape, &msg, &desc)).unwrap();
    }
    std::fs::write(format!("{}.json", out), o).unwrap();
    // leaked threads of the code under test must not keep the worker alive
    std::process::exit(0);
}

fn replay_text(id: &str, part: &str, tier: &str, tape: &[u64], msg: &str, desc: &str) -> String {
    format!(
        "{{\"property\":{},\n\"part\":{},\n\"tier\":{},\n\"tape\":[{}],\n\"message\":{},\n\"case\":{}}}\n",
        esc(id),
        esc(part),
        esc(tier),
        tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
        esc(msg),
        esc(desc)
    )
}

/// run one tape in a child process: None = hang, Some(true) = violation (or crash), Some(false) = fine
fn run_tape(part: &Part, tier: &str, tape: &[u64], dir: &Path, timeout: u64) -> Option<bool> {
    let p = dir.join("one.tape");
    std::fs::write(&p, replay_text("x", part.name, tier, tape, "", "")).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap()).arg("--one").arg(&p).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return Some(st.code() != Some(0));
        }
        if t.elapsed() > Duration::from_secs(timeout) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(env("VERIF_DIR", "/verif"))
}

pub fn main_prop(prop: Prop) {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--worker") {
        worker(&prop, &args[1..]);
        return;
    }
    if args.first().map(|s| s.as_str()) == Some("--one") || args.first().map(|s| s.as_str()) == Some("--replay") {
        let text = std::fs::read_to_string(&args[1]).expect("replay file");
        let part_name = read_str(&text, "part").expect("part");
        let part = prop.parts.iter().find(|p| p.name == part_name).expect("part");
        let tape = read_u64_array(&text, "tape").expect("tape");
        let thorough = read_str(&text, "tier").as_deref() == Some("thorough");
        let (_s, ctx, r) = exec(part, Src::replay(tape), thorough);
        eprintln!("case:\n{}", ctx.desc);
        match r {
            Ok(()) => {
                eprintln!("replay: holds");
                std::process::exit(0)
            }
            Err(m) => {
                eprintln!("replay: {}", m);
                std::process::exit(1)
            }
        }
    }
    let tier = args.iter().position(|a| a == "--tier").map(|i| args[i + 1].clone()).unwrap_or_else(|| env("VERIF_TIER", "quick"));
    let thorough = tier == "thorough";
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let only = args.iter().position(|a| a == "--part").map(|i| args[i + 1].clone());
    let scale: f64 = env("VERIF_SCALE", "1").parse().unwrap_or(1.0);
    let base = verif_dir();
    let work = base.join("work").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).unwrap();
    let t0 = Instant::now();
    let budget = if thorough { prop.time.1 } else { prop.time.0 };

    let mut tot_n = 0u64;
    let mut tot_evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut part_reports: Vec<String> = vec![];
    let mut violation: Option<(String, String)> = None; // (message, replay text)
    let parts: Vec<&Part> = prop.parts.iter().filter(|p| only.as_ref().map_or(true, |o| o == p.name)).collect();
    let nparts = parts.len() as u64;

    'parts: for (pi, part) in parts.iter().enumerate() {
        let base = if thorough { part.thorough } else { part.quick };
        if base == 0 {
            continue; // too expensive for this tier
        }
        let count = ((base as f64) * scale).ceil().max(1.0) as u64;
        let left = budget.saturating_sub(t0.elapsed().as_secs());
        let slice = (left / (nparts - pi as u64)).max(10);
        let procs = part.procs.min(count as usize).max(1);
        let mut children = vec![];
        for w in 0..procs {
            let out = work.join(format!("{}-{}", part.name, w));
            let err = std::fs::File::create(format!("{}.err", out.display())).unwrap();
            let ch = Command::new(std::env::current_exe().unwrap())
                .arg("--worker")
                .args(&[part.name.to_string(), tier.clone(), seed.to_string(), w.to_string(), procs.to_string(), count.to_string(), out.display().to_string(), slice.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(err)
                .current_dir(&work)
                .spawn()
                .unwrap();
            children.push((ch, out, String::new(), Instant::now(), false));
        }
        // monitor
        let mut bad: Option<(u64, String)> = None;
        loop {
            let mut alive = 0;
            for (ch, out, last, since, done) in children.iter_mut() {
                if *done {
                    continue;
                }
                let prog = std::fs::read_to_string(format!("{}.prog", out.display())).unwrap_or_default().trim().to_string();
                if let Some(st) = ch.try_wait().unwrap() {
                    *done = true;
                    if st.code() != Some(0) && bad.is_none() {
                        let idx = prog.parse::<u64>().ok();
                        let err = std::fs::read_to_string(format!("{}.err", out.display())).unwrap_or_default();
                        let tail: String = err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
                        bad = Some((idx.unwrap_or(u64::MAX), format!("process under test died ({}) {}", st, tail.trim())));
                    }
                    continue;
                }
                alive += 1;
                if prog != *last {
                    *last = prog.clone();
                    *since = Instant::now();
                } else {
                    let limit = if prog == "shrink" { 240 } else { part.hang_secs };
                    if since.elapsed() > Duration::from_secs(limit) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *done = true;
                        if bad.is_none() {
                            bad = Some((prog.parse::<u64>().unwrap_or(u64::MAX), format!("no progress within one case for {} s (hang or deadlock)", limit)));
                        }
                    }
                }
            }
            if alive == 0 || bad.is_some() {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        // a failed worker makes the others pointless, but let quick ones end on their own
        let any_fail = bad.is_some();
        if any_fail {
            for (ch, _, _, _, done) in children.iter_mut() {
                if !*done {
                    let _ = ch.kill();
                    let _ = ch.wait();
                }
            }
        }
        let mut p_n = 0;
        let mut p_nontriv = 0;
        let mut p_distinct: HashSet<u64> = HashSet::new();
        let mut labels: std::collections::BTreeMap<String, u64> = Default::default();
        let mut fails: Vec<String> = vec![];
        let mut p_samples = 0;
        for (_, out, _, _, _) in &children {
            let o = out.display();
            if let Ok(t) = std::fs::read_to_string(format!("{}.json", o)) {
                p_n += read_u64(&t, "n").unwrap_or(0);
                p_nontriv += read_u64(&t, "nontriv").unwrap_or(0);
                tot_evals += read_u64(&t, "evals").unwrap_or(0);
            }
            if let Ok(b) = std::fs::read(format!("{}.hash", o)) {
                for c in b.chunks(8) {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(c);
                    p_distinct.insert(u64::from_le_bytes(a));
                }
            }
            if let Ok(t) = std::fs::read_to_string(format!("{}.labels", o)) {
                for l in t.lines() {
                    let mut it = l.split('\t');
                    if let (Some(k), Some(v)) = (it.next(), it.next()) {
                        *labels.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                }
            }
            if let Ok(t) = std::fs::read_to_string(format!("{}.samples", o)) {
                for s in t.split('\u{1}') {
                    if !s.is_empty() && p_samples < 3 {
                        p_samples += 1;
                        samples.push(format!("[{}] {}", part.name, s));
                    }
                }
            }
            if let Ok(t) = std::fs::read_to_string(format!("{}.fail", o)) {
                fails.push(t);
            }
        }
        tot_n += p_n;
        for h in &p_distinct {
            distinct.insert(mix(*h ^ crate::fnv(part.name.as_bytes())));
        }
        part_reports.push(format!(
            "{{\"part\":{},\"cases\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"rule\":{},\"labels\":{{{}}}}}",
            esc(part.name),
            p_n,
            p_nontriv,
            p_distinct.len(),
            esc(part.rule),
            labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
        ));
        if let Some((idx, msg)) = bad {
            // crash or hang: shrink in child processes
            let mut tape = vec![];
            if idx != u64::MAX {
                // regenerate the full tape: a replay from an over-long random tape is equivalent
                tape = raw_tape(case_seed(seed, part.name, idx));
                let is_hang = msg.contains("no progress");
                let tmo = if is_hang { 20 } else { part.hang_secs };
                let repro = run_tape(part, &tier, &tape, &work, part.hang_secs);
                if repro != Some(false) {
                    tape = shrink(tape, Duration::from_secs(if thorough { 300 } else { 90 }), &mut |t| {
                        let r = run_tape(part, &tier, t, &work, tmo);
                        if is_hang {
                            r.is_none()
                        } else {
                            r == Some(true)
                        }
                    });
                }
            }
            violation = Some((msg.clone(), replay_text(prop.id, part.name, &tier, &tape, &msg, &format!("case index {} seed {}", idx, seed))));
            break 'parts;
        }
        if !fails.is_empty() {
            // report the smallest
            fails.sort_by_key(|t| t.len());
            let msg = fails[0].split("\"message\":").nth(1).unwrap_or("").to_string();
            violation = Some((msg, fails[0].clone()));
            break 'parts;
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    samples.truncate(12);
    let rule = prop.parts.iter().map(|p| format!("{}: {}", p.name, p.rule)).collect::<Vec<_>>().join("; ");
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"oracle_evaluations\":{},\"parts\":[{}]}},\"result\":{},\"wall_s\":{:.3}}}\n",
        esc(prop.id),
        esc(&tier),
        seed,
        tot_n,
        distinct.len(),
        esc(&rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        tot_evals,
        part_reports.join(","),
        esc(if violation.is_some() { "violation" } else { "held" }),
        wall
    );
    std::fs::create_dir_all(base.join("evidence")).unwrap();
    std::fs::write(base.join("evidence").join(format!("{}.json", prop.id)), ev).unwrap();
    let _ = std::fs::remove_dir_all(&work);

    match violation {
        Some((msg, text)) => {
            let rp = base.join("replays");
            std::fs::create_dir_all(&rp).unwrap();
            let path = rp.join(format!("{}-{:016x}.json", prop.id, crate::fnv(text.as_bytes())));
            std::fs::write(&path, &text).unwrap();
            let short: String = msg.chars().take(600).collect();
            println!("{}: {}", prop.id, short.replace('\n', " | "));
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            std::process::exit(1);
        }
        None => {
            println!("{}: held on {} generated cases ({} distinct non-trivial), {:.1} s", prop.id, tot_n, distinct.len(), wall);
            std::process::exit(0);
        }
    }
}

/// tape of a fresh case that crashed or hung. A fresh source draws `next() % n`; replaying the raw PRNG
/// words through the same reduction makes the same choices, so the raw stream is a valid tape.
fn raw_tape(seed: u64) -> Vec<u64> {
    let mut state = mix(seed ^ 0x5851F42D4C957F2D);
    let mut t = vec![];
    for _ in 0..6000 {
        state = state.wrapping_add(0x9E3779B97F4A7C15);
        t.push(mix(state));
    }
    t
}
