#![allow(non_snake_case)]
//! C27 the program at the command line: sessions, files and benchmarks
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc::channel;
use std::time::Duration;
use vh::fac::*;
use vh::nar::*;
use vh::*;

#[allow(unused)]
#[path = "/repo/src/bin/main.rs"]
mod program;

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let p = std::path::Path::new(&base).join("work").join(format!("c27-{}-{:x}", std::process::id(), COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        let _ = std::fs::create_dir_all(&p);
        Scratch(p)
    }
    fn file(&self, name: &str, data: &[u8]) -> Result<String, String> {
        let p = self.0.join(name);
        std::fs::write(&p, data).map_err(|e| e.to_string())?;
        Ok(p.to_string_lossy().to_string())
    }
}
static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// runs the program until it ends, returns what it printed
fn run(args: &[String], input: &[u8], seed: u64, dir: &std::path::Path) -> Result<String, String> {
    let mut ch = Command::new(std::env::current_exe().unwrap()).args(args).current_dir(dir).env("VH_PROGRAM", "1").env("VH_SEED", seed.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut i = ch.stdin.take().unwrap();
    let data = input.to_vec();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&data);
    });
    let mut o = ch.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut all = vec![];
        let mut b = [0u8; 65536];
        loop {
            match o.read(&mut b) {
                Ok(0) | Err(_) => break,
                Ok(k) => all.extend(&b[..k]),
            }
            if all.len() > 2_000_000 {
                let _ = tx.send(Err(()));
                return;
            }
        }
        let _ = tx.send(Ok(all));
    });
    let r = rx.recv_timeout(Duration::from_secs(60));
    let r = match r {
        Ok(Ok(x)) => x,
        Ok(Err(())) => {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the program does not end, it prints without end".into());
        }
        Err(_) => {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the program does not end".into());
        }
    };
    let _ = w.join();
    let st = ch.wait().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&r).to_string();
    ensure!(st.success(), "the program failed with {}: {:?}", st, text.lines().last());
    Ok(text)
}

/// one line, and the fact it tells
fn line(s: &mut Src, k: &mut usize, told: &mut Vec<String>) -> String {
    *k += 1;
    match s.usize(12) {
        9 => "!s 90".into(),
        10 => (*s.pick(&["!sp", "!peb 0", " !dmd", "!dmd ", "\t!dt", "!pse", "!dtf"])).into(),
        0 => "!dt".into(),
        1 | 2 => "!dmd".into(),
        3 => format!("// remark {}", k),
        4 => format!("<x{} --> y{}>. :|:", k, k),
        5 => format!("?? what {}", k),
        _ => {
            let pad = if s.chance(1, 8) { "_long".repeat(1 + s.usize(80)) } else { String::new() };
            let f = format!("<a{}{} --> b{}{}>", k, pad, k, pad);
            told.push(f.clone());
            format!("{}. {{0.{} 0.9}}", f, 1 + s.usize(9))
        }
    }
}
fn key(v: &[String]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|x| x.replace(' ', "")).collect();
    v.sort();
    v
}
fn dump(l: &str) -> bool {
    l.starts_with("task ") || l.starts_with("concept count")
}

fn console(s: &mut Src, c: &mut Ctx) -> R {
    let scratch = Scratch::new();
    let mut twin = F::new();
    let (mut k, mut told) = (0, vec![]);
    let mut args = vec!["it".to_string()];
    let mut ended = false;
    // files first
    let nf = if s.chance(1, 5) { 3 + s.usize(5) } else { s.usize(3) };
    for i in 0..nf {
        if s.chance(1, 12) {
            c.line("file is missing");
            args.push(scratch.0.join("missing.nal").to_string_lossy().to_string());
            continue;
        }
        let eol = *s.pick(&["\n", "\n", "\r\n"]);
        let mut text = String::new();
        for _ in 0..s.usize(6) {
            let l = if s.chance(1, 15) { "!QQ".to_string() } else if s.chance(1, 8) { String::new() } else { line(s, &mut k, &mut told) };
            text += &l;
            text += eol;
            c.line(&format!("file {}: {:?}", i, l));
            if !ended {
                ended = twin.feed(&l).1;
            }
        }
        if s.bool() {
            text.truncate(text.trim_end_matches(|c| c == '\n' || c == '\r').len());
        }
        args.push(scratch.file(&format!("f{}.nal", i), text.as_bytes())?);
    }
    // (echo, returned lines, question to be answered)
    let mut want: Vec<(String, Vec<String>)> = vec![];
    let mut input: Vec<u8> = vec![];
    let mut last = String::new();
    let mut after = 0;
    let ask = s.chance(1, 3);
    let quit_at = if s.bool() { Some(s.usize(10)) } else { None };
    let n = if s.chance(1, 6) { 10 + s.usize(25) } else { 1 + s.usize(10) };
    let (mut repeated, mut quit) = (0, false);
    for i in 0..n {
        let eol: &[u8] = if s.chance(1, 4) { b"\r\n" } else { b"\n" };
        if s.chance(1, 10) {
            c.line("bytes which are no text");
            input.extend([0xff, 0xfe, b'x']);
            input.extend(eol);
            continue;
        }
        let l = if quit_at == Some(i) { "!QQ".into() } else if s.chance(1, 5) { String::new() } else { line(s, &mut k, &mut told) };
        c.line(&format!("{:?}", l));
        input.extend(l.as_bytes());
        // the end of the input ends the last line, too
        if i + 1 < n || ask || l.is_empty() || s.bool() {
            input.extend(eol);
        }
        if ended || quit {
            after += 1;
            continue;
        }
        let eff = if l.is_empty() { last.clone() } else { l.clone() };
        if l.is_empty() && !last.is_empty() {
            repeated += 1;
        }
        last = eff.clone();
        let (r, q) = twin.feed(&eff);
        want.push((eff, r));
        quit = q;
    }
    let mut answer = None;
    if ask && !ended && !quit {
        if let Some(f) = told.pop() {
            c.line(&format!("{}?", f));
            input.extend(format!("{}?\n!s 60\n", f).as_bytes());
            want.push((format!("{}?", f), vec![]));
            want.push(("!s 60".into(), vec![]));
            answer = Some(f);
        }
    }
    let out = run(&args, &input, s.below(1 << 40), &scratch.0)?;
    let out: Vec<&str> = out.lines().collect();
    let mut at = 0;
    let mut blocks: Vec<Vec<String>> = vec![];
    for (i, (e, _)) in want.iter().enumerate() {
        let p = (at..out.len()).find(|p| out[*p] == e.as_str());
        match p {
            Some(p) => {
                // what comes before belongs to the line before
                let b: Vec<String> = out[at..p].iter().map(|x| x.to_string()).collect();
                if i == 0 {
                    ensure!(!b.iter().any(|x| dump(x)), "{:?} printed before the first line", b);
                } else {
                    blocks.push(b);
                }
                at = p + 1;
            }
            None => return Err(format!("line {} ({:?}) was not taken; printed: {:?}", i + 1, e, out)),
        }
    }
    let rest: Vec<String> = out[at.min(out.len())..].iter().map(|x| x.to_string()).collect();
    if want.is_empty() {
        ensure!(!rest.iter().any(|x| dump(x)), "{:?} printed after the end", rest);
    } else {
        blocks.push(rest.clone());
    }
    for ((e, r), b) in want.iter().zip(&blocks) {
        let got: Vec<String> = b.iter().filter(|x| dump(x)).cloned().collect();
        ensure!(key(&got) == key(r), "{:?} printed {:?}, not {:?}", e, got, r);
    }
    // nothing is taken twice
    ensure!(!rest.iter().any(|x| x.starts_with("!") || x.starts_with('<') || x.starts_with("//")), "more than the lines was taken: {:?}", rest);
    if let Some(f) = &answer {
        let f = f.replace(' ', "");
        ensure!(blocks.last().map(|b| b.iter().any(|x| x.starts_with("TRACE answer") && x.replace(' ', "").contains(&format!("{}.", f)))).unwrap_or(false), "{}? is not answered", f);
    }
    for (b, x) in [(repeated > 0, "repeated"), (after > 0, "lines after the end"), (answer.is_some(), "answered"), (ended, "ended by a file"), (!quit && !ended, "ended by the end of the input")] {
        if b {
            c.label(x);
        }
    }
    c.nontrivial = want.len() > 2;
    Ok(())
}

fn problem(s: &mut Src, k: usize) -> (Vec<String>, bool) {
    // facts along a chain, distractors, a question
    let mut v = vec![];
    let d = s.usize(3);
    for i in 0..=d {
        v.push(format!("<p{}-{} --> p{}-{}>.", k, i, k, i + 1));
    }
    for i in 0..s.usize(4) {
        v.push(format!("<q{}-{} --> r{}>.", k, i, k));
    }
    let hopeless = s.chance(1, 3);
    if s.bool() {
        v.rotate_left(1);
    }
    v.push(if hopeless { format!("<o{} --> p{}-0>?", k, k) } else { format!("<p{}-0 --> p{}-{}>?", k, k, d + 1) });
    (v, hopeless)
}

/// a listener which knows the cycle, and whether the cycle itself found the answer
struct When {
    first: Option<(i64, bool)>,
    home: std::thread::ThreadId,
    shared: std::sync::Arc<parking_lot::RwLock<nar20_1::NarWorkingCycle::DeclarativeShared>>,
}
impl nar20_1::NarWorkingCycle::QHandler for When {
    fn answer(&mut self, _q: &nar20_1::Term::Term, _a: &nar20_1::NarSentence::Sentence) {
        if self.first.is_none() {
            let t = self.shared.read_recursive().cycleCounter.load(std::sync::atomic::Ordering::SeqCst);
            self.first = Some((t, std::thread::current().id() == self.home));
        }
    }
}
fn evaluate(s: &mut Src, c: &mut Ctx) -> R {
    let mut nar = createNar();
    let (v, hopeless) = problem(s, 0);
    let pre = if s.chance(1, 4) { 1 + s.usize(20) } else { 0 };
    let mut q = false;
    for l in &v {
        c.line(l);
        NarInputFacade::input(&mut nar, l, &mut q);
    }
    for _ in 0..pre {
        cycle(&mut nar);
    }
    if pre > 0 {
        drain(&nar)?;
    }
    let w = std::sync::Arc::new(parking_lot::RwLock::new(When { first: None, home: std::thread::current().id(), shared: std::sync::Arc::clone(&nar.mem.read().shared) }));
    nar.mem.read().globalQaHandlers.write().push(w.clone());
    let c0 = vh::att::cycle_of(&nar);
    let r = nar20_1::Eval::run(&mut nar);
    let heard = w.read().first;
    let done = vh::att::cycle_of(&nar) - c0;
    match r {
        Some(i) => {
            let (t, sync) = match heard {
                Some(x) => x,
                None => return Err(format!("answered in cycle {} without any answer", i)),
            };
            // the answers of the deriver may be noticed later
            ensure!(t - c0 <= i + 1 && (!sync || t - c0 == i + 1), "the answer was found in the cycle with number {}, not {}", t - c0 - 1, i);
            ensure!(!hopeless, "answered a question which has no answer");
            ensure!(done == i + 1, "{} cycles were done, the answer was found in the cycle with number {}", done, i);
            ensure!(i < 180, "{} cycles", i);
            c.label("answered");
        }
        None => {
            ensure!(done == 180, "given up after {} cycles", done);
            ensure!(!heard.map(|x| x.1).unwrap_or(false), "an answer was found but not noticed");
            ensure!(hopeless || pre > 0 || v.len() > 2, "a told fact is not found in {} cycles", done);
            c.label("not answered");
        }
    }
    c.nontrivial = !hopeless;
    Ok(())
}
fn scores(s: &mut Src, c: &mut Ctx) -> R {
    let scratch = Scratch::new();
    let runs = 1 + s.usize(3);
    let m = 1 + s.usize(3);
    let single = s.chance(1, 3);
    let mut args = if single { vec!["bQA".to_string()] } else { vec!["bQA2".to_string(), runs.to_string()] };
    let mut hopes = vec![];
    for i in 0..m {
        let (v, h) = problem(s, i);
        // one fact is enough to decide
        let direct = !h && v.len() == 2;
        let mut text = v.join("\n");
        text += "\n";
        c.line(&format!("{:?}", v));
        args.push(scratch.file(&format!("p{}.nal", i), text.as_bytes())?);
        hopes.push((h, direct));
    }
    let out = run(&args, b"", s.below(1 << 40), &scratch.0)?;
    let mut res: Vec<Option<i64>> = vec![];
    for l in out.lines() {
        let x = if single { Some(l) } else { l.strip_prefix("CYCLES ") };
        if let Some(x) = x {
            if x == "None" {
                res.push(None);
            } else if let Ok(k) = x.trim().parse::<i64>() {
                res.push(Some(k));
            }
        }
    }
    let reps = if single { 1 } else { runs };
    ensure!(res.len() == reps * m, "{} results for {} evaluations", res.len(), reps * m);
    for (i, r) in res.iter().enumerate() {
        let (h, direct) = hopes[i % m];
        ensure!(!(h && r.is_some()), "the question of file {} has no answer, but {:?} is reported", i % m, r);
        ensure!(!(direct && r.is_none()), "the question of file {} is not answered", i % m);
        if let Some(k) = r {
            ensure!(*k >= 0 && *k < 180, "{} cycles", k);
        }
    }
    if !single {
        let num = |p: &str| -> Result<f64, String> { out.lines().find_map(|l| l.strip_prefix(p)).and_then(|x| x.trim().parse().ok()).ok_or(format!("{} is not reported", p)) };
        let want: f64 = res.iter().flatten().map(|k| (-0.002 * *k as f64).exp()).sum::<f64>() / runs as f64;
        let un = res.iter().filter(|x| x.is_none()).count() as f64 / res.len() as f64;
        let (sc, ra, ru) = (num("SCORE")?, num("H unanswered ratio")?, num("H # runs")?);
        ensure!((sc - want).abs() < 1e-9, "the score is {}, not {}", sc, want);
        ensure!((ra - un).abs() < 1e-9, "the ratio of unanswered questions is {}, not {}", ra, un);
        ensure!(ru == runs as f64, "{} runs are reported, not {}", ru, runs);
    }
    c.nontrivial = res.iter().any(|x| x.is_some());
    if res.iter().any(|x| x.is_none()) {
        c.label("unanswered");
    }
    Ok(())
}

/// ten matches of Pong in a row: the mean of their ratios is reported (takes minutes, thorough only)
fn matches(s: &mut Src, c: &mut Ctx) -> R {
    let scratch = Scratch::new();
    let out = Command::new(std::env::current_exe().unwrap()).arg("pe").current_dir(&scratch.0).env("VH_PROGRAM", "1").env("VH_SEED", s.below(1 << 40).to_string()).stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| e.to_string())?;
    ensure!(out.status.success(), "the program failed with {}", out.status);
    let text = String::from_utf8_lossy(&out.stdout);
    let mut r = vec![];
    let mut avg = None;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("[i] env hits=") {
            let v: Vec<f64> = x.split(" misses=").filter_map(|y| y.trim().parse().ok()).collect();
            ensure!(v.len() == 2, "{}", l);
            r.push(v[0] / (v[0] + v[1]));
            c.line(l);
        } else if let Some(x) = l.strip_prefix("avg score = ") {
            avg = x.trim().parse::<f64>().ok();
        }
    }
    ensure!(r.len() == 10, "{} matches were played", r.len());
    let want = r.iter().sum::<f64>() / 10.0;
    ensure!(avg.map_or(false, |a| (a - want).abs() < 1e-9), "the score is {:?}, the mean of the matches is {}", avg, want);
    c.nontrivial = true;
    Ok(())
}

fn main() {
    if std::env::var("VH_PROGRAM").is_ok() {
        getrandom::verif_reseed(std::env::var("VH_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
        program::main();
        return;
    }
    main_prop(Prop::new(
        "C27",
        vec![
            Part::new("console", "more than two lines were taken", 12000, 40000, console).hang(150),
            Part::new("evaluate", "the question has an answer", 4500, 20000, evaluate).hang(60),
            Part::new("scores", "something was answered", 900, 6000, scores).hang(150),
            Part::new("matches", "always", 0, 4, matches).hang(800),
        ],
    ));
}
