#![allow(non_snake_case)]
//! C19 the reasoner and its workers run at the same time: nothing deadlocks, nothing told is lost, and storing evidence does not depend on the schedule
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::thread::JoinHandle;
use std::time::Duration;
use vh::att;
use vh::nar::*;
use vh::proc::*;
use vh::pscen;
use vh::rules::*;
use vh::scen;
use vh::term::*;
use vh::*;

fn feed(nar: &mut Nar, l: &str) -> Vec<String> {
    let mut q = false;
    NarInputFacade::input(nar, &l.to_string(), &mut q)
}
/// takes the locks which workers take, at random times
struct Jitter {
    stop: Arc<AtomicBool>,
    h: Option<JoinHandle<()>>,
}
impl Jitter {
    fn start(nar: &Nar, seed: u64) -> Jitter {
        let stop = Arc::new(AtomicBool::new(false));
        let shared = Arc::clone(&nar.mem.read().shared);
        let evidence = Arc::clone(&nar.procNar.evidenceMem);
        let decl = Arc::clone(&shared.read().mem);
        let questions = Arc::clone(&shared.read().questionTasks);
        let st = stop.clone();
        let h = std::thread::spawn(move || {
            let mut x = seed;
            while !st.load(Ordering::Relaxed) {
                x = vh::src::mix(x.wrapping_add(0x9E3779B97F4A7C15));
                let hold = |us: u64| {
                    if us % 4 == 0 {
                        std::thread::yield_now()
                    } else {
                        for _ in 0..us * 10 {
                            std::hint::spin_loop()
                        }
                    }
                };
                match x % 8 {
                    0 => {
                        let _g = shared.write();
                        hold((x >> 8) % 64);
                    }
                    1 => {
                        let _g = shared.read();
                        hold((x >> 8) % 64);
                    }
                    2 => {
                        let _g = evidence.write();
                        hold((x >> 8) % 64);
                    }
                    3 => {
                        let _g = evidence.read();
                        hold((x >> 8) % 64);
                    }
                    4 => {
                        let _g = decl.write();
                        hold((x >> 8) % 64);
                    }
                    5 => {
                        let _g = questions.write();
                        hold((x >> 8) % 64);
                    }
                    6 => {
                        let _g = questions.read();
                        hold((x >> 8) % 64);
                    }
                    _ => std::thread::sleep(Duration::from_micros((x >> 8) % 50)),
                }
            }
        });
        Jitter { stop, h: Some(h) }
    }
}
impl Drop for Jitter {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

/// telling, asking and reasoning while conclusions are drawn
fn declarative(s: &mut Src, c: &mut Ctx) -> R {
    let mut nar = createNar();
    wire(&nar);
    let answers = listen(&nar);
    let jit = if s.chance(3, 4) { Some(Jitter::start(&nar, s.below(u64::MAX))) } else { None };
    let names = 3 + s.usize(4);
    let k = 6 + s.usize(40);
    let mut told: Vec<(T, V, i64)> = vec![];
    let mut asked: Vec<T> = vec![];
    let p = panics();
    let mut cycles = 0;
    for _ in 0..k {
        match s.usize(12) {
            0..=3 => {
                let t = scen::fact(s, names);
                let x = scen::truth(s);
                let l = scen::line(&t, '.', Some(x));
                c.line(&l);
                let id = nar.mem.read().shared.read().stampIdCounter.load(Ordering::SeqCst);
                feed(&mut nar, &l);
                told.push((t, x, id));
            }
            4 if told.len() > 0 && asked.len() < 6 => {
                let t = told[s.usize(told.len())].0.clone();
                let l = scen::line(&t, '?', None);
                c.line(&l);
                feed(&mut nar, &l);
                asked.push(t);
            }
            5 => {
                let n0 = feed(&mut nar, "!dt").len();
                c.line("!dt");
                let _ = n0;
            }
            6 => {
                let l = *s.pick(&["!dmd", "!dtf", "!dt", "!dmd"]);
                c.line(l);
                feed(&mut nar, l);
            }
            _ => {
                let n = 1 + s.usize(20);
                cycles += n;
                c.line(&format!("!s {}", n));
                feed(&mut nar, &format!("!s {}", n));
            }
        }
        c.evals += 1;
    }
    // every question about what was told is answered
    let mut left = 30 + 60 * asked.len();
    while left > 0 && asked.iter().any(|q| !answers.read().got.iter().any(|a| a.0 == *q)) {
        if left % 16 == 0 {
            feed(&mut nar, "!dtf");
        }
        feed(&mut nar, "!s");
        left -= 1;
    }
    drop(jit);
    drain(&nar)?;
    ensure!(panics() == p, "{}", last_panic());
    let now = snap_decl(&nar);
    let held = |t: &T| -> Vec<B> { now.get(t).map(|x| x.0.iter().chain(x.1.iter()).filter(|b| b.term == *t && b.punct == '.').cloned().collect()).unwrap_or_default() };
    for (t, x, id) in &told {
        let b = held(t);
        ensure!(!b.is_empty(), "{} {{{} {}}} was told and is lost", t.show(), x.f, x.c);
        ensure!(b.iter().any(|b| b.stamp.contains(id) || b.stamp.len() >= 20) || told.iter().filter(|o| o.0 == *t).count() > 1, "the evidence {} of {} is lost: {:?}", id, t.show(), b.iter().map(|b| b.show()).collect::<Vec<_>>());
        // alone, it is exactly what was told
        for b in b.iter().filter(|b| b.stamp == vec![*id]) {
            ensure!(close(b.v, *x), "{} was told with {:?}", b.show(), x);
        }
    }
    let ids = nar.mem.read().shared.read().stampIdCounter.load(Ordering::SeqCst);
    for (k, (a, b)) in &now {
        for b in a.iter().chain(b.iter()) {
            let mut u = b.stamp.clone();
            u.sort();
            u.dedup();
            ensure!(u.len() == b.stamp.len() && u.iter().all(|i| *i >= 0 && *i < ids), "the stamp of {} is wrong", b.show());
            ensure!(b.punct != '.' || (-1e-9..=1.0 + 1e-9).contains(&b.v.f) && b.v.c >= 0.0 && b.v.c < 1.0, "the truth of {} is wrong", b.show());
            ensure!(b.term.subterms().contains(k), "{} is stored under {}", b.show(), k.show());
        }
    }
    for q in &asked {
        let got: Vec<B> = answers.read().got.iter().filter(|a| a.0 == *q).map(|a| a.1.clone()).collect();
        // what can't be better than no answer is not reported
        let best = told.iter().filter(|x| x.0 == *q).map(|x| expect(x.1)).fold(0.0, f64::max);
        if q.has_var() || best <= 1e-6 {
            continue;
        }
        ensure!(!got.is_empty(), "{}? was not answered", q.show());
        for w in got.windows(2) {
            ensure!(w[1].term != w[0].term || asked.iter().filter(|x| *x == q).count() > 1 || expect(w[1].v) > expect(w[0].v) - 1e-9, "{}? was answered with {} after {}", q.show(), w[1].show(), w[0].show());
        }
    }
    // every waiting judgement can be found by its terms
    {
        let m = nar.mem.read();
        let sh = m.shared.read();
        let by = sh.judgementTasksByTerm.read();
        for t in &sh.judgementTasks {
            let (id, b) = (t.read().id, belief(&t.read().sentence));
            for x in b.term.subterms() {
                ensure!(by.get(&to_nar(&x)).map_or(false, |v| v.iter().any(|y| y.read().id == id)), "{} waits and is not found by {}", b.show(), x.show());
            }
        }
    }
    let _ = att::waiting_count(&nar);
    c.nontrivial = cycles >= 20 && told.len() >= 4;
    Ok(())
}

/// the caller is faster than the worker, or both do nothing for a while: all work is done in the end
fn burst(s: &mut Src, c: &mut Ctx, idle: bool) -> R {
    let mut nar = createNar();
    wire(&nar);
    let answers = listen(&nar);
    let jit = if s.chance(1, 2) { Some(Jitter::start(&nar, s.below(u64::MAX))) } else { None };
    let mut asked: Vec<T> = vec![];
    for l in ["!por NOP ^go", "!peb 0"].iter() {
        feed(&mut nar, l);
    }
    let p = panics();
    let mut pairs: Vec<(T, T, T)> = vec![];
    let mut obs = 0;
    for round in 0..1 + s.usize(3) {
        if idle {
            let ms = if c.thorough { s.range(100, 8000) } else { s.range(300, 2500) };
            c.line(&format!("nothing happens for {} ms", ms));
            std::thread::sleep(Duration::from_millis(ms as u64));
        }
        for i in 0..1 + s.usize(if idle { 3 } else { 14 }) {
            let x = |k: &str| n(&format!("{}{}r{}", k, i, round));
            let (a, m, b) = (x("a"), x("m"), x("b"));
            for t in [inh(&a, &m), inh(&m, &b)].iter() {
                let l = scen::line(t, '.', Some(v(1.0, 0.9)));
                c.line(&l);
                feed(&mut nar, &l);
            }
            pairs.push((inh(&a, &m), inh(&m, &b), inh(&a, &b)));
            if s.chance(1, 3) {
                let l = scen::line(&inh(&a, &b), '?', None);
                c.line(&l);
                feed(&mut nar, &l);
                asked.push(inh(&a, &b));
            }
        }
        if s.bool() {
            // something is observed as well
            let (a, b) = (n(&format!("e{}", round)), n(&format!("f{}", round)));
            for l in [format!("{}. :|:", a.text()), "!sp".into(), format!("{}. :|:", op(&[coll(K::SetExt, &[n("SELF")])], "^go").text()), "!sp".into(), format!("{}. :|:", b.text())].iter() {
                feed(&mut nar, l);
            }
            for _ in 0..12 {
                feed(&mut nar, "!sp");
            }
            c.line(&format!("observed {} ^go {}", a.show(), b.show()));
            obs += 1;
        }
        let l = format!("!s {}", 1 + s.usize(40));
        c.line(&l);
        feed(&mut nar, &l);
    }
    drop(jit);
    drain(&nar)?;
    ensure!(panics() == p, "{}", last_panic());
    let held = snap_decl(&nar);
    let waits = att::waiting(&nar);
    let mut seen = std::collections::BTreeSet::new();
    for t in &nar.mem.read().shared.read().judgementTasks {
        ensure!(seen.insert(t.read().id), "two waiting judgements have the same identity");
    }
    let mut done = 0;
    for (x, y, z) in &pairs {
        let waiting = |t: &T| waits.values().any(|w| w.b.term == *t);
        if !waiting(x) || !waiting(y) {
            done += 1;
            ensure!(held.get(z).is_some(), "{} and {} were worked on, but {} was not concluded", x.show(), y.show(), z.show());
        }
    }
    // whatever is concluded answers the question which waits for it
    for q in &asked {
        if held.contains_key(q) {
            c.label("answered by a conclusion");
            ensure!(answers.read().got.iter().any(|a| a.0 == *q && a.1.term == *q), "{} was concluded after {}? was asked, and this is not reported", q.show(), q.show());
        }
    }
    c.evals += pairs.len() as u64;
    c.nontrivial = done > 0;
    ensure!(!nar.procNar.storeWorkers[0].is_finished(), "the storage worker stopped: {}", last_panic());
    if obs > 0 {
        c.label("events as well");
    }
    Ok(())
}
fn backlog(s: &mut Src, c: &mut Ctx) -> R {
    burst(s, c, false)
}
fn idle(s: &mut Src, c: &mut Ctx) -> R {
    burst(s, c, true)
}

/// the same thing is told and concluded at the same moment: both pieces of evidence are kept, together, wherever it is stored
fn race(s: &mut Src, c: &mut Ctx) -> R {
    let mut l = Lock::new();
    let jit = if s.chance(1, 2) { Some(Jitter::start(&l.nar, s.below(u64::MAX))) } else { None };
    let p0 = panics();
    let rounds = 10 + s.usize(30);
    let mut raced = 0;
    for i in 0..rounds {
        let nm = |x: &str| n(&format!("{}{}", x, i));
        let (a, b, d) = (nm("a"), nm("b"), nm("d"));
        let (p, q) = match s.usize(4) {
            0 => (inh(&coll(K::IntInt, &[a.clone(), b.clone()]), &d), vec![inh(&a, &d), inh(&b, &d)]),
            1 => (inh(&d, &coll(K::IntInt, &[a.clone(), b.clone()])), vec![inh(&d, &a), inh(&d, &b)]),
            2 => (inh(&coll(K::IntInt, &[a.clone(), a.clone()]), &a), vec![inh(&a, &a)]),
            _ => (st(Cop::Impl, &coll(K::Conj, &[a.clone(), b.clone()]), &inh(&a, &d)), vec![inh(&a, &d)]),
        };
        let q = q[s.usize(q.len())].clone();
        let (x, y) = (scen::truth(s), scen::truth(s));
        let delay = s.below(400);
        feed(&mut l.nar, &scen::line(&p, '.', Some(x)));
        if i < 12 {
            c.line(&format!("{} is worked on, {} is told after {}", scen::line(&p, '.', Some(x)), scen::line(&q, '.', Some(y)), delay));
        }
        let t: Vec<_> = {
            let m = l.nar.mem.read();
            let sh = m.shared.read();
            sh.judgementTasks.iter().filter(|t| belief(&t.read().sentence).term == p).cloned().collect()
        };
        ensure!(t.len() == 1, "{} waits {} times", p.show(), t.len());
        let id = l.nar.mem.read().shared.read().stampIdCounter.load(Ordering::SeqCst);
        l.start(&t[0])?;
        for _ in 0..delay * 20 {
            std::hint::spin_loop()
        }
        feed(&mut l.nar, &scen::line(&q, '.', Some(y)));
        l.wait()?;
        ensure!(panics() == p0, "{}", last_panic());
        let now = snap_decl(&l.nar);
        let mut both = false;
        for k in q.subterms() {
            let tabs = now.get(&k).ok_or(format!("no concept {}", k.show()))?;
            for tab in [&tabs.0, &tabs.1] {
                let m: Vec<&B> = tab.iter().filter(|b| b.term == q).collect();
                let text = || m.iter().map(|b| b.show()).collect::<Vec<_>>();
                ensure!(m.iter().any(|b| b.stamp.contains(&id)), "{} told as {} is lost in {}: {:?}", q.show(), id, k.show(), text());
                ensure!(m.len() == 1, "the evidence of {} is apart in {}: {:?}", q.show(), k.show(), text());
                both |= m[0].stamp.len() > 1;
            }
        }
        raced += both as usize;
        c.evals += 1;
    }
    drop(jit);
    c.nontrivial = raced > 0;
    Ok(())
}

/// storing is slower than perceiving: all that is perceived is handed over, as if storing took no time
fn pressed(s: &mut Src, c: &mut Ctx) -> R {
    let samples = 1 + s.usize(12) as i64;
    let steps = 1 + s.usize(8);
    let cap = s.usize(5);
    let (x, y) = (n("x"), n("y"));
    let slow = s.below(200);
    c.line(&format!("{} samples per step, {} steps, room for {}, {} us each", samples, steps, cap, slow));
    let mut counts = vec![];
    for room in [4096, cap].iter() {
        let mut p = P::new(&pscen::OPS);
        p.nar.procNar.cfg__enAnticipation = false;
        p.nar.procNar.cfgEnBabbling = false;
        p.nar.procNar.cfg__perceptionSamplesPerStep = samples as _;
        let (tx, rx) = std::sync::mpsc::sync_channel(*room);
        p.nar.procNar.storeWorkersTx = vec![tx];
        let pause = if *room == cap { slow } else { 0 };
        let h = std::thread::spawn(move || {
            let mut k = 0usize;
            while rx.recv().is_ok() {
                k += 1;
                if pause > 0 {
                    std::thread::sleep(Duration::from_micros(pause));
                }
            }
            k
        });
        let o = op(&[coll(K::SetExt, &[n("SELF")])], pscen::OPS[0].0);
        for t in [&x, &o, &y].iter() {
            p.event(t);
        }
        for _ in 0..steps {
            p.step0();
        }
        drop(p);
        counts.push(h.join().map_err(|_| "the reader stopped".to_string())?);
    }
    ensure!(counts[0] == counts[1], "{} observations are handed over, {} when storing is slow", counts[0], counts[1]);
    c.nontrivial = counts[0] > cap;
    Ok(())
}

type Tab = BTreeMap<String, usize>;
fn tab(p: &P) -> Tab {
    let mut r = Tab::new();
    for (k, t, b) in p.evidence_mem() {
        if k.has_var() || b.term.has_var() {
            continue;
        }
        *r.entry(format!("{} {} {} {:?} {:?} {:?}", k.show(), t, b.term.show(), b.cnt, b.exp_dt, b.stamp)).or_insert(0) += 1;
    }
    r
}
/// evidence is stored while the reasoner goes on; the result is the one of storing it step by step
fn evidence(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&pscen::OPS);
    p.nar.procNar.cfg__enAnticipation = false;
    p.nar.procNar.cfgEnBabbling = false;
    let ticks = 5 + s.usize(25);
    let pool: Vec<T> = (0..3).map(|_| pscen::state(s)).collect();
    let jit = if s.chance(3, 4) { Some(Jitter::start(&p.nar, s.below(u64::MAX))) } else { None };
    let n0 = panics();
    let mut all = vec![];
    if s.bool() {
        let g = n("a");
        p.goal(&g, v(1.0, 0.9));
    }
    for _ in 0..ticks {
        let mut evs = vec![];
        for _ in 0..s.usize(3) {
            let t = if s.chance(1, 2) { pscen::call(s) } else { pool[s.usize(3)].clone() };
            p.event(&t);
            evs.push(t.show());
        }
        c.line(&format!("{}: {}", p.t(), evs.join(" ")));
        p.step0();
        let m = p.captured();
        all.extend(m.iter().cloned());
        p.forward(m)?;
        if s.bool() {
            p.derive();
        }
        p.step1();
        p.nar.procNar.trace.limit();
        c.evals += 1;
    }
    drop(jit);
    p.store(vec![])?;
    ensure!(panics() == n0, "{}", last_panic());
    let mut q = P::new(&pscen::OPS);
    let k = all.len();
    q.store(all)?;
    let (a, b) = (tab(&p), tab(&q));
    for x in a.keys().chain(b.keys()) {
        ensure!(a.get(x) == b.get(x), "evidence stored while the reasoner runs: {:?} of {}, step by step: {:?}", a.get(x), x, b.get(x));
    }
    c.nontrivial = k >= 6;
    Ok(())
}

/// everything at once: events, goals, operators, sentences, questions
fn together(s: &mut Src, c: &mut Ctx) -> R {
    let mut nar = createNar();
    wire(&nar);
    let jit = if s.chance(3, 4) { Some(Jitter::start(&nar, s.below(u64::MAX))) } else { None };
    nar.procNar.cfg__resourceExpectedTime = 0.02;
    let n0 = panics();
    let k = 10 + s.usize(40);
    let mut t = 0;
    let mut cyc = 0;
    for l in ["!por NOP ^go", "!por NOP ^pick", "!por execinj", "!por nlpRel0"].iter() {
        feed(&mut nar, l);
    }
    for _ in 0..k {
        let ls = match s.usize(9) {
            0 => vh::fac::acting(s),
            1 | 2 | 3 => vec![vh::fac::narsese(s)],
            4 | 5 => vec!["!sp".to_string()],
            6 => vec![s.pick(&["!dt", "!pse", "!dmd", "!dtf"]).to_string()],
            _ => vec![format!("!s {}", 1 + s.usize(10))],
        };
        for l in ls {
            if l.starts_with("!sp") {
                t += 1;
            } else if l.starts_with("!s ") {
                cyc += l[3..].parse::<i64>().unwrap();
            }
            c.line(&l);
            feed(&mut nar, &l);
            c.evals += 1;
        }
    }
    drop(jit);
    drain(&nar)?;
    ensure!(panics() == n0, "{}", last_panic());
    ensure!(!nar.procNar.storeWorkers[0].is_finished(), "the storage worker stopped: {}", last_panic());
    ensure!(nar.procNar.t == t && att::cycle_of(&nar) == cyc, "{} steps and {} cycles were asked for, {} and {} done", t, cyc, nar.procNar.t, att::cycle_of(&nar));
    c.nontrivial = t > 2 && cyc > 5;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C19",
        vec![
            Part::new("declarative", "at least four sentences were told and twenty cycles done", 2500, 60000, declarative).fresh().hang(60).procs(4),
            Part::new("race", "told and concluded evidence were put together", 400, 20000, race).fresh().hang(60).procs(4),
            Part::new("backlog", "something was concluded", 500, 20000, backlog).fresh().hang(60).procs(4),
            Part::new("idle", "something was concluded", 16, 300, idle).fresh().hang(60).procs(4),
            Part::new("evidence", "at least six pieces of evidence were stored", 2500, 60000, evidence).fresh().hang(60).procs(4),
            Part::new("pressed", "more was perceived than there was room for", 300, 10000, pressed).fresh().hang(60).procs(4),
            Part::new("together", "steps and cycles were done", 800, 20000, together).fresh().hang(60).procs(4),
        ],
    ));
}
