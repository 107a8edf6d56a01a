#![allow(non_snake_case)]
//! C26 attention: the most worthy judgement is worked on next, worth comes from income, questions and simplicity
use nar20_1::Nar::*;
use nar20_1::NarWorkingCycle::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use vh::att::*;
use vh::nar::*;
use vh::rules::*;
use vh::scen;
use vh::term::*;
use vh::*;

fn cycles(s: &mut Src, c: &mut Ctx) -> R {
    let names = 2 + s.usize(4);
    let mut lock = Lock::new();
    let start = *s.pick(&[0, 0, 30, 700]);
    set_cycle(&lock.nar, start);
    let total = 4 + s.usize(if c.thorough { 60 } else { 26 });
    let (mut contested, mut asked) = (0, 0);
    for step in 0..total {
        if (cycle_of(&lock.nar) + 1) % 111 == 0 {
            break; // forgetting is the matter of C12
        }
        let feed = if step == 0 { 2 + s.usize(6) } else { s.weighted(&[6, 1, 1]) };
        for _ in 0..feed {
            let t = scen::fact(s, names);
            let question = s.chance(1, 4);
            let t = if question && s.bool() {
                match &t {
                    T::Stmt(k, _, b) => T::Stmt(*k, Box::new(qv("0")), b.clone()),
                    _ => t,
                }
            } else {
                t
            };
            let x = scen::truth(s);
            let l = scen::line(&t, if question { '?' } else { '.' }, if question { None } else { Some(x) });
            c.line(&l);
            let before = waiting(&lock.nar);
            ensure!(inputN(&mut lock.nar, &l), "well-formed line refused: {}", l);
            fresh_tasks(&before, &waiting(&lock.nar), cycle_of(&lock.nar), None)?;
        }
        let before = waiting(&lock.nar);
        let qs = questions(&lock.nar);
        let msg = lock.cycle();
        let now = cycle_of(&lock.nar);
        let want: BTreeMap<i64, Tk> = before.iter().map(|(k, t)| (*k, paid(t, &qs))).collect();
        let msg = match msg {
            Some(m) => m,
            None => {
                ensure!(before.is_empty(), "nothing is worked on although {} judgements wait", before.len());
                continue;
            }
        };
        let (pid, pmul, pdone) = {
            let t = msg.primary.read();
            (t.id, t.mulCredit, (t.credit, t.qaCredit))
        };
        ensure!(want.contains_key(&pid), "what is worked on was not waiting");
        let mut after = waiting(&lock.nar);
        {
            let w = &want[&pid];
            after.insert(pid, Tk { credit: pdone.0, qa: pdone.1, ..w.clone() });
        }
        for (id, w) in &want {
            let g = match after.get(id) {
                Some(g) => g,
                None => return Err(format!("{} disappeared from the waiting judgements", w.b.show())),
            };
            ensure!(rel_eq(g.credit, w.credit) && rel_eq(g.qa, w.qa) && g.mul == w.mul && g.time == w.time, "{} has credit {} and question credit {} after the cycle, expected {} and {} (questions {:?})", w.b.show(), g.credit, g.qa, w.credit, w.qa, qs.iter().map(|q| q.0.show()).collect::<Vec<_>>());
            if w.qa > 0.0 {
                asked += 1;
            }
        }
        let best = want.values().map(|t| priority(t, now)).fold(f64::MIN, f64::max);
        let p = priority(&want[&pid], now);
        ensure!(p >= best - 1e-9 * best.abs(), "{} with priority {} is worked on while another waits with {}", want[&pid].b.show(), p, best);
        if want.values().filter(|t| priority(t, now) < best * 0.999).count() > 0 {
            contested += 1;
        }
        c.line(&format!("  works on {} of {}", want[&pid].b.show(), want.len()));
        if s.chance(5, 6) {
            let before = waiting(&lock.nar);
            let biased = infSinglePremise2(&msg.primary.read().sentence);
            let weights: Vec<(T, f64)> = biased.iter().map(|x| (from_nar(&x.0.term), x.1)).collect();
            let singles: Vec<T> = single(&want[&pid].b.term, '.', Some(want[&pid].b.v)).into_iter().map(|x| x.0).collect();
            lock.deliver(msg)?;
            fresh_tasks(&before, &waiting(&lock.nar), now, Some((pmul, &weights, &singles)))?;
        }
        c.evals += 1;
    }
    if asked > 0 {
        c.label("a question gave credit");
    }
    c.nontrivial = contested > 0;
    Ok(())
}
/// new judgements start with the worth of their simplicity and the weight of what they come from
fn fresh_tasks(before: &BTreeMap<i64, Tk>, after: &BTreeMap<i64, Tk>, now: i64, parent: Option<(f64, &[(T, f64)], &[T])>) -> R {
    for (id, t) in after {
        if let Some(o) = before.get(id) {
            ensure!(o.credit == t.credit && o.qa == t.qa && o.mul == t.mul && o.time == t.time, "adding judgements changed the worth of {}", t.b.show());
            continue;
        }
        let cx = t.b.term.complexity() as f64;
        ensure!(rel_eq(t.credit, 1.0 / cx) && t.qa == 0.0 && t.time == now, "new {} has credit {} and question credit {} since {} (complexity {}, cycle {})", t.b.show(), t.credit, t.qa, t.time, cx, now);
        match parent {
            None => ensure!(t.mul == 1.0, "told {} has weight {}", t.b.show(), t.mul),
            Some((m, weights, singles)) => {
                let mut ok: Vec<f64> = weights.iter().filter(|x| x.0 == t.b.term).map(|x| x.1 * m).collect();
                if !singles.contains(&t.b.term) {
                    ok.clear();
                }
                ok.push(m);
                ensure!(ok.iter().any(|x| rel_eq(*x, t.mul)), "derived {} has weight {} instead of one of {:?}", t.b.show(), t.mul, ok);
                ensure!(t.mul <= m + 1e-12, "derived {} has more weight than its parent", t.b.show());
            }
        }
    }
    for id in before.keys() {
        ensure!(after.contains_key(id), "adding judgements lost a waiting one");
    }
    once(after)?;
    Ok(())
}

/// the same judgement (of the same evidence) waits only once, otherwise it gets more than its turn
fn once(tasks: &BTreeMap<i64, Tk>) -> R {
    let mut seen: BTreeMap<(&T, &[i64]), i64> = BTreeMap::new();
    for (id, t) in tasks {
        if let Some(o) = seen.insert((&t.b.term, &t.b.stamp), *id) {
            return Err(format!("{} waits twice, as {} and {}", t.b.show(), o, id));
        }
    }
    Ok(())
}

/// every task gets its turn: with no new input, everything that waits is worked on in finite time
fn fair(s: &mut Src, c: &mut Ctx) -> R {
    let mut lock = Lock::new();
    let k = 2 + s.usize(20);
    for _ in 0..k {
        let t = scen::fact(s, 6);
        let l = scen::line(&t, '.', Some(v(1.0, 0.9)));
        inputN(&mut lock.nar, &l);
    }
    let mut left: Vec<i64> = waiting(&lock.nar).keys().copied().collect();
    let m = left.len();
    for t in waiting(&lock.nar).values() {
        c.line(&t.b.show());
    }
    for _ in 0..m {
        match lock.cycle() {
            Some(msg) => {
                let id = msg.primary.read().id;
                ensure!(left.contains(&id), "the same judgement is worked on twice while others wait");
                left.retain(|x| *x != id);
            }
            None => return Err(format!("nothing is worked on although {} judgements wait", left.len())),
        }
    }
    ensure!(left.is_empty() && waiting_count(&lock.nar) == 0, "{} judgements did not get their turn", left.len());
    ensure!(lock.cycle().is_none(), "work appeared from nowhere");
    c.nontrivial = m > 1;
    Ok(())
}

/// selection helpers: by share for the random ones, by maximum for the others
fn selection(s: &mut Src, c: &mut Ctx) -> R {
    let mem = createMem2(64, 20);
    let k = 1 + s.usize(8);
    let mut sents = vec![];
    for i in 0..k {
        let t = n(&format!("t{}", i));
        let x = sentence(&t, '.', v(1.0, 0.01 + 0.98 * s.unit()), &[i as i64]);
        memAddTask(Arc::clone(&mem.read().shared), &x, true, 64, 20, 1.0, 0);
        sents.push(Arc::new(parking_lot::RwLock::new(x)));
    }
    let tasks = mem.read().shared.read().judgementTasks.clone();
    let now = s.range(0, 3000);
    for t in &tasks {
        let mut t = t.write();
        t.credit = *s.pick(&[1.0, 0.5, 0.0, 2.0, 0.01]) + 0.001 * s.unit();
        t.qaCredit = *s.pick(&[0.0, 1.0, 10.0]);
        t.mulCredit = *s.pick(&[1.0, 0.9, 0.4]);
        t.derivTime = s.range(0, now);
    }
    let tk: Vec<Tk> = tasks.iter().map(|t| { let t = t.read(); Tk { id: t.id, b: belief(&t.sentence), credit: t.credit, qa: t.qaCredit, mul: t.mulCredit, time: t.derivTime } }).collect();
    let pr: Vec<f64> = tk.iter().map(|t| priority(t, now)).collect();
    for (t, p) in tasks.iter().zip(&pr) {
        let g = taskCalcCredit(&t.read(), now);
        ensure!(rel_eq(g, *p), "priority {} instead of {}", g, p);
    }
    let best = pr.iter().copied().fold(f64::MIN, f64::max);
    let i = taskSelByCreditTop(&tasks, now);
    ensure!(pr[i] >= best - 1e-12, "selected {} of {:?}", i, pr);
    c.line(&format!("priorities {:?}", pr));
    let confs: Vec<f64> = sents.iter().map(|x| belief(&x.read()).v.c).collect();
    for _ in 0..20 {
        let x = s.unit();
        let share = |w: &[f64]| -> (f64, Vec<f64>) {
            let sum: f64 = w.iter().sum();
            let mut acc = 0.0;
            (x * sum, w.iter().map(|y| { acc += y; acc }).collect())
        };
        for (name, w, got) in [("task", &pr, taskSelByCreditRandom(x, &tasks, now)), ("belief", &confs, conceptSelByAvRandom(x, &sents))] {
            let (at, upto) = share(w);
            let lo = if got == 0 { 0.0 } else { upto[got - 1] };
            ensure!(at >= lo - 1e-9 && at <= upto[got] + 1e-9, "{} {} is selected at {} of {:?}", name, got, x, w);
        }
        c.evals += 2;
    }
    c.nontrivial = k > 1;
    Ok(())
}

/// every question is worked on
fn questions_turn(s: &mut Src, c: &mut Ctx) -> R {
    let mut lock = Lock::new();
    let answers = listen(&lock.nar);
    let k = if s.chance(1, 5) { 8 + s.usize(40) } else { 1 + s.usize(7) };
    let mut asked: Vec<T> = vec![];
    for i in 0..k {
        // facts of any form, each about things of its own
        let (x, y, z) = (n(&format!("a{}", i)), n(&format!("b{}", i)), n(&format!("d{}", i)));
        let (f, q) = match s.usize(7) {
            0 => (inh(&x, &y), inh(&x, &y)),
            1 => (inh(&x, &y), inh(&qv("0"), &y)),
            2 => (st(Cop::Sim, &x, &y), st(Cop::Sim, &x, &qv("0"))),
            3 => (inh(&coll(K::Prod, &[x.clone(), y.clone()]), &z), inh(&coll(K::Prod, &[x, qv("0")]), &z)),
            4 => (inh(&coll(K::Prod, &[x.clone(), y.clone()]), &z), inh(&coll(K::Prod, &[qv("0"), qv("1")]), &z)),
            _ => (inh(&x, &y), inh(&x, &qv("0"))),
        };
        inputN(&mut lock.nar, &scen::line(&f, '.', Some(v(1.0, 0.9))));
        asked.push(q);
    }
    for i in (1..k).rev() {
        let j = s.usize(i + 1);
        asked.swap(i, j);
    }
    for q in &asked {
        let l = scen::line(q, '?', None);
        c.line(&l);
        ensure!(inputN(&mut lock.nar, &l), "{} is refused", l);
    }
    let mut n_cycles = 0;
    for _ in 0..k * 60 {
        n_cycles += 1;
        lock.cycle();
        if answers.read().got.len() >= k {
            break;
        }
    }
    for q in &asked {
        ensure!(answers.read().got.iter().any(|x| x.0 == *q), "question {} was not worked on in {} cycles", q.show(), n_cycles);
    }
    c.nontrivial = k > 1;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C26",
        vec![
            Part::new("cycles", "judgements of different priority competed", 7500, 80000, cycles).fresh(),
            Part::new("fair", "several judgements wait", 2400, 20000, fair).fresh(),
            Part::new("selection", "several candidates", 6000, 100000, selection).fresh(),
            Part::new("questions", "several questions", 1200, 20000, questions_turn).fresh(),
        ],
    ));
}
