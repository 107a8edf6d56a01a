#![allow(non_snake_case)]
//! C11 questions and answers
use nar20_1::Nar::*;
use nar20_1::NarWorkingCycle::*;
use parking_lot::RwLock;
use std::collections::BTreeMap;
use std::sync::Arc;
use vh::nar::*;
use vh::rules::*;
use vh::scen;
use vh::term::*;
use vh::*;

fn matches(q: &T, t: &T) -> bool {
    unify_ref(q, t, &mut vec![])
}

/// turn some parts of a statement into query variables
fn ask(s: &mut Src, t: &T) -> T {
    match t {
        T::Stmt(c, a, b) => match s.usize(5) {
            0 => t.clone(),
            1 => st(*c, &qv("1"), b),
            2 => st(*c, a, &qv("1")),
            3 => st(*c, &qv("1"), &qv("2")),
            _ => st(*c, &ask(s, a), b),
        },
        T::Coll(k, v) if !v.is_empty() && s.bool() => {
            let i = s.usize(v.len());
            let mut w = v.clone();
            w[i] = qv("3");
            T::Coll(*k, w)
        }
        _ => t.clone(),
    }
}

/// candidates are offered one after another to a question
fn offered(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(2), vars: false, grammar: false, names: 3 };
    let base = gen_stmt(s, &g);
    let q = ask(s, &base);
    let own = s.bool();
    let mut own_h = None;
    let mem = createMem2(64, 20);
    let sh = Arc::clone(&mem.read().shared);
    memAddTask(Arc::clone(&sh), &sentence(&q, '?', v(1.0, 0.9), &[0]), true, 64, 20, 1.0, 0);
    if q.complexity() > 64 {
        return Ok(());
    }
    let handlers: Vec<Arc<RwLock<Answers>>> = (0..1 + s.usize(3)).map(|_| Arc::new(RwLock::new(Answers { got: vec![] }))).collect();
    let dynh: Vec<Arc<RwLock<dyn QHandler>>> = handlers.iter().map(|h| h.clone() as Arc<RwLock<dyn QHandler>>).collect();
    c.line(&format!("{}?", q.text()));
    let guard = sh.read();
    let mut qs = guard.questionTasks.write();
    ensure!(qs.len() == 1, "one question was asked, {} are pending", qs.len());
    if own {
        let h = Arc::new(RwLock::new(Answers { got: vec![] }));
        qs[0].handler = Some(h.clone());
        own_h = Some(h);
    }
    let k = 1 + s.usize(10);
    let mut best = 0.0;
    let mut want: Vec<(T, B)> = vec![];
    for i in 0..k {
        let t = match s.usize(4) {
            0 => mutate(s, &base, &g),
            1 => gen_stmt(s, &g),
            _ => {
                // instance of the question
                let sub: Vec<(T, T)> = q.vars().into_iter().map(|x| (x, gen_term(s, &G { depth: 1, ..g }))).collect();
                subst_ref(&q, &sub)
            }
        };
        let p = if s.chance(1, 8) { *s.pick(&['!', '?']) } else { '.' };
        let x = scen::truth(s);
        c.line(&format!("{}{} {{{} {}}}", t.text(), p, x.f, x.c));
        let sen = sentence(&t, p, x, &[i as i64 + 1]);
        qaTryAnswer(&mut qs[0], &sen, &dynh);
        if p == '.' && matches(&q, &t) && expect(x) > best {
            best = expect(x);
            want.push((q.clone(), belief(&sen)));
        }
        for h in handlers.iter().chain(own_h.iter()) {
            let got = &h.read().got;
            ensure!(*got == want, "{} offered to {}?: {} answers were reported, expected {} (last {:?})", t.show(), q.show(), got.len(), want.len(), got.last().map(|x| x.1.show()));
        }
        ensure!((qs[0].bestAnswerExp - best).abs() < 1e-12, "best answer is rated {} instead of {}", qs[0].bestAnswerExp, best);
    }
    c.evals = k as u64;
    c.nontrivial = !want.is_empty();
    Ok(())
}

/// questions put to a running reasoner
fn running(s: &mut Src, c: &mut Ctx) -> R {
    // many: as many questions as a long session accumulates
    let many = s.chance(1, 10);
    let names = if many { 6 + s.usize(6) } else { 2 + s.usize(4) };
    let mut lock = Lock::new();
    let heard = listen(&lock.nar);
    let mut facts: Vec<T> = vec![];
    let mut asked: Vec<T> = vec![];
    let mut best: BTreeMap<T, f64> = BTreeMap::new();
    let single_q = s.bool();
    let nq = if many { 6 + s.usize(12) } else if single_q { 1 } else { 1 + s.usize(4) };
    let k = if many { 8 + s.usize(10) } else { 2 + s.usize(6) };
    for _ in 0..k {
        let t = scen::fact(s, names);
        let l = scen::line(&t, '.', Some(scen::truth(s)));
        c.line(&l);
        inputN(&mut lock.nar, &l);
        facts.push(t);
    }
    if s.chance(1, 8) {
        // one concept is known much about: more than it holds
        let (hub, left) = (n(["a", "b"][s.usize(2)]), s.bool());
        for i in 0..19 + s.usize(10) {
            let x = n(&format!("m{}", i));
            let t = if left { inh(&hub, &x) } else { inh(&x, &hub) };
            let l = scen::line(&t, '.', Some(v(1.0, *s.pick(&[0.9, 0.95, 0.5]))));
            c.line(&l);
            inputN(&mut lock.nar, &l);
        }
        c.label("crowded concept");
    }
    let total = 4 + s.usize(if c.thorough { 40 } else { 16 });
    let mut seen = 0;
    for step in 0..total {
        let mut tries = if many { 4 } else { 1 };
        while tries > 0 && asked.len() < nq && (step == 0 || s.chance(1, 3)) {
            tries -= 1;
            let f = if s.chance(3, 4) { facts[s.usize(facts.len())].clone() } else { scen::fact(s, names) };
            let q = ask(s, &f);
            if !asked.contains(&q) {
                let l = format!("{}?{}", q.text(), if s.chance(1, 5) { " :|:" } else { "" });
                c.line(&l);
                ensure!(inputN(&mut lock.nar, &l), "well-formed question refused: {}", l);
                asked.push(q);
            }
        }
        if s.chance(1, 6) {
            let t = scen::fact(s, names);
            let l = scen::line(&t, '.', Some(scen::truth(s)));
            c.line(&l);
            inputN(&mut lock.nar, &l);
        }
        let pre = snap_decl(&lock.nar);
        let msg = lock.cycle();
        // held beliefs answer the question
        let mut allowed: Vec<B> = pre.values().flat_map(|(a, b)| a.iter().chain(b.iter()).cloned()).collect();
        seen = absorb(&heard, seen, &mut best, &asked, &allowed, c)?;
        if asked.len() == 1 {
            let q = &asked[0];
            for sub in q.subterms() {
                for b in pre.get(&sub).map(|x| x.0.iter().chain(x.1.iter()).cloned().collect::<Vec<B>>()).unwrap_or_default() {
                    if matches(q, &b.term) {
                        let top = best.get(q).cloned().unwrap_or(0.0);
                        ensure!(top >= expect(b.v) - 1e-9, "belief {} answers {}? better than what was reported (rated {}) but is not reported", b.show(), q.show(), top);
                    }
                }
            }
        }
        if let Some(m) = msg {
            let p = belief(&m.primary.read().sentence);
            let partners: Vec<B> = m.secondary.iter().map(|t| belief(&t.read().sentence)).collect();
            let own: Vec<B> = pre.get(&p.term).map(|x| x.0.iter().chain(x.1.iter()).cloned().collect()).unwrap_or_default();
            lock.deliver(m)?;
            let mut concl: Vec<B> = vec![];
            let mk = |t: T, x: V, st: Vec<i64>| B { term: t, v: x, stamp: st, cnt: None, exp_dt: None, punct: '.' };
            for (t, x, _) in single(&p.term, '.', Some(p.v)) {
                concl.push(mk(t, x, p.stamp.clone()));
            }
            for q in partners.iter().chain(own.iter()) {
                if !overlap(&p.stamp, &q.stamp) {
                    for (t, x, _) in binary(&p.term, '.', Some(p.v), &q.term, '.', Some(q.v)) {
                        concl.push(mk(t, x, merge(&p.stamp, &q.stamp)));
                    }
                }
            }
            allowed = concl.clone();
            let before = seen;
            seen = absorb(&heard, seen, &mut best, &asked, &allowed, c)?;
            if seen > before {
                c.label("answered by a conclusion");
            }
            for q in &asked {
                let top = best.get(q).cloned().unwrap_or(0.0);
                for b in &concl {
                    if matches(q, &b.term) {
                        ensure!(top >= expect(b.v) - 1e-9, "conclusion {} answers {}? better than what was reported (rated {}) but is not reported", b.show(), q.show(), top);
                    }
                }
            }
        }
        c.evals += 2;
    }
    // with several questions each one is served at random: they are all served eventually
    if asked.len() > 1 {
        let mut missing = true;
        for _ in 0..400 {
            lock.cycle();
            let pre = snap_decl(&lock.nar);
            let mut allowed: Vec<B> = pre.values().flat_map(|(a, b)| a.iter().chain(b.iter()).cloned()).collect();
            allowed.extend(vec![]);
            seen = absorb(&heard, seen, &mut best, &asked, &allowed, c)?;
            missing = asked.iter().any(|q| q.subterms().iter().any(|sub| pre.get(sub).map_or(false, |x| x.0.iter().chain(x.1.iter()).any(|b| matches(q, &b.term) && expect(b.v) > best.get(q).cloned().unwrap_or(0.0) + 1e-9))));
            if !missing {
                break;
            }
        }
        ensure!(!missing, "one of the questions {:?} is not answered by a held belief within 400 cycles", asked.iter().map(|q| q.show()).collect::<Vec<_>>());
        c.label("several questions");
    }
    c.nontrivial = seen > 0;
    Ok(())
}

/// check the newly reported answers
fn absorb(heard: &Arc<RwLock<Answers>>, seen: usize, best: &mut BTreeMap<T, f64>, asked: &[T], allowed: &[B], c: &mut Ctx) -> Result<usize, String> {
    let got = heard.read().got.clone();
    for (q, b) in &got[seen..] {
        c.line(&format!("  {}? -> {}", q.show(), b.show()));
        ensure!(asked.contains(q), "an answer is reported to the question {}? that was not asked", q.show());
        ensure!(b.punct == '.', "the answer {} is not a judgement", b.show());
        ensure!(matches(q, &b.term), "{} is reported as answer to {}? but does not match", b.show(), q.show());
        let e = expect(b.v);
        let old = best.get(q).cloned().unwrap_or(0.0);
        ensure!(e > old, "{} is reported as answer to {}? but a better one (rated {}) was reported before", b.show(), q.show(), old);
        best.insert(q.clone(), e);
        ensure!(allowed.iter().any(|x| x.term == b.term && (x.v.f - b.v.f).abs() < 1e-7 && (x.v.c - b.v.c).abs() < 1e-7), "the answer {} to {}? is neither a held belief nor a conclusion", b.show(), q.show());
    }
    Ok(got.len())
}

/// temporal questions are answered from the learned and told temporal knowledge
fn temporal(s: &mut Src, c: &mut Ctx) -> R {
    let mut lock = Lock::new();
    let heard = listen(&lock.nar);
    let ev = |s: &mut Src| match s.usize(4) {
        3 => inh(&n(["a", "b", "c"][s.usize(3)]), &coll(K::SetInt, &[n("p")])),
        _ => n(["a", "b", "c", "d"][s.usize(4)]),
    };
    let mut told = vec![];
    for _ in 0..1 + s.usize(6) {
        let o = if s.bool() { n(["^x", "^y"][s.usize(2)]) } else { op(&[coll(K::SetExt, &[n("SELF")]), n("x")], ["^x", "^y"][s.usize(2)]) };
        let t = st(Cop::Pred, &coll(K::Seq, &[ev(s), o]), &ev(s));
        // a statement that is not temporal must not answer
        let l = format!("{}.", t.text());
        c.line(&l);
        ensure!(inputN(&mut lock.nar, &l), "well-formed line refused: {}", l);
        told.push(t);
    }
    let q = {
        let f = told[s.usize(told.len())].clone();
        let q = ask(s, &f);
        if s.chance(1, 5) {
            mutate(s, &q, &G { depth: 2, vars: false, grammar: true, names: 3 })
        } else {
            q
        }
    };
    let l = format!("{}?", q.text());
    c.line(&l);
    if !inputN(&mut lock.nar, &l) || !matches!(q, T::Stmt(Cop::Pred, _, _)) {
        return Ok(());
    }
    let pm = snap(&lock.nar.procNar.evidenceMem.read());
    for _ in 0..2 {
        lock.step()?;
    }
    let allowed: Vec<B> = pm.values().flat_map(|(a, b)| a.iter().chain(b.iter()).cloned()).collect();
    let mut best = BTreeMap::new();
    let seen = absorb(&heard, 0, &mut best, &[q.clone()], &allowed, c)?;
    for sub in q.subterms() {
        for b in pm.get(&sub).map(|x| x.0.iter().chain(x.1.iter()).cloned().collect::<Vec<B>>()).unwrap_or_default() {
            if matches(&q, &b.term) {
                ensure!(best.get(&q).cloned().unwrap_or(0.0) >= expect(b.v) - 1e-9, "temporal belief {} answers {}? but is not reported", b.show(), q.show());
            }
        }
    }
    c.nontrivial = seen > 0;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C11",
        vec![
            Part::new("offered", "at least one candidate is an answer", 60000, 2000000, offered),
            Part::new("running", "at least one answer was reported", 5000, 150000, running).fresh(),
            Part::new("temporal", "at least one answer was reported", 6000, 200000, temporal).fresh(),
        ],
    ));
}
