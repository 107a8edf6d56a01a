#![allow(non_snake_case)]
//! C12 bounded resources: what is kept is limited, and what is kept is the best
use nar20_1::Nar::*;
use std::collections::{BTreeMap, BTreeSet};
use vh::att::*;
use vh::nar::*;
use vh::proc::*;
use vh::pscen;
use vh::rules::*;
use vh::scen;
use vh::term::*;
use vh::*;

/// the waiting judgements are reduced to the 30 best, and only those are partners afterwards
fn tasks(s: &mut Src, c: &mut Ctx) -> R {
    let mut lock = Lock::new();
    let many = s.bool();
    let lead = 1 + s.usize(6) as i64;
    let turn = 111 * s.range(1, 40);
    set_cycle(&lock.nar, turn - lead - *s.pick(&[0, 0, 400, 3000, 9000]).min(&(turn - lead)));
    let names = 3 + s.usize(4);
    let told = if many { 25 + s.usize(25) } else { 1 + s.usize(12) };
    for i in 0..told {
        let t = if s.chance(1, 3) { inh(&n(&format!("x{}", i)), &n("a")) } else { scen::fact(s, names) };
        let x = scen::truth(s);
        ensure!(inputN(&mut lock.nar, &scen::line(&t, '.', Some(x))), "refused");
        if s.chance(1, 10) {
            inputN(&mut lock.nar, &scen::line(&t, '?', None));
        }
        if s.chance(1, 5) {
            // judgements of different age
            set_cycle(&lock.nar, (cycle_of(&lock.nar) + s.range(0, 200)).min(turn - lead));
        }
    }
    set_cycle(&lock.nar, turn - lead);
    let mut known: BTreeMap<i64, B> = BTreeMap::new(); // judgements which can be partners
    known.extend(waiting(&lock.nar).into_iter().map(|(k, t)| (k, t.b)));
    let mut cut = 0;
    for _ in 0..lead + 8 {
        let before = waiting(&lock.nar);
        let qs = questions(&lock.nar);
        let msg = match lock.cycle() {
            Some(m) => m,
            None => continue,
        };
        let now = cycle_of(&lock.nar);
        let pid = msg.primary.read().id;
        // partners
        let p = belief(&msg.primary.read().sentence);
        let partners: BTreeSet<i64> = msg.secondary.iter().map(|t| t.read().id).collect();
        let subs = p.term.subterms();
        let few = subs.iter().all(|x| known.values().map(|b| b.term.subterms().iter().filter(|y| *y == x).count()).sum::<usize>() <= 50);
        for id in &partners {
            ensure!(known.contains_key(id) || *id == pid, "a forgotten judgement is still a partner of {}", p.show());
        }
        if few {
            for (id, b) in &known {
                if b.term.subterms().iter().any(|x| subs.contains(x)) {
                    ensure!(partners.contains(id), "{} shares a term with {} but is no partner at cycle {}", b.show(), p.show(), now);
                }
            }
        }
        ensure!(partners.len() <= 300, "{} partners at once", partners.len());
        let after = waiting(&lock.nar);
        let want: BTreeMap<i64, Tk> = before.iter().filter(|(k, _)| **k != pid).map(|(k, t)| (*k, paid(t, &qs))).collect();
        if now % 111 == 0 {
            ensure!(after.len() <= 30, "{} judgements wait after the reduction at cycle {}", after.len(), now);
            for t in after.values() {
                ensure!(want.contains_key(&t.id), "{} was not waiting", t.b.show());
                ensure!(priority(&want[&t.id], now) > 0.001 - 1e-9, "{} with priority {} is kept", t.b.show(), priority(&want[&t.id], now));
            }
            let worst = after.values().map(|t| priority(&want[&t.id], now)).fold(f64::MAX, f64::min);
            for (id, t) in &want {
                if !after.contains_key(id) {
                    let x = priority(t, now);
                    cut += 1;
                    ensure!(x <= 0.001 + 1e-9 || (after.len() == 30 && x <= worst + 1e-9), "{} with priority {} is forgotten while {} wait, the worst with {}", t.b.show(), x, after.len(), worst);
                }
            }
            known = after.values().map(|t| (t.id, t.b.clone())).collect();
            c.line(&format!("cycle {}: {} of {} kept", now, after.len(), want.len()));
        } else {
            ensure!(after.keys().eq(want.keys()), "judgements are lost at cycle {} of {}", now, want.len());
        }
        if s.chance(1, 2) {
            let old = waiting(&lock.nar);
            lock.deliver(msg)?;
            let new = waiting(&lock.nar);
            ensure!(old.keys().all(|k| new.contains_key(k)), "deriving lost waiting judgements");
            for t in new.values() {
                ensure!(t.b.term.complexity() <= 64, "{} is too complex", t.b.show());
            }
            known.extend(new.into_iter().map(|(k, t)| (k, t.b)));
        }
        c.evals += 1;
    }
    c.nontrivial = cut > 0;
    Ok(())
}

/// the memory is reduced to 3000 concepts
fn concepts(s: &mut Src, c: &mut Ctx) -> R {
    let mut lock = Lock::new();
    let late = s.chance(1, 3);
    let turn = 173 * s.range(1, if late { 400 } else { 20 });
    set_cycle(&lock.nar, turn - 2);
    let k = 300 + s.usize(1600);
    // each statement with names of its own, or many statements about the same things
    let shared = *s.pick(&[0usize, 0, 20, 300]);
    let mut names: BTreeSet<T> = BTreeSet::new();
    for i in 0..k {
        let x = v((s.usize(101) as f64) / 100.0, 0.01 + (s.usize(98) as f64) / 100.0);
        let b = if shared > 0 { n(&format!("q{}", s.usize(shared))) } else { n(&format!("q{}", i)) };
        let a = n(&format!("p{}", i));
        let (a, b) = if shared > 0 && s.bool() { (b, a) } else { (a, b) };
        let t = if shared > 0 && s.chance(1, 4) { inh(&coll(K::Prod, &[a, b]), &n(&format!("r{}", i))) } else { inh(&a, &b) };
        names.extend(t.subterms());
        inputT(&mut lock.nar, &to_nar(&t), nar20_1::NarSentence::EnumPunctation::JUGEMENT, &nar20_1::Tv::Tv { f: x.f, c: x.c });
        if s.chance(1, 200) {
            inputN(&mut lock.nar, &scen::line(&t, '?', None));
        }
    }
    // one cycle before the turn nothing is forgotten
    let pre = snap_decl(&lock.nar);
    ensure!(pre.keys().all(|x| names.contains(x)) && pre.len() == names.len(), "{} concepts of {} statements about {} terms", pre.len(), k, names.len());
    lock.cycle();
    ensure!(snap_decl(&lock.nar) == pre, "the memory changed before its reduction is due");
    lock.cycle();
    let post = snap_decl(&lock.nar);
    c.line(&format!("cycle {}: {} statements, {} concepts, {} kept, {} questions", turn, k, pre.len(), post.len(), questions(&lock.nar).len()));
    ensure!(post.len() == pre.len().min(3000), "{} of {} concepts are kept", post.len(), pre.len());
    let rate = |x: &(Vec<B>, Vec<B>)| x.0.iter().map(|b| expect(b.v)).fold(0.0, f64::max);
    let worst = post.values().map(rate).fold(f64::MAX, f64::min);
    for (name, x) in &pre {
        match post.get(name) {
            Some(y) => ensure!(x == y, "the reduction changed concept {}", name.show()),
            None => ensure!(rate(x) <= worst + 1e-9, "concept {} of rating {} is forgotten before one of {}", name.show(), rate(x), worst),
        }
    }
    c.nontrivial = post.len() < pre.len();
    Ok(())
}

/// procedural evidence: number of concepts and of beliefs per concept
fn evidence_limits(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&pscen::OPS);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let k = 1 + s.usize(12);
    let _ = pscen::knowledge(s, &mut p, c, k)?;
    let max = 1 + s.usize(12);
    p.nar.procNar.cfg__nConcepts = max as i64;
    p.nar.procNar.t = 101 * s.range(0, 30) + s.range(-2, 3).max(0);
    let mut cut = false;
    for _ in 0..4 {
        let pre = snap(&p.nar.procNar.evidenceMem.read());
        let t = p.t();
        p.step1();
        let post = snap(&p.nar.procNar.evidenceMem.read());
        if t % 101 == 1 {
            ensure!(post.len() == pre.len().min(max), "{} of {} concepts are kept with a limit of {}", post.len(), pre.len(), max);
            let rate = |x: &(Vec<B>, Vec<B>)| x.0.iter().map(|b| expect(b.v)).fold(0.0, f64::max);
            let worst = post.values().map(rate).fold(f64::MAX, f64::min);
            for (name, x) in &pre {
                match post.get(name) {
                    Some(y) => ensure!(x == y, "the reduction changed concept {}", name.show()),
                    None => {
                        cut = true;
                        ensure!(rate(x) <= worst + 1e-9, "concept {} of rating {} is forgotten before one of {}", name.show(), rate(x), worst)
                    }
                }
            }
            c.line(&format!("t={} {} of {} concepts kept", t, post.len(), pre.len()));
        } else {
            ensure!(pre == post, "the evidence changed at {}", t);
        }
    }
    c.nontrivial = cut;
    Ok(())
}
/// at most 100 beliefs per concept for observations, the best by expectation; the configured number when told
fn evidence_tables(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&pscen::OPS);
    let told = s.bool();
    let limit = if told { 1 + s.usize(20) } else { 100 };
    if told {
        p.nar.cfg__nConceptBeliefs = limit;
    }
    let k = (limit + s.usize(12)).max(4) - 3;
    let key = n("hub");
    let mut all: Vec<(T, f64)> = vec![];
    for i in 0..k {
        let o = op(&[coll(K::SetExt, &[n("SELF")])], "^go");
        let t = st(Cop::Pred, &coll(K::Seq, &[key.clone(), o]), &n(&format!("r{}", i)));
        if told {
            p.tell(&t);
            all.push((t, 0.0));
        } else {
            let (pos, cnt) = pscen::counts(s);
            let e = evidence(&t, &[5000 + i as i64], pos, cnt, Some(0));
            all.push((t, expect(belief(&e).v)));
            p.store(vec![(e, 0)])?;
        }
        let m = snap(&p.nar.procNar.evidenceMem.read());
        let tab = &m[&key];
        ensure!(tab.0.len() == limit.min(i + 1) && tab.1.len() == limit.min(i + 1), "{} and {} pieces of evidence about one term after {} were given, the limit is {}", tab.0.len(), tab.1.len(), i + 1, limit);
        if !told {
            let worst = tab.0.iter().map(|b| expect(b.v)).fold(f64::MAX, f64::min);
            for (t, x) in &all {
                let kept = tab.0.iter().any(|b| b.term == *t);
                ensure!(kept || *x <= worst + 1e-9, "{} of expectation {} is forgotten before one of {}", t.show(), x, worst);
            }
            for w in tab.0.windows(2) {
                ensure!(expect(w[0].v) >= expect(w[1].v) - 1e-9, "evidence is not ranked by expectation");
            }
        }
    }
    c.line(&format!("{} given, limit {}", k, limit));
    c.nontrivial = k > limit;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C12",
        vec![
            Part::new("tasks", "judgements were forgotten", 4500, 60000, tasks).fresh(),
            Part::new("concepts", "concepts were forgotten", 250, 8000, concepts).fresh().hang(240),
            Part::new("evidence", "evidence was forgotten", 2400, 40000, evidence_limits).fresh(),
            Part::new("tables", "more evidence than the limit was given", 240, 4000, evidence_tables).fresh(),
        ],
    ));
}
