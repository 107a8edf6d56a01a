#![allow(non_snake_case)]
//! C29 use: what is used is counted, and what is used is kept
use nar20_1::Nar::*;
use nar20_1::NarMem;
use nar20_1::NarSentence::{usageUpdate, Sentence, Usage};
use parking_lot::RwLock;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use vh::nar::*;
use vh::rules::*;
use vh::scen;
use vh::term::*;
use vh::*;

type U = (i64, i64); // uses, time of the last one
fn usage_of(s: &Sentence) -> U {
    let u = s.usage.read();
    (u.useCount, u.lastUsed)
}
/// how useful, by the formula of the documentation: uses over the time since the last one
fn useful(u: U, now: i64) -> f64 {
    let x = u.0 as f64 / ((now - u.1).max(0) as f64 + 1.0);
    x / (x + 1.0)
}
type Tables = BTreeMap<T, (Vec<(B, U)>, Vec<(B, U)>)>;
fn tables(mem: &NarMem::Mem) -> Tables {
    let f = |v: &Vec<Arc<RwLock<Sentence>>>| v.iter().map(|b| (belief(&b.read()), usage_of(&b.read()))).collect();
    mem.concepts.iter().map(|(k, c)| (from_nar(k), (f(&c.payload.beliefsByExp), f(&c.payload.beliefsByUsage)))).collect()
}
fn decl(nar: &Nar) -> Tables {
    let m = nar.mem.read();
    let s = m.shared.read();
    let mm = s.mem.read();
    tables(&mm)
}

/// a running reasoner: every cycle counts one use of what it works on and of its partners, and of nothing else
fn counting(s: &mut Src, c: &mut Ctx) -> R {
    let mut lock = Lock::new();
    let limit = if s.bool() { 2 + s.usize(5) } else { 20 };
    lock.nar.cfg__nConceptBeliefs = limit;
    c.line(&format!("limit {}", limit));
    // in half of the cases the clock of the procedural part agrees with that of the cycles, and usefulness is judged exactly
    let one_clock = s.bool();
    let names = 2 + s.usize(4);
    let total = 4 + s.usize(24);
    // every task so far, told ones marked
    let mut known: BTreeMap<i64, (Arc<RwLock<nar20_1::NarWorkingCycle::Task>>, bool)> = BTreeMap::new();
    let (mut used, mut dropped, mut full) = (0, 0, false);
    let collect = |nar: &Nar, known: &mut BTreeMap<i64, (Arc<RwLock<nar20_1::NarWorkingCycle::Task>>, bool)>, told: bool| {
        let m = nar.mem.read();
        for t in &m.shared.read().judgementTasks {
            let id = t.read().id;
            let single = t.read().sentence.stamp.ids.len() == 1;
            known.entry(id).or_insert((Arc::clone(t), told && single));
        }
    };
    for step in 0..total {
        let feed = if step == 0 { 2 + s.usize(8) } else if s.chance(1, 4) { 1 + s.usize(3) } else { 0 };
        for _ in 0..feed {
            let t = if s.chance(1, 3) { inh(&n(&format!("x{}", s.usize(30))), &n("a")) } else { scen::fact(s, names) };
            let l = scen::line(&t, '.', Some(scen::truth(s)));
            c.line(&l);
            let pre = decl(&lock.nar);
            let now = lock.nar.currentTime.load(Ordering::SeqCst);
            if one_clock {
                lock.nar.procNar.t = now;
            }
            ensure!(inputN(&mut lock.nar, &l), "well-formed line refused: {}", l);
            let post = decl(&lock.nar);
            collect(&lock.nar, &mut known, true);
            // no belief gives way to one which was used less and longer ago
            for (name, (_, old)) in &pre {
                let new = &post[name].1;
                full |= new.len() >= limit;
                for (b, u) in old {
                    if new.iter().any(|x| x.0.same(b)) || new.iter().any(|x| x.0.term == b.term && b.stamp.iter().all(|i| x.0.stamp.contains(i))) {
                        continue;
                    }
                    dropped += 1;
                    ensure!(new.len() >= limit, "belief {} of {} is forgotten although there is room", b.show(), name.show());
                    for (k, w) in new {
                        ensure!(!one_clock || useful(*u, now) <= useful(*w, now) + 1e-9, "{} (used {} times, last at {}) gives way to the less useful {} (used {} times, last at {}) at {}", b.show(), u.0, u.1, k.show(), w.0, w.1, now);
                        ensure!(!(u.0 > w.0 && u.1 >= w.1), "{} (used {} times, last at {}) gives way to {} (used {} times, last at {})", b.show(), u.0, u.1, k.show(), w.0, w.1);
                    }
                }
            }
        }
        let pre_t: BTreeMap<i64, U> = known.iter().map(|(k, t)| (*k, usage_of(&t.0.read().sentence))).collect();
        let pre = decl(&lock.nar);
        let msg = match lock.cycle() {
            Some(m) => m,
            None => continue,
        };
        let now = lock.nar.currentTime.load(Ordering::SeqCst);
        let post = decl(&lock.nar);
        let mut times: BTreeMap<i64, i64> = BTreeMap::new();
        *times.entry(msg.primary.read().id).or_insert(0) += 1;
        for t in &msg.secondary {
            *times.entry(t.read().id).or_insert(0) += 1;
        }
        // different tasks can be about the same piece of knowledge
        let cell = |id: &i64| Arc::as_ptr(&known[id].0.read().sentence.usage) as *const u8 as usize;
        let mut most: BTreeMap<usize, i64> = BTreeMap::new();
        for (id, k) in &times {
            ensure!(known.contains_key(id), "an unknown task is worked on");
            *most.entry(cell(id)).or_insert(0) += k;
        }
        for (id, (t, told)) in &known {
            let (a, b) = (pre_t[id], usage_of(&t.read().sentence));
            let what = belief(&t.read().sentence);
            match most.get(&cell(id)) {
                Some(m) => {
                    used += 1;
                    ensure!(b.0 > a.0 && b.0 <= a.0 + m && b.1 == now, "{} takes part in cycle {}, but its uses went from {:?} to {:?}", what.show(), now, a, b);
                }
                None => ensure!(a == b, "{} takes no part in cycle {}, but its uses went from {:?} to {:?}", what.show(), now, a, b),
            }
            if *told && !full {
                for (name, (x, y)) in &post {
                    for (h, u) in x.iter().chain(y.iter()) {
                        ensure!(!(h.term == what.term && h.stamp == what.stamp) || *u == b, "{} was used {:?}, but the belief of {} says {:?}", what.show(), b, name.show(), u);
                    }
                }
            }
        }
        // beliefs whose knowledge took no part keep their count
        let live: Vec<(T, Vec<i64>)> = times.keys().map(|id| belief(&known[id].0.read().sentence)).map(|b| (b.term, b.stamp)).collect();
        for (name, (x, y)) in &pre {
            let q = match post.get(name) {
                Some(q) => q,
                None => continue,
            };
            for (tab, now) in [(x, &q.0), (y, &q.1)].iter() {
                for (b, u) in tab.iter() {
                    if live.iter().any(|l| l.0 == b.term && l.1 == b.stamp) {
                        continue;
                    }
                    if let Some(z) = now.iter().find(|z| z.0.same(b)) {
                        ensure!(z.1 == *u, "the belief {} takes no part, but its uses went from {:?} to {:?}", b.show(), u, z.1);
                    }
                }
            }
        }
        if s.chance(3, 4) {
            let told_before: Vec<i64> = known.keys().copied().collect();
            lock.deliver(msg)?;
            collect(&lock.nar, &mut known, false);
            let done = decl(&lock.nar);
            // a conclusion about something new, which was not pooled with another one, is one piece of knowledge as well
            let fresh: Vec<(i64, T)> = known.iter().filter(|(id, _)| !told_before.contains(id)).map(|(id, t)| (*id, belief(&t.0.read().sentence).term)).collect();
            for (id, t) in &fresh {
                let known_before = post.values().any(|x| x.0.iter().chain(x.1.iter()).any(|b| b.0.term == *t));
                if !known_before && fresh.iter().filter(|x| x.1 == *t).count() == 1 {
                    known.get_mut(id).unwrap().1 = true;
                    c.label("a conclusion is followed");
                }
            }
            for (name, (_, old)) in &post {
                let new = &done[name].1;
                for (b, u) in old {
                    if new.iter().any(|x| x.0.same(b)) || new.iter().any(|x| x.0.term == b.term && b.stamp.iter().all(|i| x.0.stamp.contains(i))) {
                        continue;
                    }
                    dropped += 1;
                    c.label("something gave way to a conclusion");
                    ensure!(new.len() >= 20, "belief {} of {} is forgotten although there is room", b.show(), name.show());
                    for (k, w) in new.iter().filter(|k| old.iter().any(|o| o.0.same(&k.0))) {
                        ensure!(useful(*u, now) <= useful(*w, now) + 1e-9, "{} (used {} times, last at {}) gives way to the less useful {} (used {} times, last at {}) at {}", b.show(), u.0, u.1, k.show(), w.0, w.1, now);
                    }
                }
            }
            full |= decl(&lock.nar).values().any(|x| x.0.len() >= 20 || x.1.len() >= 20);
        }
        c.evals += 1;
    }
    if dropped > 0 {
        c.label("something was forgotten");
    }
    c.nontrivial = used > 5;
    Ok(())
}

/// a full table keeps what is most useful
fn kept(s: &mut Src, c: &mut Ctx) -> R {
    let nb = 1 + s.usize(7);
    let mut mem = NarMem::make();
    let hub = n("hub");
    let mut now = s.range(0, 50);
    let mut held: Vec<Arc<RwLock<Usage>>> = vec![];
    let mut cut = 0;
    c.line(&format!("limit {}", nb));
    for i in 0..2 + s.usize(24) as i64 {
        if s.chance(2, 3) {
            let far = if s.chance(1, 6) { 500 } else { 6 };
            now += s.range(0, far);
        }
        for _ in 0..s.usize(4) {
            if !held.is_empty() {
                let j = s.usize(held.len());
                let b = (held[j].read().useCount, held[j].read().lastUsed);
                usageUpdate(&mut held[j].write(), now);
                let a = (held[j].read().useCount, held[j].read().lastUsed);
                ensure!(a == (b.0 + 1, now), "a use at {} changed {:?} to {:?}", now, b, a);
            }
        }
        let o = n(&format!("t{}", i));
        let t = if s.bool() { inh(&hub, &o) } else { st(Cop::Sim, &o, &hub) };
        let sen = sentence(&t, '.', v(s.unit(), 0.1 + 0.8 * s.unit()), &[i]);
        if s.bool() {
            let last = s.range(0, now + 3);
            let most = *s.pick(&[9, 9, 9, 70, 300, 2000]);
            let uses = s.range(0, most);
            let mut u = sen.usage.write();
            u.lastUsed = last;
            u.useCount = uses;
        }
        held.push(Arc::clone(&sen.usage));
        c.line(&format!("at {} {} used {:?}", now, t.show(), usage_of(&sen)));
        let pre = tables(&mem);
        NarMem::storeInConcepts(&mut mem, &sen, nb, now);
        let post = tables(&mem);
        let old: Vec<(B, U)> = pre.get(&hub).map(|x| x.1.clone()).unwrap_or_default();
        let new = &post[&hub].1;
        let mut all = old.clone();
        all.push((belief(&sen), usage_of(&sen)));
        ensure!(new.len() == all.len().min(nb), "{} of {} beliefs are kept by use with a limit of {}", new.len(), all.len(), nb);
        for x in new {
            ensure!(all.iter().any(|y| y.0.same(&x.0) && y.1 == x.1), "{} was not there", x.0.show());
        }
        let worst = new.iter().map(|x| useful(x.1, now)).fold(f64::MAX, f64::min);
        for x in &all {
            if !new.iter().any(|y| y.0.same(&x.0)) {
                cut += 1;
                ensure!(useful(x.1, now) <= worst + 1e-9, "at {} {} used {:?} is forgotten before one of usefulness {}", now, x.0.show(), x.1, worst);
            }
        }
        for w in new.windows(2) {
            ensure!(useful(w[0].1, now) >= useful(w[1].1, now) - 1e-9, "beliefs are not ranked by use at {}: {:?}", now, new.iter().map(|x| x.1).collect::<Vec<_>>());
        }
        c.evals += 1;
    }
    c.nontrivial = cut > 0;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C29",
        vec![
            Part::new("counting", "more than five uses were counted", 4000, 100000, counting).fresh(),
            Part::new("kept", "something was forgotten", 12000, 400000, kept),
        ],
    ));
}
