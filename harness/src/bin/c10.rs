#![allow(non_snake_case)]
//! C10 the derivation loop: sound and complete steps
use nar20_1::Nar::*;
use std::collections::BTreeMap;
use vh::nar::*;
use vh::rules::*;
use vh::scen;
use vh::term::*;
use vh::*;

/// (term, truth, evidence) of a sentence that is licensed by a step
#[derive(Clone)]
struct E {
    t: T,
    v: V,
    s: Vec<i64>,
}
fn sorted(s: &[i64]) -> Vec<i64> {
    let mut x = s.to_vec();
    x.sort();
    x
}
fn near(a: V, b: V) -> bool {
    (a.f - b.f).abs() < 1e-7 && (a.c - b.c).abs() < 1e-7
}
fn same(a: &E, t: &T, x: V, s: &[i64]) -> bool {
    a.t == *t && near(a.v, x) && sorted(&a.s) == sorted(s)
}
fn push(out: &mut Vec<E>, e: E) {
    if !out.iter().any(|o| same(o, &e.t, e.v, &e.s)) {
        out.push(e);
    }
}
/// everything one step may conclude from the selected task, the partner tasks and the beliefs of its concept
fn licensed(p: &B, partners: &[B], beliefs: &[B]) -> Vec<E> {
    let mut out = vec![];
    for (t, x, _) in single(&p.term, p.punct, Some(p.v)) {
        push(&mut out, E { t, v: x, s: p.stamp.clone() });
    }
    for q in partners.iter().chain(beliefs.iter()) {
        if overlap(&p.stamp, &q.stamp) {
            continue;
        }
        for (t, x, _) in binary(&p.term, p.punct, Some(p.v), &q.term, q.punct, Some(q.v)) {
            push(&mut out, E { t, v: x, s: merge(&p.stamp, &q.stamp) });
        }
    }
    out
}
/// all results of pooling one of `start` with members of `e` (same term, independent evidence)
fn pooled(start: &[E], e: &[E], limit: usize) -> Option<Vec<E>> {
    let mut all: Vec<E> = start.to_vec();
    let mut i = 0;
    while i < all.len() {
        let x = all[i].clone();
        for y in e {
            if y.t == x.t && !overlap(&x.s, &y.s) {
                let z = E { t: x.t.clone(), v: rev(x.v, y.v), s: merge(&x.s, &y.s) };
                if !all.iter().any(|o| same(o, &z.t, z.v, &z.s)) {
                    all.push(z);
                    if all.len() > limit {
                        return None;
                    }
                }
            }
        }
        i += 1;
    }
    Some(all)
}

fn task_table(nar: &Nar) -> BTreeMap<i64, B> {
    let m = nar.mem.read();
    let s = m.shared.read();
    s.judgementTasks.iter().map(|t| (t.read().id, belief(&t.read().sentence))).collect()
}

fn steps(s: &mut Src, c: &mut Ctx) -> R {
    run(s, c, false)
}
/// much is known about a statement, but nothing of it waits any more: the beliefs are partners all the same
fn held(s: &mut Src, c: &mut Ctx) -> R {
    run(s, c, true)
}
fn run(s: &mut Src, c: &mut Ctx, crowd: bool) -> R {
    let names = 2 + s.usize(4);
    let k = 2 + s.usize(7);
    let mut lock = Lock::new();
    lock.nar.cfgVerbosityInput = 0;
    let mut nfacts = 0;
    let total = if crowd { 1 + s.usize(3) } else { 6 + s.usize(if c.thorough { 60 } else { 24 }) };
    let mut registry: BTreeMap<i64, B> = BTreeMap::new(); // every task so far
    let mut derived = 0;
    let mut revised = 0;
    let mut told: Vec<T> = vec![];
    if crowd {
        let x = scen::simple(s, 2);
        for i in 0..10 + s.usize(30) {
            let y = inh(&n(&format!("z{}", i)), &n("k"));
            let t = match s.usize(8) {
                0 => st(Cop::Impl, &y, &x),
                1 => st(Cop::Equiv, &x, &y),
                2 => st(Cop::Impl, &T::Coll(K::Conj, vec![x.clone(), y]), &inh(&n("o"), &n("p"))),
                3 => x.clone(),
                _ => st(Cop::Impl, &x, &y),
            };
            let l = scen::line(&t, '.', Some(scen::truth(s)));
            c.line(&l);
            ensure!(inputN(&mut lock.nar, &l), "well-formed line refused: {}", l);
            nfacts += 1;
        }
        let mut quit = false;
        c.line("!dtf");
        nar20_1::NarInputFacade::input(&mut lock.nar, &"!dtf".to_string(), &mut quit);
        let l = scen::line(&x, '.', Some(v(1.0, 0.9)));
        c.line(&l);
        ensure!(inputN(&mut lock.nar, &l), "well-formed line refused: {}", l);
        nfacts += 1;
    }
    for step in 0..total {
        let feed = if crowd { 0 } else if step == 0 { k } else if s.chance(1, 8) { 1 } else { 0 };
        for _ in 0..feed {
            let t = if !told.is_empty() && s.chance(1, 6) { told[s.usize(told.len())].clone() } else { scen::fact(s, names) };
            told.push(t.clone());
            let x = scen::truth(s);
            let l = scen::line(&t, '.', Some(x));
            c.line(&l);
            ensure!(inputN(&mut lock.nar, &l), "well-formed line refused: {}", l);
            let id = nfacts;
            nfacts += 1;
            let now = task_table(&lock.nar);
            // what is known together with the new fact is worked on, too
            let more: Vec<B> = snap_decl(&lock.nar).values().flat_map(|(a, b)| a.iter().chain(b.iter())).filter(|b| b.stamp.len() > 1 && b.stamp.contains(&id)).cloned().collect();
            if !more.is_empty() {
                c.label("told what is known already");
                ensure!(now.values().any(|w| more.iter().any(|b| b.term == w.term && sorted(&b.stamp) == sorted(&w.stamp))), "{} pools the new fact with what was known, but is not worked on", more[0].show());
            }
            registry.extend(now);
        }
        if s.chance(1, 12) {
            // as if the knowledge were itself the result of many decompositions: of less interest, but as true
            let x = 0.5f64.powi(1 + s.usize(20) as i32);
            let m = lock.nar.mem.read();
            for t in &m.shared.read().judgementTasks {
                t.write().mulCredit *= x;
            }
            c.label("less attention");
        }
        let pre_tasks = task_table(&lock.nar);
        registry.extend(pre_tasks.clone());
        let msg = lock.cycle();
        let msg = match msg {
            Some(m) => m,
            None => {
                ensure!(pre_tasks.is_empty(), "nothing was selected although {} tasks wait", pre_tasks.len());
                continue;
            }
        };
        let pid = msg.primary.read().id;
        let p = belief(&msg.primary.read().sentence);
        ensure!(pre_tasks.get(&pid) == Some(&p), "the selected task {} was not waiting", p.show());
        let partners: BTreeMap<i64, B> = msg.secondary.iter().map(|t| (t.read().id, belief(&t.read().sentence))).collect();
        c.line(&format!("  step: {}", p.show()));
        // the selected task leaves the waiting tasks, the others stay
        let mid = task_table(&lock.nar);
        for (id, b) in &pre_tasks {
            ensure!((*id == pid) != mid.contains_key(id), "task {} is {} after selecting {}", b.show(), if mid.contains_key(id) { "kept" } else { "gone" }, p.show());
        }
        let subs = p.term.subterms();
        let mut rel = 0;
        // the partner search looks at the first fifty entries of each term
        let few = subs.iter().all(|x| registry.values().map(|b| b.term.subterms().iter().filter(|y| *y == x).count()).sum::<usize>() <= 50);
        for (id, b) in &registry {
            let related = b.term.subterms().iter().any(|x| subs.contains(x));
            if related {
                rel += 1;
                if few {
                    ensure!(partners.contains_key(id), "task {} shares a term with the selected {} but is no partner", b.show(), p.show());
                }
            } else {
                ensure!(!partners.contains_key(id), "task {} shares no term with the selected {} but is a partner", b.show(), p.show());
            }
        }
        ensure!(partners.keys().all(|id| registry.contains_key(id)), "an unknown task is a partner");
        let pre = snap_decl(&lock.nar);
        let own: Vec<B> = pre.get(&p.term).map(|x| x.0.iter().chain(x.1.iter()).cloned().collect()).unwrap_or_default();
        let exp = licensed(&p, &partners.values().cloned().collect::<Vec<_>>(), &own);
        if few && rel > 1 {
            c.label("all partners checked");
        }
        lock.deliver(msg)?;
        let post = snap_decl(&lock.nar);
        let post_tasks = task_table(&lock.nar);
        // soundness of beliefs
        for (name, (ex, us)) in &post {
            let empty = (vec![], vec![]);
            let old = pre.get(name).unwrap_or(&empty);
            for (tab, before) in [(ex, &old.0), (us, &old.1)].iter() {
                for b in tab.iter() {
                    ensure!(b.v.f >= -1e-9 && b.v.f <= 1.0 + 1e-9 && b.v.c >= 0.0 && b.v.c < 1.0, "belief {} has a truth value out of range", b.show());
                    ensure!(b.term.complexity() <= 64, "belief {} is too complex", b.show());
                    let mut d = sorted(&b.stamp);
                    d.dedup();
                    ensure!(d.len() == b.stamp.len(), "belief {} counts evidence twice", b.show());
                    ensure!(b.stamp.iter().all(|i| *i >= 0 && *i < nfacts), "belief {} rests on evidence that never was given", b.show());
                    if before.iter().any(|o| o.same(b)) {
                        continue;
                    }
                    derived += 1;
                    let e: Vec<E> = exp.iter().filter(|e| e.t == b.term).cloned().collect();
                    if e.iter().any(|e| same(e, &b.term, b.v, &b.stamp)) {
                        continue;
                    }
                    let mut start = e.clone();
                    start.extend(before.iter().filter(|o| o.term == b.term).map(|o| E { t: o.term.clone(), v: o.v, s: o.stamp.clone() }));
                    match pooled(&start, &e, 400) {
                        None => c.label("pooling not enumerated"),
                        Some(all) => {
                            revised += 1;
                            ensure!(
                                all.iter().any(|e| same(e, &b.term, b.v, &b.stamp)),
                                "belief {} appeared in concept {} but neither follows from {} and its partners nor pools such conclusions with a held belief (held: {:?}; follows: {:?})",
                                b.show(),
                                name.show(),
                                p.show(),
                                before.iter().filter(|o| o.term == b.term).map(|o| o.show()).collect::<Vec<_>>(),
                                e.iter().map(|e| format!("{} {:?} {:?}", e.t.show(), e.v, e.s)).collect::<Vec<_>>()
                            );
                        }
                    }
                }
            }
        }
        // nothing that was known vanishes except by pooling or the limit
        for (name, (ex, _)) in &pre {
            ensure!(post.contains_key(name), "concept {} vanished", name.show());
            for b in ex {
                let now = &post[name].0;
                let kept = now.iter().any(|x| x.term == b.term && b.stamp.iter().all(|i| x.stamp.contains(i)));
                ensure!(kept || now.len() >= 20, "belief {} of {} vanished", b.show(), name.show());
            }
        }
        // completeness: every licensed conclusion becomes a task and a belief
        for e in &exp {
            if e.t.complexity() > 64 {
                continue;
            }
            ensure!(
                post_tasks.values().any(|b| b.term == e.t && sorted(&b.stamp) == sorted(&e.s)),
                "{} {:?} {:?} follows from {} but is not worked on",
                e.t.show(),
                e.v,
                e.s,
                p.show()
            );
            let mut full = false;
            let found = e.t.subterms().iter().any(|x| {
                post.get(x).map_or(false, |tab| {
                    full |= tab.0.len() >= 20;
                    tab.0.iter().any(|b| b.term == e.t && overlap(&b.stamp, &e.s))
                })
            });
            ensure!(found || full, "{} {:?} follows from {} but is not believed", e.t.show(), e.s, p.show());
        }
        // soundness of new tasks
        let evidence: Vec<E> = pre.values().flat_map(|(a, b)| a.iter().chain(b.iter())).map(|o| E { t: o.term.clone(), v: o.v, s: o.stamp.clone() }).collect();
        for (id, b) in &post_tasks {
            if let Some(o) = registry.get(id) {
                ensure!(o == b, "task {} changed to {}", o.show(), b.show());
                continue;
            }
            let e: Vec<E> = exp.iter().filter(|e| e.t == b.term).cloned().collect();
            if e.iter().any(|e| same(e, &b.term, b.v, &b.stamp)) {
                continue;
            }
            let mut start = e.clone();
            for o in evidence.iter().filter(|o| o.t == b.term) {
                push(&mut start, o.clone());
            }
            if let Some(all) = pooled(&start, &e, 400) {
                ensure!(all.iter().any(|e| same(e, &b.term, b.v, &b.stamp)), "task {} appeared but does not follow from {}", b.show(), p.show());
            }
        }
        registry.extend(post_tasks);
        c.evals += exp.len() as u64;
    }
    if revised > 0 {
        c.label("pooled conclusion");
    }
    c.nontrivial = derived > 3;
    Ok(())
}

fn main() {
    main_prop(Prop::new("C10", vec![Part::new("steps", "more than three beliefs were derived", 6000, 200000, steps).fresh(), Part::new("held", "more than three beliefs were derived", 1500, 30000, held).fresh()]));
}
