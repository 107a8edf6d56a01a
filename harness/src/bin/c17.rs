#![allow(non_snake_case)]
//! C17 goal memory: goals are kept while they matter, satisfied by what happens, and all get attention
use nar20_1::NarGoalSystem;
use std::sync::Arc;
use vh::proc::*;
use vh::pscen::*;
use vh::rules::*;
use vh::term::*;
use vh::*;

#[derive(Clone)]
struct M {
    term: T,
    v: V,
    stamp: Vec<i64>,
    depth: i64,
    created: i64,
    des: f32,
}
fn show(m: &M) -> String {
    format!("{}! {{{} {}}} {:?} depth {} since {} desirability {}", m.term.show(), m.v.f, m.v.c, m.stamp, m.depth, m.created, m.des)
}
fn of(g: &Gl) -> M {
    M { term: g.term.clone(), v: g.v, stamp: g.stamp.clone(), depth: g.depth, created: g.created, des: g.des }
}
fn same(a: &M, b: &M) -> bool {
    a.term == b.term && a.stamp == b.stamp && a.depth == b.depth && a.created == b.created && (a.des - b.des).abs() < 1e-6 && close(a.v, b.v)
}
/// the memory holds exactly the goals of the model
fn check(p: &P, m: &[M], what: &str) -> R {
    let got: Vec<M> = p.goals().iter().map(of).collect();
    for x in m {
        ensure!(got.iter().filter(|g| same(g, x)).count() == 1, "{}: goal {} is stored {} times", what, show(x), got.iter().filter(|g| same(g, x)).count());
    }
    for g in &got {
        ensure!(m.iter().any(|x| same(g, x)), "{}: unexpected goal {}", what, show(g));
    }
    // lookup by term
    let sys = p.nar.procNar.goalSystem.read();
    for t in m.iter().map(|x| x.term.clone()).chain([n("never"), n("a"), n("b")]) {
        let q = NarGoalSystem::query(&sys, &to_nar(&t)).map(|e| gl(&e).term);
        let want = m.iter().any(|x| x.term == t);
        ensure!(q.is_some() == want && q.map_or(true, |x| x == t), "{}: looking up {}", what, t.show());
    }
    Ok(())
}
fn utility(m: &M, t: i64) -> f64 {
    expect(m.v) * (m.des as f64).abs() * (-0.01 * (t - m.created) as f64).exp()
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    p.nar.procNar.cfg__resourceGoalDeriverPrio = 1.0; // no derivation of goals
    p.nar.procNar.cfgDescnThreshold = 2.0; // nothing is decided
    let satisfy = s.chance(4, 5);
    p.nar.procNar.goalSystem.write().cfg__enGoalSatisfaction = satisfy;
    let limit = *s.pick(&[20usize, 20, 5, 1, 2]);
    p.nar.procNar.goalSystem.write().nMaxEntries = limit as i64;
    let depths = p.nar.procNar.goalSystem.read().nMaxDepth;
    c.line(&format!("at most {} goals, satisfaction {}", limit, satisfy));
    let eager = s.chance(1, 4); // most goals are operations, which wait to be decided
    let mut m: Vec<M> = vec![];
    let mut past: Vec<M> = vec![];
    let (mut dup, mut cut, mut sat) = (0, 0, 0);
    if s.chance(1, 12) {
        // a crowd of goals at one depth: of one term, or of different ones
        let k = 8 + s.usize(33) as i64;
        let one = s.bool();
        let depth = s.range(0, depths + 3);
        for i in 0..k {
            let term = if one { n("w") } else { n(&format!("w{}", i)) };
            let x = M { term, v: desire(s), stamp: vec![100 + i], depth, created: p.t(), des: 1.0 };
            NarGoalSystem::addEntry(&p.nar.procNar.goalSystem, &p.nar.mem.read(), p.t(), Arc::new(sentence(&x.term, '!', x.v, &x.stamp)), None, x.depth);
            m.push(x);
        }
        c.line(&format!("t={} add {} goals at depth {}", p.t(), k, depth));
        check(&p, &m, "adding goals")?;
        attention(s, &p, &m, depths)?;
        c.label("crowd");
    }
    for _ in 0..1 + s.usize(if c.thorough { 90 } else { 50 }) {
        match s.usize(12) {
            0..=4 => {
                // a goal with a given origin
                let old = if !m.is_empty() && s.chance(1, 5) {
                    Some(m[s.usize(m.len())].clone())
                } else if !past.is_empty() && s.chance(1, 6) {
                    Some(past[s.usize(past.len())].clone())
                } else {
                    None
                };
                let mut x = match old {
                    Some(x) => x,
                    None => {
                        let term = match s.usize(5) {
                            0 => call(s),
                            1..=3 if eager => call(s),
                            1 => {
                                let (a, b) = (state(s), call(s));
                                coll(K::Seq, &[a, b])
                            }
                            _ => state(s),
                        };
                        let k = 1 + s.usize(3);
                        let stamp = (0..k).map(|_| s.range(0, 6)).collect();
                        M { term, v: desire(s), stamp, depth: *s.pick(&[0, 0, 1, 2, (depths - 3).max(0), (depths - 2).max(0), depths - 1, depths, depths + 5]), created: 0, des: 1.0 }
                    }
                };
                x.created = p.t();
                x.des = 1.0;
                c.line(&format!("t={} add {}", p.t(), show(&x)));
                NarGoalSystem::addEntry(&p.nar.procNar.goalSystem, &p.nar.mem.read(), p.t(), Arc::new(sentence(&x.term, '!', x.v, &x.stamp)), None, x.depth);
                if m.iter().any(|y| y.term == x.term && y.stamp == x.stamp) {
                    dup += 1;
                } else {
                    m.push(x);
                }
                check(&p, &m, "adding a goal")?;
            }
            5 | 6 => {
                // input by the user
                let t = state(s);
                let d = desire(s);
                let id = p.nar.mem.read().shared.read().stampIdCounter.load(std::sync::atomic::Ordering::SeqCst);
                c.line(&format!("t={} input {}", p.t(), t.show()));
                p.goal(&t, d);
                let x = M { term: t, v: d, stamp: vec![id], depth: 0, created: p.t(), des: 1.0 };
                if !m.iter().any(|y| y.term == x.term && y.stamp == x.stamp) {
                    m.push(x);
                }
                check(&p, &m, "input of a goal")?;
            }
            7..=9 => {
                // something happens
                let e = if !m.is_empty() && s.chance(2, 3) { m[s.usize(m.len())].term.clone() } else { state(s) };
                c.line(&format!("t={} event {}", p.t(), e.show()));
                p.event(&e);
                p.step0();
                if satisfy {
                    for x in &mut m {
                        if x.term == e {
                            x.des = 0.0;
                            sat += 1;
                        }
                    }
                }
                check(&p, &m, "an event")?;
            }
            10 => {
                let far = s.chance(1, 5);
                p.nar.procNar.t += s.range(1, if far { 1500 } else { 60 });
            }
            _ => {
                if s.bool() {
                    if s.chance(1, 3) {
                        let late = s.range(0, 13);
                        p.nar.procNar.t += late;
                    } else {
                        while p.t() % 13 != 1 {
                            p.nar.procNar.t += 1;
                        }
                    }
                }
                let t = p.t();
                if s.bool() {
                    // by a step of the reasoner: when it is due, and not before
                    p.nar.procNar.trace.force_flush();
                    c.line(&format!("t={} step", t));
                    p.step1();
                    if t % 13 != 1 {
                        check(&p, &m, "a step")?;
                        continue;
                    }
                    c.label("reduced by a step");
                } else {
                    NarGoalSystem::limitMemory(&p.nar.procNar.goalSystem, &p.nar.mem.read(), t);
                    c.line(&format!("t={} limit", t));
                }
                let got: Vec<Gl> = p.goals();
                ensure!(got.len() == m.len().min(limit), "{} goals are kept of {} with a limit of {}", got.len(), m.len(), limit);
                let mut kept = vec![];
                for g in &got {
                    let x = of(g);
                    ensure!(m.iter().any(|y| same(y, &x)), "limiting changed a goal to {}", show(&x));
                    kept.push(x);
                }
                let dropped: Vec<M> = m.iter().filter(|y| !kept.iter().any(|x| same(y, x))).cloned().collect();
                let worst = kept.iter().map(|x| utility(x, t)).fold(f64::MAX, f64::min);
                for x in &dropped {
                    ensure!(utility(x, t) <= worst * (1.0 + 1e-6), "{} with utility {} is forgotten before one with {}", show(x), utility(x, t), worst);
                }
                cut += dropped.len();
                past.extend(dropped);
                m = kept;
                check(&p, &m, "limiting")?;
            }
        }
        if s.chance(1, 12) {
            attention(s, &p, &m, depths)?;
            c.label("attention checked");
        }
        c.evals += 1;
    }
    if dup > 0 {
        c.label("the same goal was added again");
    }
    if cut > 0 {
        c.label("goals were forgotten");
    }
    if sat > 0 {
        c.label("a goal was satisfied");
    }
    c.nontrivial = dup + cut + sat > 0;
    Ok(())
}
/// every desired goal is sampled, by the share of its desirability; satisfied ones are not while others are desired
fn attention(_s: &mut Src, p: &P, m: &[M], depths: i64) -> R {
    let mut rng = rand::thread_rng();
    let sys = p.nar.procNar.goalSystem.read();
    let passive: Vec<&M> = m.iter().filter(|x| decode(&x.term).is_none()).collect();
    let mut n_by: Vec<usize> = vec![0; passive.len()];
    let batch = |x: &M| x.depth.min(depths - 1);
    let mut used: Vec<i64> = passive.iter().map(|x| batch(x)).collect();
    used.sort();
    used.dedup();
    let total = 8000usize;
    for _ in 0..total {
        if let Some((g, depth)) = NarGoalSystem::sample(&sys, &mut rng) {
            let (t, ids) = (from_nar(&g.term), g.stamp.ids.clone());
            match passive.iter().position(|x| x.term == t && x.stamp == ids) {
                Some(i) => {
                    n_by[i] += 1;
                    ensure!(depth == passive[i].depth, "sampled {} with depth {}", show(passive[i]), depth);
                }
                None => return Err(format!("sampled {} which is not stored", t.show())),
            }
        }
    }
    for (i, x) in passive.iter().enumerate() {
        let peers: Vec<&&M> = passive.iter().filter(|y| batch(y) == batch(x)).collect();
        let sum: f64 = peers.iter().map(|y| y.des as f64).sum();

        if sum > 0.0 && x.des <= 0.0 {
            ensure!(n_by[i] == 0, "satisfied goal {} was sampled {} times of {}", show(x), n_by[i], total);
        }


        if x.des > 0.0 {
            let want = total as f64 / used.len() as f64 * x.des as f64 / sum;
            let dev = 8.0 * want.sqrt() + 8.0;
            ensure!((n_by[i] as f64 - want).abs() < dev, "{} was sampled {} times of {}, expected about {:.0}", show(x), n_by[i], total, want);
        }
    }
    Ok(())
}

fn main() {
    main_prop(Prop::new("C17", vec![Part::new("history", "a goal was added again, forgotten or satisfied", 12000, 150000, history).fresh()]));
}
