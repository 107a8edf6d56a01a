//! Procedural scenarios: random knowledge, goals and events, and the reference of deciding.
use crate::nar::*;
use crate::proc::*;
use crate::rules::*;
use crate::run::Ctx;
use crate::src::Src;
use crate::term::*;
use nar20_1::NarSentence::Sentence;
use parking_lot::RwLock;
use std::sync::Arc;

pub const OPS: [(&str, bool, i64); 3] = [("^go", true, 1), ("^pick", false, 4), ("^say", true, 2)];
pub type Evi = Arc<RwLock<Sentence>>;
pub fn eptr(e: &Evi) -> usize {
    Arc::as_ptr(e) as *const u8 as usize
}
fn atom(s: &mut Src) -> T {
    n(["a", "b", "c", "d"][s.usize(4)])
}
pub fn state(s: &mut Src) -> T {
    match s.usize(6) {
        0 | 1 => {
            let x = n(["o0", "o1"][s.usize(2)]);
            inh(&x, &coll(K::SetInt, &[n(["red", "big"][s.usize(2)])]))
        }
        _ => atom(s),
    }
}
pub fn call(s: &mut Src) -> T {
    let mut args = vec![coll(K::SetExt, &[n("SELF")])];
    if s.chance(1, 3) {
        args.push(n(["o0", "o1", "a"][s.usize(3)]));
    }
    op(&args, ["^go", "^pick", "^say", "^none"][s.weighted(&[4, 3, 2, 1])])
}
/// knowledge `<(state, .., op) =/> state>`
pub fn rule(s: &mut Src) -> T {
    match s.usize(12) {
        0 => {
            // generalised over the object
            let x = iv("1");
            let a = inh(&x, &coll(K::SetInt, &[n(["red", "big"][s.usize(2)])]));
            let o = op(&[coll(K::SetExt, &[n("SELF")]), x.clone()], OPS[s.usize(3)].0);
            let b = state(s);
            st(Cop::Pred, &coll(K::Seq, &[a, o]), &b)
        }
        1 => {
            let (a, o, o2, b) = (state(s), call(s), call(s), state(s));
            let mut v = vec![a, o, o2];
            for _ in 0..s.weighted(&[3, 1, 1, 1]) {
                v.push(call(s));
            }
            st(Cop::Pred, &coll(K::Seq, &v), &b)
        }
        2 => {
            let (a, o, b) = (state(s), state(s), state(s));
            st(Cop::Pred, &coll(K::Seq, &[a, o]), &b)
        }
        3 => {
            // the operation first, or the operation alone
            let (a, o, b) = (state(s), call(s), state(s));
            let v = if s.bool() { vec![o, a] } else { vec![o.clone(), o] };
            st(Cop::Pred, &coll(K::Seq, &v), &b)
        }
        _ => {
            let (a, o, b) = (state(s), call(s), state(s));
            st(Cop::Pred, &coll(K::Seq, &[a, o]), &b)
        }
    }
}
pub fn counts(s: &mut Src) -> (i64, i64) {
    *s.pick(&[(10, 10), (20, 20), (8, 8), (3, 3), (30, 32), (1, 1), (9, 10), (2, 4), (1, 5), (0, 3), (40, 50)])
}
pub fn desire(s: &mut Src) -> V {
    v(*s.pick(&[1.0, 1.0, 0.9, 0.9, 0.5, 0.0]), *s.pick(&[0.9, 0.99, 0.9, 0.5, 0.1]))
}
/// stores random knowledge; the ids of its evidence start at 1000, far from those of inputs
pub fn knowledge(s: &mut Src, p: &mut P, c: &mut Ctx, k: usize) -> Result<Vec<T>, String> {
    let mut msgs = vec![];
    let mut rules = vec![];
    for i in 0..k {
        let t = rule(s);
        let (pos, cnt) = counts(s);
        let dt = *s.pick(&[Some(0), None, Some(1), Some(2), Some(3), Some(5), Some(8)]);
        let id = if s.chance(1, 6) { 1000 } else { 1000 + 10 * i as i64 };
        // evidence of long experience, mostly not
        let len = if s.chance(1, 8) { s.range(3, 130) } else { 2 };
        let ids: Vec<i64> = (0..len).map(|j| if j < 2 { id + j } else { 100000 + 1000 * i as i64 + j }).collect();
        c.line(&format!("knows {} {}/{} +{:?} [{}{}]", t.show(), pos, cnt, dt, id, if len > 2 { format!(" and {} more", len - 1) } else { String::new() }));
        msgs.push((evidence(&t, &ids, pos, cnt, dt), 0));
        rules.push(t);
    }
    p.store(msgs)?;
    Ok(rules)
}
/// an event that fits the knowledge, mostly
pub fn fitting_event(s: &mut Src, rules: &[T]) -> T {
    if s.chance(1, 8) {
        return call(s);
    }
    if s.chance(1, 4) || rules.is_empty() {
        return state(s);
    }
    let (seq, _) = parts(&rules[s.usize(rules.len())]).unwrap();
    let o = n(["o0", "o1"][s.usize(2)]);
    if seq.len() > 2 && s.bool() {
        // all of the condition as one event
        return T::Coll(K::Seq, seq[..seq.len() - 1].to_vec());
    }
    seq[0].map(&|x| if let T::Var(..) = x { Some(o.clone()) } else { None })
}
/// a goal that the knowledge is about, mostly
pub fn fitting_goal(s: &mut Src, rules: &[T]) -> T {
    match s.usize(10) {
        0 => call(s),
        1 => parts(&rule(s)).map(|x| T::Coll(K::Seq, x.0)).unwrap(),
        2 => state(s),
        _ if rules.is_empty() => state(s),
        _ => parts(&rules[s.usize(rules.len())]).unwrap().1,
    }
}
/// all stored copies of evidence
pub fn copies(p: &P) -> Vec<(Evi, B)> {
    let mut r = vec![];
    for c in p.nar.procNar.evidenceMem.read().concepts.values() {
        for x in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
            r.push((Arc::clone(x), belief(&x.read())));
        }
    }
    r
}
/// (sequence, consequence)
pub fn parts(t: &T) -> Option<(Vec<T>, T)> {
    if let T::Stmt(Cop::Pred, a, b) = t {
        if let T::Coll(K::Seq, v) = &**a {
            return Some((v.clone(), (**b).clone()));
        }
    }
    None
}
pub fn active(p: &P) -> Vec<Gl> {
    let g = p.nar.procNar.goalSystem.read();
    g.activeSet.set.iter().map(gl).collect()
}

#[derive(Clone)]
struct Cand {
    seq: T,
    exp: f64,
    evi: Option<Evi>,
}
/// what the reasoner may decide in a step
#[derive(Clone)]
pub struct Outcome {
    /// executed operation with the evidence it is based on
    pub exec: Option<(T, Evi)>,
    /// goals for operations afterwards: term, stamp, evidence
    pub active: Vec<(T, Vec<i64>, Option<usize>)>,
    pub by_state: bool,
    pub by_forward: bool,
}
const EPS: f64 = 1e-7;
pub fn decisions(p: &P) -> Vec<Outcome> {
    let thr = p.nar.procNar.cfgDescnThreshold;
    let goals = p.goals();
    let evis = copies(p);
    let trace = p.trace();
    // a goal which the current events make reachable
    let mut base: Vec<Cand> = vec![];
    for e in trace.iter().rev().take(2) {
        for g in &goals {
            if let T::Coll(K::Seq, v) = &g.term {
                if v.is_empty() {
                    continue;
                }
                let pre = if v.len() == 2 { v[0].clone() } else { T::Coll(K::Seq, v[..v.len() - 1].to_vec()) };
                let mut asg = vec![];
                if unify_ref(&pre, &e.term, &mut asg) && expect(g.v) > 0.0 {
                    base.push(Cand { seq: subst_ref(&g.term, &asg), exp: expect(g.v), evi: g.evidence.clone() });
                }
            }
        }
    }
    let best = base.iter().map(|c| c.exp).fold(f64::MIN, f64::max);
    base.retain(|c| c.exp >= best - EPS);
    let mut base: Vec<Option<Cand>> = base.into_iter().map(Some).collect();
    if base.is_empty() {
        base.push(None);
    }
    // a chain of at most two predictions which hits a goal
    let mut fwd: Vec<Option<Cand>> = vec![None];
    if let Some(e) = trace.last() {
        for (x, bx) in &evis {
            let (seq, pred) = match parts(&bx.term) {
                Some(a) if a.0.first() == Some(&e.term) => a,
                _ => continue,
            };
            let seq = T::Coll(K::Seq, seq);
            let hits: Vec<&Gl> = goals.iter().filter(|g| g.term == pred).collect();
            for g in &hits {
                fwd.push(Some(Cand { seq: seq.clone(), exp: expect(ded_goal(g.v, bx.v)), evi: Some(Arc::clone(x)) }));
            }
            if hits.is_empty() {
                for (_, by) in &evis {
                    let pred2 = match parts(&by.term) {
                        Some(a) if a.0.first() == Some(&pred) => a.1,
                        _ => continue,
                    };
                    for g in goals.iter().filter(|g| g.term == pred2) {
                        fwd.push(Some(Cand { seq: seq.clone(), exp: expect(ded_goal(ded_goal(g.v, by.v), bx.v)), evi: Some(Arc::clone(x)) }));
                    }
                }
            }
        }
        // does every choice lead to a goal?
        let after = |t: &T| -> Vec<T> { evis.iter().filter_map(|(_, b)| parts(&b.term)).filter(|a| a.0.first() == Some(t)).map(|a| a.1).collect() };
        let wanted = |t: &T| goals.iter().any(|g| g.term == *t);
        let firsts = after(&e.term);
        let two = |t: &T| {
            let v = after(t);
            !v.is_empty() && v.iter().all(|x| wanted(x))
        };
        if !firsts.is_empty() && firsts.iter().all(|t| wanted(t) || two(t)) {
            fwd.remove(0);
        }
    }
    let mut res: Vec<Outcome> = vec![];
    let act: Vec<Gl> = active(p);
    for b in &base {
        for f in &fwd {
            let mut picks: Vec<(Option<Cand>, bool)> = vec![];
            match (b, f) {
                (Some(x), Some(y)) => {
                    if y.exp > x.exp - EPS {
                        picks.push((f.clone(), true));
                    }
                    if y.exp <= x.exp + EPS {
                        picks.push((b.clone(), false));
                    }
                }
                (None, Some(_)) => picks.push((f.clone(), true)),
                _ => picks.push((b.clone(), false)),
            }
            for (cand, forward) in picks {
                let mut variants: Vec<Option<(T, Evi)>> = vec![];
                match &cand {
                    Some(Cand { seq: T::Coll(_, v), exp, evi: Some(e) }) if *exp > thr - EPS && decode(v.last().unwrap()).is_some() => {
                        variants.push(Some((v.last().unwrap().clone(), Arc::clone(e))));
                        if *exp <= thr + EPS {
                            variants.push(None);
                        }
                    }
                    _ => variants.push(None),
                }
                for add in variants {
                    // (term, tv, stamp, evidence, desired)
                    let mut set: Vec<(T, V, Vec<i64>, Option<Evi>, bool)> = act.iter().map(|g| (g.term.clone(), g.v, g.stamp.clone(), g.evidence.clone(), g.des > 0.0001)).collect();
                    if let Some((o, e)) = &add {
                        let b = belief(&e.read());
                        if !set.iter().any(|x| x.0 == *o && x.2 == b.stamp) {
                            set.push((o.clone(), b.v, b.stamp, Some(Arc::clone(e)), true));
                        }
                    }
                    let top = set.iter().filter(|x| x.4).map(|x| expect(x.1)).fold(f64::MIN, f64::max);
                    let mut options: Vec<Option<usize>> = vec![];
                    if top > thr - EPS {
                        options.extend((0..set.len()).filter(|i| set[*i].4 && expect(set[*i].1) >= top - EPS).map(Some));
                    }
                    if top <= thr + EPS {
                        options.push(None);
                    }
                    for o in options {
                        let mut rest = set.clone();
                        let mut exec = None;
                        if let Some(i) = o {
                            if let (Some(e), true) = (&set[i].3, decode(&set[i].0).is_some()) {
                                exec = Some((set[i].0.clone(), Arc::clone(e)));
                                rest.remove(i);
                            }
                        }
                        let mut active: Vec<_> = rest.iter().map(|x| (x.0.clone(), x.2.clone(), x.3.as_ref().map(eptr))).collect();
                        active.sort();
                        let dup = res.iter().any(|r| r.active == active && r.exec.as_ref().map(|x| (x.0.clone(), eptr(&x.1))) == exec.as_ref().map(|x| (x.0.clone(), eptr(&x.1))));
                        if !dup {
                            res.push(Outcome { exec, active, by_state: add.is_some() && !forward, by_forward: add.is_some() && forward });
                        }
                    }
                }
            }
        }
    }
    res
}
