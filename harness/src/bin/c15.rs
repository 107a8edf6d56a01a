#![allow(non_snake_case)]
//! C15 goal derivation: subgoals follow from goals and knowledge by the goal rules, and only so
use nar20_1::NarInfProcedural::*;
use vh::proc::*;
use vh::pscen::*;
use vh::rules::*;
use vh::term::*;
use vh::*;

#[derive(Clone, Debug)]
struct C {
    term: T,
    v: V,
    stamp: Vec<i64>,
    depth: i64,
    /// evidence: term and stamp
    evi: Option<(T, Vec<i64>)>,
}
fn show(x: &C) -> String {
    format!("{}! {{{:.4} {:.4}}} {:?} depth {}", x.term.show(), x.v.f, x.v.c, x.stamp, x.depth)
}
fn same(a: &C, b: &C) -> bool {
    a.term == b.term && a.stamp == b.stamp && a.depth == b.depth && close(a.v, b.v) && a.evi == b.evi
}
/// what follows directly
fn children(g: &C, evis: &[nar::B]) -> Vec<C> {
    if let T::Coll(K::Seq, v) = &g.term {
        if !v.is_empty() {
            return vec![C { term: v[0].clone(), evi: None, depth: g.depth + 1, ..g.clone() }];
        }
    }
    let mut r: Vec<C> = vec![];
    for e in evis {
        if let Some((seq, pred)) = parts(&e.term) {
            if pred == g.term && !overlap(&e.stamp, &g.stamp) {
                let x = C { term: T::Coll(K::Seq, seq), v: ded_goal(g.v, e.v), stamp: merge(&g.stamp, &e.stamp), depth: g.depth + 1, evi: Some((e.term.clone(), e.stamp.clone())) };
                if !r.iter().any(|y| same(&x, y)) {
                    r.push(x);
                }
            }
        }
    }
    r
}
fn closure(g: &C, evis: &[nar::B]) -> Vec<C> {
    let mut r: Vec<C> = vec![];
    let mut todo = vec![g.clone()];
    while let Some(x) = todo.pop() {
        if x.depth > g.depth + 15 {
            continue;
        }
        for y in children(&x, evis) {
            if !r.iter().any(|z| same(z, &y)) {
                r.push(y.clone());
                todo.push(y);
            }
        }
    }
    r
}
fn of(g: &Gl) -> C {
    C { term: g.term.clone(), v: g.v, stamp: g.stamp.clone(), depth: g.depth, evi: g.evidence.as_ref().map(|e| (from_nar(&e.read().term), e.read().stamp.ids.clone())) }
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let k = 1 + s.usize(6);
    let rules = knowledge(s, &mut p, c, k)?;
    let evis: Vec<nar::B> = {
        let mut v: Vec<nar::B> = vec![];
        for (_, b) in copies(&p) {
            if !v.contains(&b) {
                v.push(b);
            }
        }
        v
    };
    let mut derived = 0;
    for _ in 0..1 + s.usize(3) {
        let t = fitting_goal(s, &rules);
        let d = desire(s);
        c.line(&format!("goal {} {{{} {}}}", t.show(), d.f, d.c));
        p.goal(&t, d);
    }
    p.nar.procNar.t = s.range(0, 50);
    for _ in 0..1 + s.usize(6) {
        let before = p.goals();
        if s.chance(1, 8) {
            // some goal happens to be satisfied
            let e = fitting_event(s, &rules);
            nar20_1::NarGoalSystem::event_occurred(&mut p.nar.procNar.goalSystem.write(), &to_nar(&e));
            c.line(&format!("event {}", e.show()));
        }
        let satisfied = p.goals().iter().any(|g| g.des <= 0.0);
        p.derive();
        let after = p.goals();
        for b in &before {
            ensure!(after.iter().any(|a| a.ptr() == b.ptr() && same(&of(a), &of(b))), "goal {} was lost or changed by deriving", b.show());
        }
        let new: Vec<&Gl> = after.iter().filter(|a| !before.iter().any(|b| a.ptr() == b.ptr())).collect();
        for (i, a) in after.iter().enumerate() {
            for b in &after[..i] {
                ensure!(!(a.term == b.term && a.stamp == b.stamp), "goal {} is stored twice", a.show());
            }
        }
        let copies = copies(&p);
        for g in &new {
            c.line(&format!("derived {}", g.show()));
            ensure!(g.punct == '!' && g.des == 1.0 && g.created == p.t(), "derived goal {} has punctuation {} desirability {} and was created at {} instead of {}", g.show(), g.punct, g.des, g.created, p.t());
            if let Some(e) = &g.evidence {
                ensure!(copies.iter().any(|x| eptr(&x.0) == eptr(e)), "the evidence of {} is not the one in the memory", g.show());
            }
        }
        let dormant: Vec<&Gl> = before.iter().filter(|g| decode(&g.term).is_none()).collect();
        let mut why = String::new();
        let mut ok = dormant.is_empty() && new.is_empty() || satisfied && new.is_empty();
        for g in dormant {
            if ok {
                break;
            }
            let all = closure(&of(g), &evis);
            if let Some(x) = new.iter().find(|x| !all.iter().any(|y| same(y, &of(x)))) {
                why += &format!("; {} does not follow from {}", show(&of(x)), g.show());
                continue;
            }
            if let Some(x) = children(&of(g), &evis).iter().find(|x| !after.iter().any(|y| y.term == x.term && y.stamp == x.stamp)) {
                why += &format!("; {} follows from {} but was not derived", show(x), g.show());
                continue;
            }
            ok = true;
        }
        ensure!(ok, "derived goals {:?} are not what follows from one of the goals{}", new.iter().map(|g| g.show()).collect::<Vec<_>>(), why);
        derived += new.len();
        c.evals += 1;
    }
    if after_depth(&p) > 3 {
        c.label("depth over 3");
    }
    c.nontrivial = derived > 0;
    Ok(())
}
fn after_depth(p: &P) -> i64 {
    p.goals().iter().map(|g| g.depth).max().unwrap_or(0)
}

/// deriving often enough finds every subgoal
fn complete(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    let k = 1 + s.usize(4);
    let rules = knowledge(s, &mut p, c, k)?;
    let mut evis: Vec<nar::B> = vec![];
    for (_, b) in copies(&p) {
        if !evis.contains(&b) {
            evis.push(b);
        }
    }
    let t = fitting_goal(s, &rules);
    c.line(&format!("goal {}", t.show()));
    p.goal(&t, v(1.0, 0.9));
    let all = closure(&of(&p.goals()[0]), &evis);
    if all.len() > 60 || decode(&t).is_some() {
        return Ok(());
    }
    let mut rounds = 0;
    for r in 0..all.len() * 150 {
        rounds = r;
        if all.iter().all(|x| p.goals().iter().any(|g| g.term == x.term && g.stamp == x.stamp)) {
            break;
        }
        p.derive();
    }
    let goals = p.goals();
    for x in &all {
        ensure!(goals.iter().any(|g| g.term == x.term && g.stamp == x.stamp), "{} follows but is not found by {} derivations", show(x), rounds);
    }
    c.line(&format!("{} subgoals in {} derivations", all.len(), rounds));
    c.nontrivial = all.len() > 1;
    Ok(())
}

/// a goal with many ways to reach it: every one is found at once
fn many(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let k = if s.chance(1, 4) { 40 + s.usize(48) } else { 2 + s.usize(40) };
    let goal = state(s);
    let mut msgs = vec![];
    for i in 0..k as i64 {
        let pre = n(&format!("s{}", if s.chance(1, 6) { 0 } else { i }));
        let o = call(s);
        let to = if s.chance(1, 8) { n("elsewhere") } else { goal.clone() };
        let (pos, cnt) = counts(s);
        msgs.push((evidence(&st(Cop::Pred, &coll(K::Seq, &[pre, o]), &to), &[1000 + 2 * i, 1001 + 2 * i], pos, cnt, Some(s.range(0, 9))), 0));
    }
    p.store(msgs)?;
    let mut evis: Vec<nar::B> = vec![];
    for (_, b) in copies(&p) {
        if !evis.contains(&b) {
            evis.push(b);
        }
    }
    let d = desire(s);
    let far = s.chance(1, 4);
    let depth = s.range(0, if far { 40 } else { 9 });
    p.goal_at(&goal, d, &[1], depth);
    let before = p.goals();
    let all = closure(&of(&before[0]), &evis);
    let direct = children(&of(&before[0]), &evis);
    c.line(&format!("goal {} at depth {} with {} pieces of evidence {:?}", goal.show(), depth, direct.len(), direct.iter().map(show).collect::<Vec<_>>()));
    p.derive();
    let after = p.goals();
    for x in &direct {
        ensure!(after.iter().any(|y| y.term == x.term && y.stamp == x.stamp && close(y.v, x.v)), "{} follows from {} but was not derived", show(x), goal.show());
    }
    for y in after.iter().filter(|a| !before.iter().any(|b| a.ptr() == b.ptr())) {
        ensure!(all.iter().any(|x| same(x, &of(y))), "{} does not follow", y.show());
    }
    c.nontrivial = direct.len() > 10;
    Ok(())
}

/// many goals at once: each of them is followed eventually
fn crowd(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    let k = 2 + s.usize(28);
    let mut msgs = vec![];
    for i in 0..k as i64 {
        let t = st(Cop::Pred, &coll(K::Seq, &[n(&format!("s{}", i)), call(s)]), &n(&format!("g{}", i)));
        msgs.push((evidence(&t, &[1000 + i], 9, 9, Some(0)), 0));
    }
    p.store(msgs)?;
    let far = s.chance(1, 4);
    let depth = s.range(0, if far { 40 } else { 3 });
    for i in 0..k {
        let d = desire(s);
        p.goal_at(&n(&format!("g{}", i)), d, &[i as i64], depth);
    }
    c.line(&format!("{} goals at depth {}", k, depth));
    let mut rounds = 0;
    let mut left = k;
    while left > 0 && rounds < 100 * k {
        p.derive();
        rounds += 1;
        if rounds % k == 0 {
            let g = p.goals();
            left = (0..k as i64).filter(|i| !g.iter().any(|x| x.evidence.is_some() && x.stamp == [*i, 1000 + i])).count();
        }
    }
    ensure!(left == 0, "{} of {} goals are not followed within {} derivations", left, k, rounds);
    c.line(&format!("followed within {}", rounds));
    c.nontrivial = k > 10;
    Ok(())
}

/// the rules themselves, over arbitrary terms
fn rule_check(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 3, vars: true, grammar: false, names: 4 };
    let pred = gen_term(s, &g);
    let goal = match s.usize(6) {
        0 => mutate(s, &pred, &g),
        1 => gen_term(s, &g),
        2 => {
            let k = 1 + s.usize(3);
            coll(K::Seq, &(0..k).map(|_| gen_term(s, &g)).collect::<Vec<_>>())
        }
        _ => pred.clone(),
    };
    let cop = *s.pick(&[Cop::Pred, Cop::Pred, Cop::Pred, Cop::Impl, Cop::Equiv, Cop::Inh]);
    let k = 1 + s.usize(3);
    let subj = if s.chance(1, 5) { gen_term(s, &g) } else { coll(K::Seq, &(0..k).map(|_| gen_term(s, &g)).collect::<Vec<_>>()) };
    let belief = st(cop, &subj, &pred);
    let ids = |s: &mut Src, base: i64| -> Vec<i64> {
        let m = if s.chance(1, 10) { 90 } else { 4 };
        let k = 1 + s.usize(m);
        (0..k as i64).map(|i| base + i).collect()
    };
    let gs = ids(s, 0);
    let base = if s.chance(1, 4) { s.range(0, 4) } else { 500 };
    let bs = ids(s, base);
    let gv = v(s.unit(), s.unit() * 0.99);
    let (pos, cnt) = counts(s);
    let gsent = sentence(&goal, '!', gv, &gs);
    let bsent = evidence(&belief, &bs, pos, cnt, Some(0));
    let bv = nar::belief(&bsent).v;
    c.line(&format!("{}! {{{:.3} {:.3}}} {:?} and {} {}/{} {:?}", goal.show(), gv.f, gv.c, gs.len(), belief.show(), pos, cnt, bs.len()));
    let want = if cop == Cop::Pred && goal == pred && !overlap(&gs, &bs) { Some((subj.clone(), ded_goal(gv, bv), merge(&gs, &bs))) } else { None };
    let got = infGoalBelief(&gsent, &bsent).map(|x| nar::belief(&x));
    match (&got, &want) {
        (None, None) => {}
        (Some(x), Some(w)) => {
            ensure!(x.punct == '!' && x.term == w.0 && close(x.v, w.1) && x.stamp == w.2, "derived {} instead of {}! {{{} {}}} {:?}", x.show(), w.0.show(), w.1.f, w.1.c, w.2);
            c.nontrivial = true;
        }
        _ => return Err(format!("derived {:?} instead of {:?}", got.map(|x| x.show()), want.map(|w| w.0.show()))),
    }
    let got = infGoalDetach(&gsent).map(|x| nar::belief(&x));
    match (&got, &goal) {
        (Some(x), T::Coll(K::Seq, e)) if !e.is_empty() => {
            ensure!(x.punct == '!' && x.term == e[0] && close(x.v, gv) && x.stamp == gs, "detached {}", x.show());
            c.nontrivial = true;
        }
        (None, T::Coll(K::Seq, e)) if !e.is_empty() => return Err(format!("nothing is detached from {}", goal.show())),
        (Some(x), _) => return Err(format!("detached {} from {}", x.show(), goal.show())),
        _ => {}
    }
    c.evals += 1;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C15",
        vec![
            Part::new("history", "at least one goal was derived", 60000, 400000, history).fresh(),
            Part::new("complete", "at least two subgoals follow", 20000, 150000, complete).fresh(),
            Part::new("many", "over ten pieces of evidence lead to the goal", 3000, 40000, many).fresh(),
            Part::new("crowd", "over ten goals at once", 1200, 15000, crowd).fresh(),
            Part::new("rule", "a rule applies", 120000, 2000000, rule_check),
        ],
    ));
}
