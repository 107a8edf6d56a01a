#![allow(non_snake_case)]
//! C16 deciding: what is executed follows from goals, knowledge and the current events
use vh::proc::*;
use vh::pscen::*;
use vh::term::*;
use vh::*;

fn show_calls(c: &[(String, Vec<T>, i64)]) -> String {
    c.iter().map(|x| format!("{}({})@{}", x.0, x.1.iter().map(|a| a.show()).collect::<Vec<_>>().join(","), x.2)).collect::<Vec<_>>().join(" ")
}
fn history(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = s.chance(1, 4);
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    p.nar.procNar.cfg__enAnticipation = s.bool();
    p.nar.procNar.goalSystem.write().cfg__enGoalSatisfaction = s.chance(3, 4);
    let babbling = p.nar.procNar.cfgEnBabbling;
    let thr = *s.pick(&[0.58, 0.58, 0.51, 0.75]);
    p.nar.procNar.cfgDescnThreshold = thr;
    c.line(&format!("babbling {} threshold {}", babbling, thr));
    let k = 1 + s.usize(8);
    let rules = knowledge(s, &mut p, c, k)?;
    let mut executed = 0;
    for _ in 0..1 + s.usize(if c.thorough { 24 } else { 14 }) {
        for _ in 0..s.weighted(&[3, 4, 2, 1]) {
            match s.usize(5) {
                0 | 1 => {
                    // goals for a state, for reaching a state, or for an operation
                    let t = fitting_goal(s, &rules);
                    let d = desire(s);
                    c.line(&format!("t={} goal {} {{{} {}}}", p.t(), t.show(), d.f, d.c));
                    p.goal(&t, d);
                }
                _ => {
                    // an event of the history, sometimes one which fulfils a goal as a whole
                    let gs = p.goals();
                    let e = if !gs.is_empty() && s.chance(1, 8) { gs[s.usize(gs.len())].term.clone() } else { fitting_event(s, &rules) };
                    c.line(&format!("t={} event {}", p.t(), e.show()));
                    p.event(&e);
                }
            }
        }
        p.step0();
        for _ in 0..s.weighted(&[2, 3, 2, 1]) {
            p.derive();
        }
        let allowed = decisions(&p);
        let (t, trace) = (p.t(), p.trace());
        let calls = p.calls.borrow().len();
        let passive: Vec<(usize, f32)> = p.goals().iter().filter(|g| decode(&g.term).is_none()).map(|g| (g.ptr(), g.des)).collect();
        p.step1();
        let called: Vec<(String, Vec<T>, i64)> = p.calls.borrow()[calls..].to_vec();
        c.line(&format!("t={} executed {}", t, show_calls(&called)));
        ensure!(called.len() <= 1, "more than one operation in one step: {}", show_calls(&called));
        let got_active = {
            let mut v: Vec<_> = active(&p).iter().map(|g| (g.term.clone(), g.stamp.clone(), g.evidence.as_ref().map(eptr))).collect();
            v.sort();
            v
        };
        let added: Vec<Ev> = p.trace()[trace.len().min(20)..].to_vec();
        if trace.len() < 20 {
            ensure!(p.trace()[..trace.len()] == trace[..], "deciding changed past events");
            let want: Vec<Ev> = called.iter().map(|x| Ev { term: op(&x.1, &x.0), evi: t, t }).collect();
            ensure!(added == want, "executed {} but the events of this moment are {:?}", show_calls(&called), added.iter().map(|e| e.term.show()).collect::<Vec<_>>());
        }
        let limited = t % 13 == 1;
        let mut ok = false;
        for o in &allowed {
            let call_ok = match &o.exec {
                Some((term, _)) => {
                    let (name, args) = decode(term).unwrap();
                    if OPS.iter().any(|x| x.0 == name) {
                        called.len() == 1 && called[0] == (name, args, t)
                    } else {
                        called.is_empty()
                    }
                }
                None => called.is_empty() || (babbling && called[0].1 == vec![coll(K::SetExt, &[n("SELF")])] && OPS.iter().any(|x| x.0 == called[0].0 && x.1)),
            };
            if call_ok && (limited || got_active == o.active) {
                ok = true;
                if o.exec.is_some() {
                    executed += 1;
                    if o.by_state {
                        c.label("decided by the current events");
                    }
                    if o.by_forward {
                        c.label("decided by prediction");
                    }
                }
                break;
            }
        }
        if !ok {
            let mut m: Vec<String> = allowed
                .iter()
                .map(|o| {
                    let a: Vec<String> = o.active.iter().map(|x| x.0.show()).collect();
                    format!("{} (goals left: {})", o.exec.as_ref().map(|x| x.0.show()).unwrap_or("nothing".into()), a.join(" "))
                })
                .collect();
            m.sort();
            m.dedup();
            let a: Vec<String> = got_active.iter().map(|x| x.0.show()).collect();
            return Err(format!("at {} executed '{}' (goals left: {}) but what can be decided is: {}", t, show_calls(&called), a.join(" "), m.join(" or ")));
        }
        if !limited {
            let now: Vec<(usize, f32)> = p.goals().iter().filter(|g| decode(&g.term).is_none()).map(|g| (g.ptr(), g.des)).collect();
            ensure!(now == passive, "deciding changed goals which are not about operations");
        }
        ensure!(p.t() == t + 1, "the time went from {} to {} in one step", t, p.t());
        c.evals += 1;
    }
    c.nontrivial = executed > 0;
    Ok(())
}

/// an operation that is needed now, and is known to work, is executed now; one that is not needed is not
fn reflex(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    let (a, b) = (n("a"), n("b"));
    let mut args = vec![coll(K::SetExt, &[n("SELF")])];
    for _ in 0..s.tail(3, 14) {
        args.push(n(["o0", "o1", "a"][s.usize(3)]));
    }
    let name = OPS[s.usize(3)].0;
    let o = op(&args, name);
    let t = st(Cop::Pred, &coll(K::Seq, &[a.clone(), o.clone()]), &b);
    let cnt = s.range(4, 60);
    p.store(vec![(evidence(&t, &[1000, 1001], cnt, cnt, Some(0)), 0)])?;
    // the goal may be one more operation away
    let two = s.chance(1, 3);
    let cnt2 = s.range(4, 60);
    if two {
        let t2 = st(Cop::Pred, &coll(K::Seq, &[b.clone(), call(s)]), &n("c"));
        p.store(vec![(evidence(&t2, &[1002, 1003], cnt2, cnt2, Some(0)), 0)])?;
        c.line(&format!("{} {}/{}", t2.show(), cnt2, cnt2));
    }
    let goal = if two { n("c") } else { b.clone() };
    for i in 0..s.usize(5) {
        let r = st(Cop::Pred, &coll(K::Seq, &[n(&format!("x{}", i)), call(s)]), &n(&format!("y{}", i)));
        p.store(vec![(evidence(&r, &[2000 + 2 * i as i64], 50, 50, Some(0)), 0)])?;
    }
    c.line(&format!("{} {}/{}", t.show(), cnt, cnt));
    let conf = *s.pick(&[0.9, 0.99]);
    p.goal(&goal, rules::v(1.0, conf));
    let by_plan = s.bool();
    if by_plan {
        p.derive();
    }
    for _ in 0..s.usize(4) {
        p.step0();
        p.step1();
    }
    ensure!(p.calls.borrow().is_empty(), "executed {} although its condition was not met", show_calls(&p.calls.borrow()));
    p.event(&a);
    let t = p.t();
    p.step0();
    p.step1();
    let link = |n: i64| rules::v(1.0, n as f64 / (n as f64 + 1.0));
    let mut want = rules::v(1.0, conf);
    if two {
        want = rules::ded_goal(want, link(cnt2));
    }
    let exp = rules::expect(rules::ded_goal(want, link(cnt)));
    c.line(&format!("goal {}, event a, expectation {:.3}", goal.show(), exp));
    if exp > 0.59 {
        ensure!(*p.calls.borrow() == vec![(name.to_string(), args.clone(), t)], "executed '{}' instead of {} when its condition is met", show_calls(&p.calls.borrow()), o.show());
    }
    c.nontrivial = true;
    c.label(if two { "two operations away" } else { "one operation away" });
    c.label(if by_plan { "planned before" } else { "predicted" });
    Ok(())
}

/// many operations are known for the situation: the one which leads to the goal is found sooner or later
fn among(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let k = s.tail(8, 60);
    let at = s.usize(k + 1);
    let name = OPS[s.usize(3)].0;
    let args = vec![coll(K::SetExt, &[n("SELF")]), n("it")];
    let mut msgs = vec![];
    for i in 0..=k {
        let (o, to) = if i == at { (op(&args, name), n("b")) } else { (call(s), n(&format!("z{}", i))) };
        let cnt = if i == at { s.range(8, 60) } else { s.range(1, 60) };
        c.line(&format!("{} {}", o.show(), cnt));
        msgs.push((evidence(&st(Cop::Pred, &coll(K::Seq, &[n("a"), o]), &to), &[1000 + i as i64], cnt, cnt, Some(0)), 0));
    }
    p.store(msgs)?;
    p.goal(&n("b"), rules::v(1.0, 0.99));
    c.line(&format!("{} other operations are known for a, the one to the goal is number {}", k, at));
    let mut steps = 0;
    while p.calls.borrow().is_empty() {
        ensure!(steps < 40 * (k + 1), "{} leads from a to the goal but is not executed in {} steps", op(&args, name).show(), steps);
        p.event(&n("a"));
        p.step0();
        p.step1();
        steps += 1;
    }
    let calls = p.calls.borrow();
    ensure!(calls.len() == 1 && calls[0].0 == name && calls[0].1 == args, "executed '{}' instead of {}", show_calls(&calls), op(&args, name).show());
    c.nontrivial = k > 0;
    Ok(())
}

/// an expectation equal to the threshold is not above it (the numbers are exact in binary)
fn threshold(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    let o = call(s);
    let t = st(Cop::Pred, &coll(K::Seq, &[n("a"), o.clone()]), &n("b"));
    let (cnt, link) = *s.pick(&[(1, 0.5), (3, 0.75), (7, 0.875), (15, 0.9375)]);
    let conf = *s.pick(&[0.25, 0.5, 0.75, 0.875]);
    p.store(vec![(evidence(&t, &[1000, 1001], cnt, cnt, Some(0)), 0)])?;
    p.goal(&n("b"), rules::v(1.0, conf));
    let plan = s.bool();
    if plan {
        p.derive();
    }
    let exp = 0.5 + 0.5 * conf * link;
    let side = s.usize(3);
    let thr: f64 = exp + [-1e-9, 0.0, 1e-9][side];
    p.nar.procNar.cfgDescnThreshold = thr;
    c.line(&format!("{} {}/{}, goal b {{1 {}}}, expectation {} threshold {} {}", t.show(), cnt, cnt, conf, exp, ["below", "equal", "above"][side], if plan { "planned" } else { "" }));
    p.event(&n("a"));
    let now = p.t();
    p.step0();
    p.step1();
    let (name, args) = decode(&o).unwrap();
    let mut want: Vec<(String, Vec<T>, i64)> = vec![];
    if side == 0 && OPS.iter().any(|x| x.0 == name) {
        want.push((name, args, now));
    }
    ensure!(*p.calls.borrow() == want, "the expectation {} is {} the threshold, but '{}' was executed", exp, ["above", "equal to", "below"][side], show_calls(&p.calls.borrow()));
    c.nontrivial = true;
    Ok(())
}

/// babbling tries every operation which allows it, and no other
fn babble(s: &mut Src, c: &mut Ctx) -> R {
    let k = 1 + s.usize(8);
    let mut ops = vec![];
    for i in 0..k {
        ops.push((["^x", "^y", "^z", "^u", "^v", "^w", "^r", "^q"][i], s.chance(2, 3), 1));
    }
    let mut p = P::new(&ops).aged(s);
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let on = s.chance(3, 4);
    p.nar.procNar.cfgEnBabbling = on;
    c.line(&format!("babbling {} of {:?}", on, ops));
    for i in 0..k * 400 {
        let before = p.calls.borrow().len();
        p.step1();
        let calls = p.calls.borrow();
        ensure!(calls.len() <= before + 1, "more than one operation at {}", i);
        if calls.len() > before {
            let x = &calls[before];
            ensure!(on, "{} was tried with babbling disabled", x.0);
            ensure!(ops.iter().any(|o| o.0 == x.0 && o.1), "{} was tried but doesn't allow babbling", x.0);
            ensure!(x.1 == vec![coll(K::SetExt, &[n("SELF")])], "{} was tried with other arguments than {{SELF}}", x.0);
        }
    }
    for o in &ops {
        let m = p.calls.borrow().iter().filter(|x| x.0 == o.0).count();
        ensure!(!on || !o.1 || m > 0, "{} was never tried in {} steps", o.0, k * 400);
    }
    let m = p.calls.borrow().len();
    ensure!(m * 3 < k * 400, "babbling {} times in {} steps leaves no time for observing", m, k * 400);
    c.nontrivial = on && ops.iter().any(|o| o.1);
    Ok(())
}

/// told how the world works, the reasoner reaches a goal which is several operations away
fn plan(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    let k = 1 + s.usize(3);
    let mut world: Vec<(T, T, T)> = vec![];
    for i in 0..k {
        let mut args = vec![coll(K::SetExt, &[n("SELF")])];
        for _ in 0..s.tail(2, 10) {
            args.push(n(["x", "y"][s.usize(2)]));
        }
        world.push((n(&format!("s{}", i)), op(&args, OPS[s.usize(3)].0), n(&format!("s{}", i + 1))));
    }
    let mut told: Vec<T> = world.iter().map(|w| st(Cop::Pred, &coll(K::Seq, &[w.0.clone(), w.1.clone()]), &w.2)).collect();
    for i in 0..s.usize(4) {
        // distractions: ways to states which do not help
        let j = s.usize(k + 1);
        told.push(st(Cop::Pred, &coll(K::Seq, &[n(&format!("z{}", i)), call(s)]), &n(&format!("s{}", j))));
    }
    for i in (1..told.len()).rev() {
        let j = s.usize(i + 1);
        told.swap(i, j);
    }
    for t in &told {
        c.line(&t.show());
        p.tell(t);
    }
    let goal = n(&format!("s{}", k));
    p.goal(&goal, rules::v(1.0, 0.99));
    let mut state = n("s0");
    let mut done = false;
    for _ in 0..60 {
        p.event(&state);
        if state == goal {
            done = true;
            break;
        }
        p.step0();
        for _ in 0..10 {
            p.derive();
        }
        let before = p.calls.borrow().len();
        p.step1();
        if let Some((name, args, _)) = p.calls.borrow().get(before) {
            let o = op(args, name);
            if let Some(w) = world.iter().find(|w| w.0 == state && w.1 == o) {
                state = w.2.clone();
            }
        }
    }
    ensure!(done, "did not get to {} in 60 steps, still in {}: executed {}", goal.show(), state.show(), show_calls(&p.calls.borrow()));
    c.nontrivial = k >= 2;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C16",
        vec![
            Part::new("history", "at least one operation was executed by decision", 36000, 400000, history).fresh(),
            Part::new("plan", "the goal is at least two operations away", 1500, 20000, plan).fresh(),
            Part::new("reflex", "always", 9000, 20000, reflex).fresh(),
            Part::new("threshold", "always", 4500, 20000, threshold).fresh(),
            Part::new("babble", "babbling is enabled for some operation", 180, 2000, babble).fresh(),
            Part::new("among", "other operations are known for the situation", 6000, 60000, among).fresh(),
        ],
    ));
}
