#![allow(non_snake_case)]
//! C20 the operators of the library do what they promise
use nar20_1::Nar::*;
use nar20_1::NarProc;
use nar20_1::OpLib;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use vh::fac::*;
use vh::nar::*;
use vh::proc::*;
use vh::pscen;
use vh::rules::*;
use vh::term::*;
use vh::*;

fn exec_op() -> Rc<Box<dyn NarProc::Op>> {
    Rc::new(Box::new(OpLib::Op_nal9__exec_and_inject {}))
}
fn rel_op() -> Rc<Box<dyn NarProc::Op>> {
    Rc::new(Box::new(OpLib::Op__nlp_rel_0 {}))
}
fn term(s: &mut Src) -> T {
    if s.bool() {
        pscen::state(s)
    } else {
        let g = G { depth: 2, vars: s.chance(1, 4), grammar: s.bool(), names: 4 };
        gen_term(s, &g)
    }
}
/// arguments of the operator which executes and injects
fn exec_args(s: &mut Src, depth: usize) -> Vec<T> {
    let mut args = vec![coll(K::SetExt, &[n("SELF")])];
    let m = if s.chance(1, 6) { 4 + s.usize(10) } else { 1 + s.usize(4) };
    let seq: Vec<T> = (0..m)
        .map(|_| match s.usize(10) {
            0 => pscen::state(s),
            1 => coll(K::SetExt, &[n("x")]),
            2 if depth > 0 => op(&exec_args(s, depth - 1), "^nal9_exeAndInject"),
            3 => op(&[n("y")], "^go"),
            5 if s.chance(1, 3) => {
                let i = s.usize(1000);
                op(&[coll(K::SetExt, &[n("SELF")]), inh(&coll(K::Prod, &[n(&format!("p{}", i)), coll(K::Seq, &[n("q"), n("and"), n("w")])]), &n("rel"))], "^nlpRel0")
            }
            4 => {
                let k = 1 + s.tail(3, 12);
                op(&(0..k).map(|_| term(s)).collect::<Vec<_>>(), "^say")
            }
            _ => pscen::call(s),
        })
        .collect();
    args.push(match s.usize(8) {
        0 => pscen::call(s),
        1 => T::Coll(K::Prod, seq),
        _ => T::Coll(K::Seq, seq),
    });
    args.push(if s.chance(1, 6) { pscen::call(s) } else { term(s) });
    if s.chance(1, 8) {
        args.push(term(s));
    } else if s.chance(1, 8) {
        args.pop();
    }
    args
}
/// reference: the calls and the events which have to happen
fn exec_ref(args: &[T], calls: &mut Vec<(String, Vec<T>)>, events: &mut Vec<T>, rels: &mut Vec<T>) {
    if args.len() != 3 {
        return;
    }
    let seq = match &args[1] {
        T::Coll(K::Seq, x) => x,
        _ => return,
    };
    for o in seq {
        if let Some((name, a)) = decode(o) {
            if name == "^nal9_exeAndInject" {
                exec_ref(&a, calls, events, rels);
            } else if name == "^nlpRel0" && a.len() == 2 {
                rels.push(rel_ref(&a[1]));
            } else if pscen::OPS.iter().any(|x| x.0 == name) {
                calls.push((name, a));
            }
        }
    }
    events.push(args[2].clone());
}
fn inject(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&pscen::OPS).aged(s);
    p.nar.procNar.ops.push(exec_op());
    p.nar.procNar.ops.push(rel_op());
    for _ in 0..s.usize(3) {
        let e = pscen::state(s);
        p.event(&e);
        p.step1();
    }
    p.nar.procNar.cfgEnBabbling = false;
    let args = exec_args(s, 2);
    c.line(&format!("{:?}", args.iter().map(|a| a.show()).collect::<Vec<_>>()));
    let before = p.trace();
    let t = p.t();
    p.calls.borrow_mut().clear();
    let w = world(&p.nar);
    let mem = Some(Arc::clone(&p.nar.mem));
    let a: Vec<_> = args.iter().map(to_nar).collect();
    let with = s.chance(3, 4);
    let decl0 = snap_decl(&p.nar);
    exec_op().call(&mut p.nar.procNar, if with { &mem } else { &None }, &a);
    let (mut calls, mut events, mut rels) = (vec![], vec![], vec![]);
    exec_ref(&args, &mut calls, &mut events, &mut rels);
    let got: Vec<(String, Vec<T>)> = p.calls.borrow().iter().map(|x| (x.0.clone(), x.1.clone())).collect();
    ensure!(got == calls, "called {:?}, asked for {:?}", got, calls);
    let after = p.trace();
    ensure!(after.len() >= before.len() && after[..before.len()] == before[..], "the events before changed");
    let new: Vec<T> = after[before.len()..].iter().map(|e| e.term.clone()).collect();
    ensure!(new == events, "the events {:?} happened, asked for {:?}", new.iter().map(|x| x.show()).collect::<Vec<_>>(), events.iter().map(|x| x.show()).collect::<Vec<_>>());
    for e in &after[before.len()..] {
        ensure!(e.t == t && e.evi == t, "the injected event happened at {} with evidence {}, now is {}", e.t, e.evi, t);
    }
    let d = world(&p.nar).diff(&w);
    if with && !rels.is_empty() {
        c.label("relation added by a nested operator");
        ensure!(d.iter().all(|x| *x == "events" || *x == "declarative memory" || *x == "waiting judgements"), "executing changed the {:?}", d);
        let decl = snap_decl(&p.nar);
        for r in &rels {
            ensure!(decl.get(r).map_or(false, |x| x.0.iter().any(|b| b.term == *r)), "{} is not known after it was added by a nested operator", r.show());
        }
        for (k, (a, _)) in &decl {
            for b in a {
                ensure!(rels.contains(&b.term) || decl0.get(k).map_or(false, |x| x.0.iter().any(|y| y.same(b))), "{} appeared", b.show());
            }
        }
    } else {
        ensure!(d.iter().all(|x| *x == "events"), "executing changed the {:?}", d);
    }
    c.nontrivial = calls.len() + rels.len() >= 2;
    if new.len() > 1 {
        c.label("nested");
    }
    Ok(())
}

/// reference of the relation which is added
fn rel_ref(t: &T) -> T {
    if let T::Stmt(Cop::Inh, a, r) = t {
        if let T::Coll(K::Prod, v) = &**a {
            if v.len() == 2 {
                if let T::Coll(K::Seq, q) = &v[1] {
                    if q.len() == 3 && q[1] == n("and") {
                        let mut v = v.clone();
                        v[1] = coll(K::ExtInt, &[q[0].clone(), q[2].clone()]);
                        return inh(&T::Coll(K::Prod, v), r);
                    }
                }
            }
        }
    }
    t.clone()
}
fn relation(s: &mut Src) -> T {
    let part = |s: &mut Src| -> T {
        match s.usize(6) {
            0 | 1 | 2 => {
                let m = if s.chance(1, 5) { 2 + s.usize(3) } else { 3 };
                let mut v: Vec<T> = (0..m).map(|_| pscen::state(s)).collect();
                if s.chance(4, 5) {
                    v[1] = n("and");
                }
                if s.chance(1, 6) {
                    v[0] = n("and");
                }
                T::Coll(K::Seq, v)
            }
            _ => term(s),
        }
    };
    match s.usize(8) {
        0 => term(s),
        1 => st(Cop::Sim, &coll(K::Prod, &[pscen::state(s), part(s)]), &n("rel")),
        2 => {
            let k = 1 + s.usize(4);
            let v: Vec<T> = (0..k).map(|_| part(s)).collect();
            inh(&T::Coll(K::Prod, v), &n("rel"))
        }
        _ => inh(&coll(K::Prod, &[term(s), part(s)]), &term(s)),
    }
}
fn add(s: &mut Src, c: &mut Ctx) -> R {
    let mut f = F::new();
    if s.bool() {
        f.feed("<a --> b>. {0.7 0.6}");
    }
    let many = s.chance(1, 12);
    let k = if many { 6 + s.usize(12) } else { 1 + s.usize(3) };
    let mut added: Vec<T> = vec![];
    for j in 0..k {
        let rel = if many { inh(&coll(K::Prod, &[n(&format!("x{}", j)), term(s)]), &n("rel")) } else { relation(s) };
        let mut args = vec![coll(K::SetExt, &[n("SELF")]), rel.clone()];
        match s.usize(12) {
            0 => {
                args.pop();
            }
            1 => args.push(n("x")),
            _ => {}
        }
        c.line(&format!("{:?}", args.iter().map(|a| a.show()).collect::<Vec<_>>()));
        let before = world(&f.nar);
        let snap0 = snap_decl(&f.nar);
        let id = f.nar.mem.read().shared.read().stampIdCounter.load(Ordering::SeqCst);
        let mem = if s.chance(1, 10) { None } else { Some(Arc::clone(&f.nar.mem)) };
        let a: Vec<_> = args.iter().map(to_nar).collect();
        rel_op().call(&mut f.nar.procNar, &mem, &a);
        let after = world(&f.nar);
        let d = after.diff(&before);
        let want = rel_ref(&rel);
        if args.len() != 2 || mem.is_none() || want.complexity() > 64 {
            ensure!(d.is_empty(), "a call which adds nothing changed the {:?}", d);
            continue;
        }
        ensure!(d.iter().all(|x| *x == "declarative memory" || *x == "waiting judgements"), "adding a relation changed the {:?}", d);
        let now = snap_decl(&f.nar);
        let beliefs = |m: &Snap| -> Vec<B> { m.get(&want).map(|x| x.0.clone()).unwrap_or_default().into_iter().filter(|b| b.term == want).collect() };
        let (old, new) = (beliefs(&snap0), beliefs(&now));
        // known before: revised with the new evidence
        let expected = match old.first() {
            None => v(1.0, 0.9),
            Some(b) => rev(b.v, v(1.0, 0.9)),
        };
        ensure!(new.len() == 1, "{} is known {} times after it was added: {:?}", want.show(), new.len(), now.keys().map(|k| k.show()).collect::<Vec<_>>());
        ensure!(close(new[0].v, expected) && new[0].punct == '.' && new[0].stamp.iter().any(|x| *x >= id), "{} was added, expected {:?} with new evidence", new[0].show(), expected);
        // and nothing else
        for (k, (a, _)) in &now {
            for b in a {
                ensure!(b.term == want || snap0.get(k).map_or(false, |x| x.0.iter().any(|y| y.same(b))), "{} appeared when {} was added", b.show(), want.show());
            }
        }
        let t: Vec<&String> = after.tasks.iter().filter(|x| !before.tasks.contains(x)).collect();
        ensure!(!t.is_empty() && t.iter().all(|x| x.starts_with(&format!("{}. ", want.show()))), "{:?} wait for reasoning after {} was added", t, want.show());
        // all that was added before is still known
        for x in &added {
            ensure!(now.get(x).map_or(false, |y| y.0.iter().any(|b| b.term == *x)), "{} is no longer known after {} others were added", x.show(), added.len());
            if many {
                ensure!(now.get(&n("rel")).map_or(false, |y| y.0.iter().any(|b| b.term == *x)), "{} is no longer known of the relation after {} others were added", x.show(), added.len());
            }
        }
        added.push(want.clone());
        c.nontrivial = true;
        if want != rel {
            c.label("rewritten");
        }
        c.evals += 1;
    }
    Ok(())
}

/// the operators are reached by deciding
fn decided(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&pscen::OPS).aged(s);
    p.nar.procNar.ops.push(exec_op());
    p.nar.procNar.ops.push(rel_op());
    p.nar.procNar.ops.push(Rc::new(Box::new(OpLib::OpNop { name: "^nop".into() })));
    p.nar.procNar.cfgEnBabbling = false;
    let which = s.usize(3);
    let state = |s: &mut Src, x: &str| {
        let x = n(x);
        match s.usize(4) {
            0 => inh(&x, &coll(K::SetInt, &[n("is")])),
            1 => inh(&coll(K::SetExt, &[x]), &n("kind")),
            _ => x,
        }
    };
    let (a, inj) = (state(s, "aa"), state(s, "injected"));
    let names = ["x", "y", "z", "w"];
    let me = coll(K::SetExt, &[n("SELF")]);
    let mut steps: Vec<(String, Vec<T>)> = vec![];
    for _ in 0..2 + s.usize(3) {
        let o = pscen::OPS[s.usize(3)].0.to_string();
        let mut args = vec![me.clone()];
        for _ in 0..1 + s.tail(2, 12) {
            args.push(n(s.pick(&names)));
        }
        steps.push((o, args));
    }
    let second = if s.bool() { coll(K::Seq, &[n(s.pick(&names)), n("and"), n(s.pick(&["u", "v"]))]) } else { n(s.pick(&names)) };
    let rel = inh(&coll(K::Prod, &[n("p"), second]), &n(s.pick(&["rel", "likes"])));
    let call = match which {
        0 => op(&[me.clone(), coll(K::Seq, &steps.iter().map(|(o, args)| op(args, o)).collect::<Vec<_>>()), inj.clone()], "^nal9_exeAndInject"),
        1 => op(&[me.clone(), rel.clone()], "^nlpRel0"),
        _ => op(&[me.clone(), n("x")], "^nop"),
    };
    for l in [format!("{}.", st(Cop::Pred, &coll(K::Seq, &[a.clone(), call.clone()]), &n("gg")).text()), "gg! :|:".to_string(), format!("{}. :|:", a.text())].iter() {
        c.line(l);
        ensure!(inputN(&mut p.nar, l), "{} is refused", l);
    }
    let w = world(&p.nar);
    for _ in 0..30 {
        p.derive();
    }
    p.step0();
    let t = p.t();
    p.step1();
    let tr = p.trace();
    let now: Vec<&Ev> = tr.iter().filter(|e| e.t == t).collect();
    ensure!(now.iter().any(|e| e.term == call), "{} is not done: {:?}", call.show(), tr);
    let d = world(&p.nar).diff(&w);
    if which == 0 {
        let got: Vec<_> = p.calls.borrow().iter().map(|x| (x.0.clone(), x.1.clone())).collect();
        ensure!(got == steps, "called {:?}", got);
        ensure!(now.iter().any(|e| e.term == inj), "the event is not injected");
    } else {
        ensure!(p.calls.borrow().is_empty(), "others are called");
    }
    ensure!(d.contains(&"declarative memory") == (which == 1), "deciding changed the {:?}", d);
    if which == 1 {
        let want = rel_ref(&rel);
        ensure!(snap_decl(&p.nar).get(&want).is_some(), "the relation is not added");
    }
    c.nontrivial = true;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C20",
        vec![
            Part::new("inject", "at least two operators were called", 24000, 200000, inject).fresh(),
            Part::new("add", "a relation was added", 24000, 200000, add).fresh(),
            Part::new("decided", "always", 2400, 20000, decided).fresh(),
        ],
    ));
}
