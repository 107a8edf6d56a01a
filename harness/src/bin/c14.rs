#![allow(non_snake_case)]
//! C14 anticipation: knowledge which was acted upon is weakened exactly when the prediction fails
use std::collections::BTreeMap;
use std::sync::Arc;
use vh::proc::*;
use vh::pscen::*;
use vh::term::*;
use vh::*;

type Pending = Vec<(usize, Evi, i64)>;
fn pending(p: &P) -> Pending {
    let mut v: Pending = p.nar.procNar.anticipatedEvents.iter().map(|a| (eptr(&a.evi), Arc::clone(&a.evi), a.deadline)).collect();
    v.sort_by_key(|x| (x.0, x.2));
    v
}
fn keys(v: &Pending) -> Vec<(usize, i64)> {
    let mut r: Vec<_> = v.iter().map(|x| (x.0, x.2)).collect();
    r.sort();
    r
}
/// every stored piece of evidence and every anticipated one, by identity
fn all(p: &P) -> BTreeMap<usize, (Evi, nar::B)> {
    let mut m = BTreeMap::new();
    for (e, b) in copies(p) {
        m.insert(eptr(&e), (e, b));
    }
    for (k, e, _) in pending(p) {
        let b = nar::belief(&e.read());
        m.insert(k, (e, b));
    }
    m
}
fn show(b: &nar::B) -> String {
    let (x, y) = b.cnt.unwrap_or((-1, -1));
    format!("{} {}/{}", b.term.show(), x, y)
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = s.chance(1, 5);
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let enabled = s.chance(9, 10);
    p.nar.procNar.cfg__enAnticipation = enabled;
    let babbling = p.nar.procNar.cfgEnBabbling;
    let k = 1 + s.usize(6);
    let rules = knowledge(s, &mut p, c, k)?;
    let (mut confirmed, mut failed) = (0, 0);
    for _ in 0..2 + s.usize(if c.thorough { 40 } else { 20 }) {
        for _ in 0..s.weighted(&[4, 4, 2, 1]) {
            if s.chance(1, 4) {
                let t = fitting_goal(s, &rules);
                let d = desire(s);
                c.line(&format!("t={} goal {} {{{} {}}}", p.t(), t.show(), d.f, d.c));
                p.goal(&t, d);
            } else {
                let pend = pending(&p);
                let e = if !pend.is_empty() && s.chance(1, 3) { parts(&from_nar(&pend[s.usize(pend.len())].1.read().term)).unwrap().1 } else { fitting_event(s, &rules) };
                c.line(&format!("t={} event {}", p.t(), e.show()));
                p.event(&e);
            }
        }
        if s.chance(1, 8) {
            // experience gained meanwhile
            let (pos, neg) = *s.pick(&[(0, 5), (0, 100), (3, 0), (40, 1), (1000, 0), (100000, 7), (0, 20000)]);
            p.age(pos, pos + neg);
            c.line(&format!("t={} every link is observed {} times more and fails {} times", p.t(), pos, neg));
        }
        if s.chance(1, 12) {
            // nothing is perceived for a while
            let k = *s.pick(&[1, 3, 10, 60]);
            p.nar.procNar.t += k;
            c.line(&format!("{} cycles pass", k));
        }
        // perception: confirmation and failure
        let before = pending(&p);
        let evi = all(&p);
        let trace = p.trace();
        let recent: Vec<T> = trace.iter().rev().take(2).map(|e| e.term.clone()).collect();
        let now = p.t();
        p.step0();
        let mut keep: Pending = vec![];
        let mut minus: BTreeMap<usize, i64> = BTreeMap::new();
        for (key, e, deadline) in before {
            let (_, pred) = parts(&from_nar(&e.read().term)).unwrap();
            if recent.contains(&pred) {
                confirmed += 1;
                c.line(&format!("t={} confirmed {}", now, pred.show()));
            } else if deadline <= now {
                failed += 1;
                c.line(&format!("t={} failed {}", now, pred.show()));
                *minus.entry(key).or_insert(0) += 1;
            } else {
                keep.push((key, e, deadline));
            }
        }
        if minus.values().sum::<i64>() > 4 {
            c.label("more than four predictions failed at once");
        }
        ensure!(keys(&pending(&p)) == keys(&keep), "at {} anticipations {:?} remain instead of {:?} (events {})", now, pending(&p).iter().map(|x| (parts(&from_nar(&x.1.read().term)).unwrap().1.show(), x.2)).collect::<Vec<_>>(), keep.iter().map(|x| (parts(&from_nar(&x.1.read().term)).unwrap().1.show(), x.2)).collect::<Vec<_>>(), recent.iter().map(|e| e.show()).collect::<Vec<_>>().join(" "));
        for (key, (e, b)) in &evi {
            let got = nar::belief(&e.read());
            let mut want = b.clone();
            let (pos, cnt) = b.cnt.unwrap();
            let m = minus.get(key).copied().unwrap_or(0);
            want.cnt = Some((pos, cnt + m));
            ensure!(got.cnt == want.cnt && got.term == want.term && got.stamp == want.stamp && got.exp_dt == want.exp_dt, "at {} evidence {} became {}, expected {} ({} failed predictions)", now, show(b), show(&got), show(&want), m);
            if m > 0 {
                ensure!(rules::expect(got.v) < rules::expect(b.v), "a failed prediction did not weaken {}", show(b));
            }
        }
        ensure!(all(&p).len() == copies(&p).iter().map(|x| eptr(&x.0)).chain(pending(&p).iter().map(|x| x.0)).collect::<std::collections::BTreeSet<_>>().len(), "evidence");
        for _ in 0..s.weighted(&[2, 3, 2]) {
            p.derive();
        }
        // deciding: what is executed by decision is anticipated
        let allowed = decisions(&p);
        let evi = all(&p);
        let calls = p.calls.borrow().len();
        p.step1();
        let called: Vec<(String, Vec<T>, i64)> = p.calls.borrow()[calls..].to_vec();
        let after = keys(&pending(&p));
        let old = keys(&keep);
        let mut ok = false;
        for o in &allowed {
            let fits = match &o.exec {
                Some((term, _)) => {
                    let (name, args) = decode(term).unwrap();
                    if OPS.iter().any(|x| x.0 == name) {
                        called.len() == 1 && called[0].0 == name && called[0].1 == args
                    } else {
                        called.is_empty()
                    }
                }
                None => called.is_empty() || babbling,
            };
            let mut want = old.clone();
            if let (Some((_, e)), true) = (&o.exec, enabled) {
                want.push((eptr(e), now + INTERVALS[e.read().expDt.unwrap_or(0) as usize]));
            }
            want.sort();
            if fits && want == after {
                ok = true;
                break;
            }
        }
        ensure!(ok, "at {} executed {:?}, and anticipates {:?} after {:?}", now, called.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), after.iter().map(|x| x.1).collect::<Vec<_>>(), old.iter().map(|x| x.1).collect::<Vec<_>>());
        if after.len() > old.len() {
            c.line(&format!("t={} executed {:?}", now, called.iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
        }
        for (_, (e, b)) in &evi {
            ensure!(nar::belief(&e.read()) == *b, "deciding changed evidence {}", show(b));
        }
        c.evals += 2;
    }
    if confirmed > 0 {
        c.label("a prediction was confirmed");
    }
    if failed > 0 {
        c.label("a prediction failed");
    }
    c.nontrivial = confirmed + failed > 0;
    Ok(())
}

/// an operation that stops working is given up, one that keeps working is not
fn unlearn(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    p.nar.procNar.goalSystem.write().cfg__enGoalSatisfaction = false;
    let o = op(&[coll(K::SetExt, &[n("SELF")])], "^go");
    let (a, b) = (n("a"), n("b"));
    let t = st(Cop::Pred, &coll(K::Seq, &[a.clone(), o]), &b);
    let cnt = s.range(5, 30);
    let dt = s.range(0, 8);
    p.store(vec![(evidence(&t, &[1000, 1001], cnt, cnt, Some(dt)), 0)])?;
    let works = s.bool();
    c.line(&format!("{} {}/{} +{} {}", t.show(), cnt, cnt, dt, if works { "works" } else { "never works" }));
    let start: i64 = copies(&p).iter().map(|x| x.1.cnt.unwrap().1).sum();
    let delay = if works { s.range(0, INTERVALS[dt as usize] - 1) } else { 0 };
    let mut tries = 0;
    for _ in 0..40 {
        p.goal(&b, rules::v(1.0, 0.99));
        p.event(&a);
        p.step0();
        let before = p.calls.borrow().len();
        p.step1();
        let called = p.calls.borrow().len() - before;
        tries += called as i64;
        let mut left = if called > 0 { INTERVALS[dt as usize] } else { 1 };
        while left > 0 {
            left -= 1;
            if works && called > 0 && INTERVALS[dt as usize] - 1 - left == delay {
                p.event(&b);
            }
            p.event(&n("noise0"));
            p.step0();
            // only waits
            p.nar.procNar.t += 1;
        }
    }
    for _ in 0..20 {
        p.event(&n("noise1"));
        p.step0();
        p.nar.procNar.t += 1;
    }
    let end: i64 = copies(&p).iter().map(|x| x.1.cnt.unwrap().1).sum();
    c.line(&format!("{} tries, {} counted against it", tries, end - start));
    ensure!(p.nar.procNar.anticipatedEvents.is_empty(), "predictions are pending long after their deadline");
    if works {
        ensure!(end == start, "{} failures counted although the operation worked every time", end - start);
        ensure!(tries >= 30, "the operation works but was executed only {} times", tries);
    } else {
        ensure!(end - start == tries, "{} tries failed but {} were counted", tries, end - start);
        ensure!(tries > 0, "the operation was never tried");
    }
    c.nontrivial = true;
    Ok(())
}

/// many predictions are pending; each is judged on its own, however many are due together
fn many(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__perceptionSamplesPerStep = 0;
    p.nar.procNar.goalSystem.write().cfg__enGoalSatisfaction = false;
    let k = 2 + s.usize(14);
    let mut msgs = vec![];
    for i in 0..k {
        let o = op(&[coll(K::SetExt, &[n("SELF")])], OPS[s.usize(3)].0);
        let t = st(Cop::Pred, &coll(K::Seq, &[n(&format!("a{}", i)), o]), &n(&format!("b{}", i)));
        let cnt = s.range(10, 60);
        msgs.push((evidence(&t, &[1000 + 2 * i as i64, 1001 + 2 * i as i64], cnt, cnt, Some(8)), 0));
    }
    p.store(msgs)?;
    // acts on everything it knows, one after another
    for i in 0..k {
        p.goal(&n(&format!("b{}", i)), rules::v(1.0, 0.99));
        p.event(&n(&format!("a{}", i)));
        p.step0();
        p.step1();
    }
    let pend = pending(&p);
    let calls = p.calls.borrow().len();
    ensure!(pend.len() == calls, "{} operations were executed by decision but {} predictions are pending", calls, pend.len());
    let start: Vec<(i64, i64)> = pend.iter().map(|x| nar::belief(&x.1.read()).cnt.unwrap()).collect();
    // some of it happens
    let mut happened = vec![];
    for x in &pend {
        if s.chance(1, 3) {
            let b = parts(&from_nar(&x.1.read().term)).unwrap().1;
            p.event(&b);
            p.step0();
            happened.push(b);
        }
    }
    let last = pend.iter().map(|x| x.2).max().unwrap_or(0);
    for _ in 0..3 {
        p.event(&n("noise"));
    }
    p.nar.procNar.t = last.max(p.t());
    p.step0();
    let mut failed = 0;
    for (i, x) in pend.iter().enumerate() {
        let b = parts(&from_nar(&x.1.read().term)).unwrap().1;
        let all = pend.iter().filter(|y| y.0 == x.0).count() as i64;
        let want = if happened.contains(&b) { start[i] } else { (start[i].0, start[i].1 + all) };
        failed += (!happened.contains(&b)) as usize;
        let got = nar::belief(&x.1.read()).cnt.unwrap();
        ensure!(got == want, "{} predictions pending, {} was {} but its evidence {:?} became {:?} instead of {:?}", pend.len(), b.show(), if happened.contains(&b) { "observed" } else { "not observed" }, start[i], got, want);
    }
    ensure!(pending(&p).is_empty(), "predictions are pending after their deadline");
    c.line(&format!("{} predictions, {} fail at once, {} happened", pend.len(), failed, happened.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")));
    if failed > 4 {
        c.label("more than four predictions failed at once");
    }
    c.nontrivial = failed > 1;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C14",
        vec![
            Part::new("history", "a prediction was confirmed or failed", 16000, 300000, history).fresh(),
            Part::new("many", "two predictions failed at once", 1500, 20000, many).fresh(),
            Part::new("unlearn", "always", 600, 10000, unlearn).fresh(),
        ],
    ));
}
