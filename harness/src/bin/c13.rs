#![allow(non_snake_case)]
//! C13 perception: evidence comes from what was observed, and is counted once
use nar20_1::NarSentence::*;
use vh::nar::*;
use vh::proc::*;
use vh::term::*;
use vh::*;

const OPS: [(&str, bool, i64); 3] = [("^go", true, 1), ("^pick", false, 4), ("^say", true, 1200)];

fn object(s: &mut Src) -> T {
    match s.usize(12) {
        0 => coll(K::SetExt, &[n("a")]),
        1 => coll(K::ExtInt, &[n("a"), n("b")]),
        _ => n(["a", "b", "c"][s.usize(3)]),
    }
}
const KINDS: [K; 8] = [K::Seq, K::SetInt, K::SetExt, K::Conj, K::Prod, K::IntInt, K::ExtInt, K::Par];
/// an observed event: an atom, a property of an object, a relation, a call of a known or unknown operator
fn event(s: &mut Src) -> T {
    match s.usize(13) {
        12 => {
            // a large one
            let k = 3 + s.usize(4);
            let parts: Vec<T> = (0..k).map(|_| if s.bool() { object(s) } else { n(["u", "v", "w"][s.usize(3)]) }).collect();
            let e = inh(&coll(K::Prod, &parts), &n(["k", "l"][s.usize(2)]));
            if s.chance(1, 3) {
                let x = object(s);
                inh(&x, &coll(K::SetInt, &[e]))
            } else {
                e
            }
        }
        10 => {
            // any other kind of term
            let x = object(s);
            match s.usize(10) {
                8 => T::Neg(Box::new(inh(&x, &n("k")))),
                9 => inh(&n("k"), &st(*s.pick(&[Cop::Sim, Cop::Impl, Cop::Equiv]), &x, &n("k"))),
                i => coll(KINDS[i], &[x, n("k")]),
            }
        }
        11 => {
            let x = object(s);
            let y = object(s);
            let k = KINDS[s.usize(8)];
            if s.bool() {
                inh(&x, &coll(k, &[y, n("k")]))
            } else {
                inh(&coll(k, &[y, n("k")]), &n("l"))
            }
        }
        0..=2 => n(["a", "b", "c", "d"][s.usize(4)]),
        3 | 4 => inh(&object(s), &coll(K::SetInt, &[n(["red", "big"][s.usize(2)])])),
        5 => {
            let x = object(s);
            let y = object(s);
            inh(&x, &T::Img(Box::new(y), s.usize(2), vec![object(s)]))
        }
        6 => op(&[coll(K::SetExt, &[n("SELF")])], "^unknown"),
        _ => call(s),
    }
}
fn call(s: &mut Src) -> T {
    let mut args = vec![coll(K::SetExt, &[n("SELF")])];
    if s.chance(1, 3) {
        args.push(object(s));
    }
    op(&args, OPS[s.usize(3)].0)
}
fn is_call(t: &T) -> bool {
    match decode(t) {
        Some((name, _)) => OPS.iter().any(|o| o.0 == name),
        None => false,
    }
}
#[derive(Clone, PartialEq, Debug)]
struct Obs {
    term: T,
    stamp: Vec<i64>,
    dt: i64,
    cnt: i64,
    pos: i64,
}
fn show(o: &Obs) -> String {
    format!("{} {:?} +{} {}/{}", o.term.show(), o.stamp, o.dt, o.pos, o.cnt)
}
/// everything that perception may conclude from the trace
fn observable(trace: &[Ev], n_ops_max: usize, multi: bool, single: bool) -> Vec<Obs> {
    let calls: Vec<usize> = (0..trace.len()).filter(|i| is_call(&trace[*i].term)).collect();
    let mut sizes = vec![];
    if single || n_ops_max == 1 {
        sizes.push(1);
    }
    if multi && n_ops_max > 1 {
        sizes.push(n_ops_max.min(calls.len()));
    }
    let mut res: Vec<Obs> = vec![];
    if trace.len() < 3 || calls.is_empty() {
        return res;
    }
    let mut subsets: Vec<Vec<usize>> = vec![];
    for m in 1u32..(1 << calls.len()) {
        if sizes.contains(&(m.count_ones() as usize)) {
            subsets.push((0..calls.len()).filter(|i| m & (1 << i) != 0).map(|i| calls[i]).collect());
        }
    }
    for sub in subsets {
        let (lo, hi) = (sub[0], sub[sub.len() - 1]);
        for first in 0..lo {
            for last in [trace.len() - 1, trace.len() - 2] {
                if last <= hi || is_call(&trace[first].term) || is_call(&trace[last].term) || trace[first].term == trace[last].term {
                    continue;
                }
                let mut sel = vec![first];
                sel.extend(&sub);
                sel.push(last);
                let seq: Vec<T> = sel[..sel.len() - 1].iter().map(|i| trace[*i].term.clone()).collect();
                let cnt = OPS.iter().find(|o| o.0 == decode(&trace[lo].term).unwrap().0).unwrap().2;
                let o = Obs {
                    term: st(Cop::Pred, &coll(K::Seq, &seq), &trace[last].term),
                    stamp: sel.iter().map(|i| trace[*i].evi).collect(),
                    dt: interval_idx(trace[last].t - trace[hi].t),
                    cnt,
                    pos: cnt,
                };
                if !res.contains(&o) {
                    res.push(o);
                }
            }
        }
    }
    res
}
fn obs(x: &Sentence) -> Obs {
    let b = belief(x);
    let (pos, cnt) = b.cnt.unwrap_or((-1, -1));
    Obs { term: b.term, stamp: b.stamp, dt: b.exp_dt.unwrap_or(-1), cnt, pos }
}
fn show_trace(t: &[Ev]) -> String {
    t.iter().map(|e| format!("{}@{}", e.term.show(), e.t)).collect::<Vec<_>>().join(" ")
}

/// stored copies: (concept, table, belief)
#[derive(Clone)]
struct Copy {
    concept: T,
    table: u8,
    o: Obs,
    told: bool,
}
struct Model {
    copies: Vec<Copy>,
    k: u64,
}
impl Model {
    fn put(&mut self, o: &Obs, told: bool) {
        let (cond, pred) = match &o.term {
            T::Stmt(Cop::Pred, a, b) => match &**a {
                T::Coll(K::Seq, v) => (v[0].clone(), (**b).clone()),
                _ => return,
            },
            _ => return,
        };
        let mut names = vec![];
        for x in cond.subterms().into_iter().chain(pred.subterms()) {
            if !names.contains(&x) {
                names.push(x);
            }
        }
        for concept in names {
            for table in 0..2u8 {
                if !self.copies.iter().any(|c| c.concept == concept && c.table == table && c.o.term == o.term && rules::overlap(&c.o.stamp, &o.stamp)) {
                    self.copies.push(Copy { concept: concept.clone(), table, o: o.clone(), told });
                }
            }
        }
    }
    fn add(&mut self, o: &Obs, told: bool) {
        self.put(o, told);
        // a shared object of a property condition is generalised
        if let T::Stmt(Cop::Pred, a, _) = &o.term {
            if let T::Coll(K::Seq, v) = &**a {
                if let (2, T::Stmt(Cop::Inh, x, y)) = (v.len(), &v[0]) {
                    if let T::Coll(K::SetInt, _) = &**y {
                        let x = (**x).clone();
                        if o.term.subterms().iter().filter(|z| **z == x).count() >= 2 {
                            self.k += 1;
                            let name = iv(&format!("Q-{}", self.k));
                            let mut g = o.clone();
                            g.term = o.term.map(&|z| if *z == x { Some(name.clone()) } else { None });
                            self.put(&g, told);
                        }
                    }
                }
            }
        }
    }
    fn store(&mut self, o: &Obs) -> bool {
        let mut revised = false;
        for c in &mut self.copies {
            if c.o.term == o.term && c.o.dt.max(0) >= o.dt && !rules::overlap(&c.o.stamp, &o.stamp) {
                c.o.stamp = rules::merge(&c.o.stamp, &o.stamp);
                c.o.pos += o.pos;
                c.o.cnt += o.cnt;
                revised = true;
            }
        }
        if !revised {
            self.add(o, false);
        }
        revised
    }
    fn largest(&self) -> usize {
        let mut n = std::collections::HashMap::new();
        for c in &self.copies {
            *n.entry((c.concept.show(), c.table)).or_insert(0) += 1;
        }
        n.values().copied().max().unwrap_or(0)
    }
    fn check(&self, p: &P) -> R {
        let mut want: Vec<String> = self.copies.iter().map(|c| format!("in concept {} table {}: {}", canon(&c.concept).show(), c.table, show(&Obs { term: canon(&c.o.term), ..c.o.clone() }))).collect();
        let mut got: Vec<String> = p
            .evidence_mem()
            .iter()
            .map(|(c, t, b)| {
                let (pos, cnt) = b.cnt.unwrap_or((-1, -1));
                format!("in concept {} table {}: {}", canon(c).show(), t, show(&Obs { term: canon(&b.term), stamp: b.stamp.clone(), dt: b.exp_dt.unwrap_or(-1), cnt, pos }))
            })
            .collect();
        want.sort();
        got.sort();
        let mut i = 0;
        while i < want.len().max(got.len()) {
            let (w, g) = (want.get(i), got.get(i));
            if w != g {
                return Err(match (w, g) {
                    (Some(w), Some(g)) if w < g => format!("evidence {} is missing", w),
                    (Some(w), None) => format!("evidence {} is missing", w),
                    (_, Some(g)) => format!("evidence {} is not justified by the observations", g),
                    _ => unreachable!(),
                });
            }
            i += 1;
        }
        Ok(())
    }
}

/// histories of events and steps: what is perceived, and what is remembered of it
fn history(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    let pn = &mut p.nar.procNar;
    pn.cfgEnBabbling = s.chance(1, 3);
    pn.cfg__nOpsMax = *s.pick(&[1, 1, 2, 3]);
    pn.cfg__multiOpProbability = *s.pick(&[0.2, 0.0, 1.1]);
    pn.cfg__perceptionSamplesPerStep = *s.pick(&[4, 1, 8]);
    let n_ops = pn.cfg__nOpsMax as usize;
    let prob = pn.cfg__multiOpProbability;
    let samples = pn.cfg__perceptionSamplesPerStep as usize;
    c.line(&format!("ops at most {} (p {}), {} samples, babbling {}", n_ops, prob, samples, pn.cfgEnBabbling));
    let mut m = Model { copies: vec![], k: 0 };
    for _ in 0..s.usize(3) {
        // knowledge told by the user
        let (a, o, b) = (event(s), call(s), event(s));
        let t = st(Cop::Pred, &coll(K::Seq, &[a, o]), &b);
        let id = p.nar.mem.read().shared.read().stampIdCounter.load(std::sync::atomic::Ordering::SeqCst);
        p.tell(&t);
        c.line(&format!("told {}", t.show()));
        m.add(&Obs { term: t, stamp: vec![id], dt: -1, cnt: 10, pos: 10 }, true);
        m.check(&p)?;
    }
    let mut seen = 0;
    let mut revised = 0;
    let steps = 2 + s.usize(if c.thorough { 40 } else { 24 });
    for _ in 0..steps {
        // sometimes a lot happens at once
        let k = if s.chance(1, 12) { 12 + s.usize(34) } else { *s.pick(&[1usize, 0, 1, 2, 3]) };
        for _ in 0..k {
            let before = p.trace();
            // what happened before may happen again
            let e = if !before.is_empty() && s.chance(1, 5) {
                let i = s.usize(before.len());
                before[i].term.clone()
            } else {
                event(s)
            };
            p.event(&e);
            let after = p.trace();
            ensure!(after.len() == before.len() + 1 && after[..before.len()] == before[..] && after[before.len()] == Ev { term: e.clone(), evi: p.t(), t: p.t() }, "event {} at {} is not appended to the trace: {}", e.show(), p.t(), show_trace(&after));
        }
        let trace = p.trace();
        c.line(&format!("t={} trace {}", p.t(), show_trace(&trace)));
        p.step0();
        ensure!(p.trace() == trace, "perceiving changed the trace: {}", show_trace(&p.trace()));
        let msgs = p.captured();
        ensure!(msgs.len() <= samples, "{} pieces of evidence of one step, more than the {} samples", msgs.len(), samples);
        let allowed = observable(&trace, n_ops, prob > 0.0, prob < 1.0);
        for (x, t) in msgs {
            let o = obs(&x);
            c.line(&format!("  perceived {}", show(&o)));
            ensure!(x.punct == EnumPunctation::JUGEMENT, "perceived {} is not a judgement", show(&o));
            ensure!(t == p.t(), "{} is perceived at {} but marked with {}", show(&o), p.t(), t);
            ensure!(allowed.contains(&o), "perceived {} does not follow from the trace {}", show(&o), show_trace(&trace));
            seen += 1;
            p.store(vec![(x, t)])?;
            if m.store(&o) {
                revised += 1;
            }
        }
        // beyond the limit of beliefs per concept evidence is forgotten, which C12 is about
        if m.largest() > 95 {
            c.label("stopped at the limit of beliefs");
            break;
        }
        m.check(&p)?;
        let t = p.t();
        let calls = p.calls.borrow().len();
        p.step1();
        let called = p.calls.borrow().len() - calls;
        // the trace: the events in order, the executed operation last, the oldest forgotten beyond 20
        let mut want = trace.clone();
        if called > 0 {
            let (name, args, at) = p.calls.borrow()[calls].clone();
            want.push(Ev { term: op(&args, &name), evi: at, t: at });
        }
        let want = want[want.len().saturating_sub(20)..].to_vec();
        ensure!(p.trace() == want, "trace after the step is {} instead of {}", show_trace(&p.trace()), show_trace(&want));
        ensure!(p.t() == t + 1, "the time went from {} to {} in one step", t, p.t());
        ensure!(p.captured().is_empty(), "evidence is perceived outside of perception");
        m.check(&p)?;
        c.evals += 2;
    }
    if revised > 0 {
        c.label("evidence was revised");
    }
    if m.k > 0 {
        c.label("a variable was introduced");
    }
    c.nontrivial = seen > 0;
    Ok(())
}

/// the same few events again and again: the evidence grows to its limit
fn long(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__nOpsMax = 1;
    p.nar.procNar.cfg__perceptionSamplesPerStep = *s.pick(&[2, 4]);
    let first = n("a");
    let o = op(&[coll(K::SetExt, &[n("SELF")])], OPS[s.usize(3)].0);
    let last = if s.bool() { n("b") } else { inh(&n("c"), &coll(K::SetInt, &[n("red")])) };
    let gap = s.range(0, 30);
    let mut m = Model { copies: vec![], k: 0 };
    let old = if s.bool() { Some((5 + s.usize(20), s.range(100, 2_000_000_000), s.range(0, 2_000_000_000))) } else { None };
    let (rounds, start) = (30 + s.usize(if c.thorough { 400 } else { 90 }), s.range(0, 5));
    p.nar.procNar.t = start;
    c.line(&format!("{} times {} {} {}, {} apart", rounds, first.show(), o.show(), last.show(), gap));
    for i in 0..rounds {
        for e in [&first, &o, &last] {
            p.event(e);
            if s.chance(1, 20) {
                p.event(&n(["x", "y"][s.usize(2)]));
            }
            p.step0();
            for (x, t) in p.captured() {
                let o = obs(&x);
                p.store(vec![(x, t)])?;
                m.store(&o);
            }
            if m.largest() > 95 {
                c.label("stopped at the limit of beliefs");
                return Ok(());
            }
            p.step1();
        }
        p.nar.procNar.t += gap;
        if let Some((at, pos, neg)) = old {
            if at == i {
                p.age(pos, pos + neg);
                for x in &mut m.copies {
                    x.o.pos += pos;
                    x.o.cnt += pos + neg;
                }
                c.line(&format!("round {}: links have been observed {} times more and failed {} times", i, pos, neg));
            }
        }
        if i % 8 == 7 || i + 1 == rounds {
            m.check(&p)?;
            c.evals += 1;
        }
    }
    let len = m.copies.iter().map(|x| x.o.stamp.len()).max().unwrap_or(0);
    c.label(if len >= 120 { "evidence of full length" } else if len > 60 { "long evidence" } else { "short evidence" });
    c.nontrivial = len > 60;
    Ok(())
}

/// every observable relation of a short trace is perceived when it is looked at often enough
fn complete(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfg__perceptionSamplesPerStep = 100;
    let two = s.chance(1, 3);
    if two {
        p.nar.procNar.cfg__nOpsMax = 2;
        p.nar.procNar.cfg__multiOpProbability = 0.5;
    }
    p.nar.procNar.cfgEnBabbling = false;
    // now and then a long trace with a few calls
    let k = if !two && s.chance(1, 6) { 8 + s.usize(17) } else { 0 };
    let at = if k > 0 { vec![s.usize(k), k - 1 - s.usize(4)] } else { vec![] };
    for i in 0..if k > 0 { k } else { 3 + s.usize(4) } {
        let e = if k == 0 {
            event(s)
        } else if at.contains(&i) {
            call(s)
        } else {
            n(&format!("e{}", i))
        };
        p.event(&e);
        if s.bool() {
            p.nar.procNar.t += s.range(1, 20);
        }
    }
    let trace = p.trace();
    c.line(&show_trace(&trace));
    let allowed = observable(&trace, if two { 2 } else { 1 }, true, true);
    let mut got: Vec<Obs> = vec![];
    for _ in 0..30 {
        p.step0();
        for (x, _) in p.captured() {
            let o = obs(&x);
            ensure!(allowed.contains(&o), "perceived {} does not follow from the trace {}", show(&o), show_trace(&trace));
            if !got.contains(&o) {
                got.push(o);
            }
        }
    }
    for o in &allowed {
        ensure!(got.contains(o), "{} follows from the trace but is never perceived in 3000 samples", show(o));
    }
    c.nontrivial = !allowed.is_empty();
    Ok(())
}

/// an object with a property, an operation, something about the same object: all of it is generalised
fn general(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = P::new(&OPS).aged(s);
    p.nar.procNar.cfgEnBabbling = false;
    p.nar.procNar.cfg__nOpsMax = 1;
    let x = match s.usize(4) {
        0 => event(s),
        1 => coll(KINDS[s.usize(8)], &[n("a"), n("b")]),
        _ => object(s),
    };
    let prop = inh(&x, &coll(K::SetInt, &[if s.chance(1, 5) { x.clone() } else { n("red") }]));
    let mut t = x.clone();
    let mut e = inh(&n("k"), &n("l"));
    for _ in 0..1 + s.usize(3) {
        e = match s.usize(13) {
            8 => T::Neg(Box::new(t)),
            9 => T::Img(Box::new(n("k")), s.usize(2), vec![t]),
            10 => T::Img(Box::new(t), s.usize(2), vec![n("k")]),
            11 => st(*s.pick(&[Cop::Sim, Cop::Inh, Cop::Impl, Cop::Equiv, Cop::Pred]), &t, &n("k")),
            12 => st(*s.pick(&[Cop::Sim, Cop::Inh, Cop::Impl, Cop::Equiv, Cop::Pred]), &n("k"), &t),
            i if s.bool() => coll(KINDS[i], &[t, n("k")]),
            i => coll(KINDS[i], &[n("k"), n("m"), t]),
        };
        t = e.clone();
    }
    if s.chance(1, 8) {
        e = n("k");
    }
    let o = call(s);
    if is_call(&prop) || is_call(&e) || prop == e {
        return Ok(());
    }
    let mut m = Model { copies: vec![], k: 0 };
    for t in [&prop, &o, &e] {
        p.event(t);
    }
    let trace = p.trace();
    c.line(&format!("trace {}", show_trace(&trace)));
    for _ in 0..3 {
        p.step0();
        for (x, t) in p.captured() {
            let o = obs(&x);
            p.store(vec![(x, t)])?;
            m.store(&o);
        }
        m.check(&p)?;
        c.evals += 1;
    }
    let cnt = m.k;
    c.label(if cnt > 0 { "generalised" } else { "not generalised" });
    c.nontrivial = cnt > 0;
    Ok(())
}

fn intervals(s: &mut Src, c: &mut Ctx) -> R {
    let p = P::new(&[]);
    let table = &p.nar.procNar.expIntervalsTable;
    ensure!(table[..] == INTERVALS[..], "table of intervals {:?}", table);
    for _ in 0..50 {
        let dt = s.range(0, 60);
        let i = nar20_1::NarProc::findMinTableIdx(dt, table);
        ensure!(i == interval_idx(dt), "interval {} is put at index {}", dt, i);
        c.evals += 1;
    }
    c.line("intervals 0..60");
    c.nontrivial = true;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C13",
        vec![
            Part::new("history", "at least one relation was perceived", 2500, 80000, history).fresh(),
            Part::new("long", "some evidence was merged from more than 60 observations", 400, 3000, long).fresh(),
            Part::new("general", "the evidence was generalised", 1500, 60000, general).fresh(),
            Part::new("complete", "the trace contains at least one relation", 800, 30000, complete).fresh(),
            Part::new("intervals", "always", 40, 200, intervals),
        ],
    ));
}
