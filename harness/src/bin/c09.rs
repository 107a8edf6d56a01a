#![allow(non_snake_case)]
//! C09 belief storage and revision
use nar20_1::NarMem;
use nar20_1::NarWorkingCycle::*;
use std::collections::HashMap;
use std::sync::Arc;
use vh::nar::*;
use vh::rules::*;
use vh::term::*;
use vh::*;

struct In {
    term: T,
    v: V,
}

fn terms(s: &mut Src) -> Vec<T> {
    let g = G { depth: 1 + s.usize(2), vars: false, grammar: false, names: 4 };
    let k = 1 + s.usize(5);
    (0..k).map(|_| if s.chance(3, 4) { gen_stmt(s, &g) } else { gen_term(s, &g) }).filter(|t| t.complexity() < 30).collect()
}

/// truth of the pooled evidence `ids`
fn pooled(inputs: &HashMap<i64, In>, ids: &[i64]) -> V {
    let mut w = 0.0;
    let mut wp = 0.0;
    for i in ids {
        let x = &inputs[i].v;
        let k = x.c / (1.0 - x.c);
        w += k;
        wp += k * x.f;
    }
    if w > 0.0 {
        v(wp / w, w / (w + 1.0))
    } else {
        v(0.0, 0.0)
    }
}
fn near(a: V, b: V) -> bool {
    (a.f - b.f).abs() < 1e-6 && (a.c - b.c).abs() < 1e-6
}

fn check_tables(sn: &Snap, inputs: &HashMap<i64, In>, nb: usize) -> R {
    for (name, (exp, usage)) in sn {
        for (which, tab) in [("expectation", exp), ("usage", usage)].iter() {
            ensure!(tab.len() <= nb, "concept {} holds {} beliefs by {}, the limit is {}", name.show(), tab.len(), which, nb);
            for b in tab.iter() {
                ensure!(b.term.subterms().contains(name), "belief {} is filed under {} which does not occur in it", b.show(), name.show());
                ensure!(b.punct == '.', "a belief is not a judgement: {}", b.show());
                let mut d = b.stamp.clone();
                d.sort();
                d.dedup();
                ensure!(d.len() == b.stamp.len(), "belief {} counts a piece of evidence twice", b.show());
                for i in &b.stamp {
                    ensure!(inputs.get(i).map_or(false, |x| x.term == b.term), "belief {} rests on evidence {} that was not about it", b.show(), i);
                }
                ensure!(tab.iter().filter(|x| x.term == b.term && overlap(&x.stamp, &b.stamp)).count() == 1, "belief {} is filed twice by {} under {}", b.show(), which, name.show());
                let want = pooled(inputs, &b.stamp);
                ensure!(near(b.v, want), "belief {} should have the truth {{{} {}}} of its pooled evidence", b.show(), want.f, want.c);
            }
        }
    }
    Ok(())
}

/// one step of the expectation table as a relation: `pre` plus sentence `x` may become `post`
fn legal_store(pre: &[B], post: &[B], x: &B, nb: usize) -> R {
    let exists = pre.iter().any(|b| b.term == x.term && overlap(&b.stamp, &x.stamp));
    let mut want: Vec<B> = pre.to_vec();
    if !exists {
        want.push(x.clone());
    }
    // post is a sub-multiset of want
    let mut rest = want.clone();
    for p in post {
        match rest.iter().position(|b| b.same(p)) {
            Some(i) => {
                rest.remove(i);
            }
            None => return Err(format!("belief {} appeared when storing {}", p.show(), x.show())),
        }
    }
    if exists {
        ensure!(rest.is_empty(), "belief {} vanished when storing {} which adds nothing", rest[0].show(), x.show());
    } else {
        ensure!(post.len() == want.len().min(nb), "{} beliefs are kept of {} with a limit of {}", post.len(), want.len(), nb);
        let least = post.iter().map(|b| expect(b.v)).fold(f64::INFINITY, f64::min);
        for r in &rest {
            ensure!(expect(r.v) <= least + 1e-9, "belief {} was forgotten although a kept one has lower expectation {}", r.show(), least);
        }
    }
    Ok(())
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    // big: tables of up to two dozen beliefs, many statements about the same few things
    let big = s.chance(1, 8);
    let nb = if big { 8 + s.usize(17) } else { 1 + s.usize(7) };
    let mem = createMem2(64, nb);
    let mut pool = terms(s);
    if big {
        let g = G { depth: 1, vars: false, grammar: false, names: 16 };
        let hub = n("hub");
        let k = 4 + s.usize(16);
        for i in 0..k {
            let o = if s.bool() { n(&format!("t{}", i)) } else { gen_term(s, &g) };
            let cop = *s.pick(&[Cop::Inh, Cop::Sim, Cop::Impl]);
            let t = if s.bool() { st(cop, &hub, &o) } else { st(cop, &o, &hub) };
            if !pool.contains(&t) {
                pool.push(t);
            }
        }
    }
    if pool.is_empty() {
        return Ok(());
    }
    let steps = if big { 10 + s.usize(60) } else { 2 + s.usize(25) };
    let mut inputs: HashMap<i64, In> = HashMap::new();
    let mut revs = 0;
    let mut forgot = 0;
    let mut sent: Vec<(T, V, i64)> = vec![];
    c.line(&format!("limit {}", nb));
    for k in 0..steps {
        let repeat = !sent.is_empty() && s.chance(1, 8);
        let (t, x, id) = if repeat {
            sent[s.usize(sent.len())].clone()
        } else {
            let t = pool[s.usize(pool.len())].clone();
            let x = v(if s.bool() { 1.0 } else { s.unit() }, 0.05 + 0.9 * s.unit());
            (t, x, k as i64)
        };
        if big {
            c.label("large tables");
        }
        inputs.insert(id, In { term: t.clone(), v: x });
        if !repeat {
            sent.push((t.clone(), x, id));
        }
        c.line(&format!("{}. {{{:.4} {:.4}}} #{}", t.text(), x.f, x.c, id));
        let sh = Arc::clone(&mem.read().shared);
        let pre = snap(&sh.read().mem.read());
        let sen = sentence(&t, '.', x, &[id]);
        memAddTask(Arc::clone(&sh), &sen, true, 64, nb, 1.0, k as i64);
        let post = snap(&sh.read().mem.read());
        check_tables(&post, &inputs, nb)?;
        let subs = t.subterms();
        // concepts that have nothing to do with the sentence stay as they were
        for (name, tabs) in &pre {
            if !subs.contains(name) {
                ensure!(post.get(name) == Some(tabs), "concept {} changed when {} was added", name.show(), t.show());
            }
            ensure!(post.contains_key(name), "concept {} vanished when {} was added", name.show(), t.show());
        }
        for name in post.keys() {
            ensure!(pre.contains_key(name) || subs.contains(name), "concept {} appeared when {} was added", name.show(), t.show());
        }
        let xb = B { term: t.clone(), v: x, stamp: vec![id], cnt: None, exp_dt: None, punct: '.' };
        let can_revise = |tab: &Vec<B>| tab.iter().any(|b| b.term == t && !b.stamp.contains(&id));
        let any = subs.iter().any(|n| pre.get(n).map_or(false, |p| can_revise(&p.0) || can_revise(&p.1)));
        if any {
            revs += 1;
            c.label("revision");
        }
        for name in &subs {
            let empty = (vec![], vec![]);
            let p = pre.get(name).unwrap_or(&empty);
            let q = match post.get(name) {
                Some(q) => q,
                None => {
                    ensure!(any, "{} was added but there is no concept {}", t.show(), name.show());
                    continue;
                }
            };
            for (a, b, which) in [(&p.0, &q.0, 0), (&p.1, &q.1, 1)].iter() {
                if any {
                    // pooled where possible, otherwise unchanged
                    let mut rest: Vec<B> = (*b).clone();
                    let mut missing = vec![];
                    for old in a.iter() {
                        match rest.iter().position(|y| y.same(old)) {
                            Some(i) => {
                                rest.remove(i);
                            }
                            None => missing.push(old.clone()),
                        }
                    }
                    ensure!(missing.len() == rest.len(), "revision with {} changed the number of beliefs of {}", xb.show(), name.show());
                    for m in &missing {
                        ensure!(m.term == t && !m.stamp.contains(&id), "belief {} was replaced by revision with {}", m.show(), xb.show());
                        let ms = merge(&m.stamp, &[id]);
                        ensure!(rest.iter().any(|r| r.term == t && { let mut u = r.stamp.clone(); u.sort(); let mut w = ms.clone(); w.sort(); u == w }), "belief {} and input {} were not pooled", m.show(), xb.show());
                    }
                    ensure!(!can_revise(a) || !missing.is_empty(), "{} has belief about {} that could be revised with new evidence {} but is not", name.show(), t.show(), id);
                } else if *which == 0 {
                    // a term can occur several times in a sentence: storing is idempotent
                    legal_store(a, b, &xb, nb)?;
                    if b.len() == nb && a.len() == nb {
                        forgot += 1;
                    }
                } else {
                    ensure!(b.len() <= nb && b.iter().all(|y| y.same(&xb) || a.iter().any(|o| o.same(y))), "usage table of {} gained something else than {}", name.show(), xb.show());
                    ensure!(b.len() >= a.len(), "usage table of {} shrank", name.show());
                }
            }
        }
    }
    if forgot > 0 {
        c.label("forgetting");
    }
    c.evals = steps as u64;
    c.nontrivial = revs > 0;
    Ok(())
}

/// forgetting of concepts: the number is limited, the strongest survive, survivors are unchanged
fn limit(s: &mut Src, c: &mut Ctx) -> R {
    let mut mem = NarMem::make();
    let k = 1 + s.usize(20);
    let nb = 1 + s.usize(5);
    for i in 0..k {
        let g = G { depth: 1 + s.usize(2), vars: false, grammar: false, names: 8 };
        let t = gen_stmt(s, &g);
        let x = v(s.unit(), 0.05 + 0.9 * s.unit());
        c.line(&format!("{}. {{{:.4} {:.4}}}", t.text(), x.f, x.c));
        NarMem::storeInConcepts(&mut mem, &sentence(&t, '.', x, &[i as i64]), nb, 0);
    }
    let pre = snap(&mem);
    let lim = s.usize(pre.len() + 3);
    c.line(&format!("keep {} of {}", lim, pre.len()));
    c.nontrivial = lim < pre.len() && lim > 0;
    NarMem::limitMemory(&mut mem, lim);
    let post = snap(&mem);
    ensure!(post.len() == pre.len().min(lim), "{} concepts are kept of {} with a limit of {}", post.len(), pre.len(), lim);
    let rate = |x: &(Vec<B>, Vec<B>)| x.0.iter().map(|b| expect(b.v)).fold(0.0, f64::max);
    let least = post.values().map(rate).fold(f64::INFINITY, f64::min);
    for (name, x) in &pre {
        match post.get(name) {
            Some(y) => ensure!(x == y, "concept {} was changed by forgetting others", name.show()),
            None => ensure!(rate(x) <= least + 1e-9, "concept {} (rating {}) was forgotten before one with rating {}", name.show(), rate(x), least),
        }
    }
    Ok(())
}

/// only judgements within the complexity limit become beliefs
fn admission(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(5), vars: s.bool(), grammar: false, names: 6 };
    let mut t = gen_term(s, &g);
    let lim = 1 + s.range(0, 70);
    // grow it to get near the limit
    if s.bool() {
        let want = (lim + s.range(0, 2) - 1).max(1) as usize;
        let parts: Vec<T> = (0..want).map(|i| n(["a", "b", "c"][i % 3])).collect();
        t = coll(K::Prod, &parts);
    }
    let p = *s.pick(&['.', '.', '?', '!']);
    c.line(&format!("{}{} limit {}", t.text(), p, lim));
    let mem = createMem2(lim, 20);
    let sh = Arc::clone(&mem.read().shared);
    memAddTask(Arc::clone(&sh), &sentence(&t, p, v(0.8, 0.8), &[1]), s.bool(), lim, 20, 1.0, 0);
    let sn = snap(&sh.read().mem.read());
    let ok = t.complexity() as i64 <= lim;
    c.label(if ok { "within" } else { "beyond" });
    c.nontrivial = p == '.';
    let nt = sh.read().judgementTasks.len();
    let nq = sh.read().questionTasks.read().len();
    if p == '.' && ok {
        ensure!(nt == 1 && nq == 0, "an accepted judgement makes {} tasks", nt);
        for x in t.subterms() {
            ensure!(sn.get(&x).map_or(false, |y| y.0.len() == 1 && y.1.len() == 1), "accepted judgement {} is not found under {}", t.show(), x.show());
        }
        let tt = belief(&sh.read().judgementTasks[0].read().sentence);
        ensure!(tt.term == t, "task is about {}", tt.show());
    } else {
        ensure!(sn.is_empty() && nt == 0, "{}{} of complexity {} was stored as a belief (limit {})", t.show(), p, t.complexity(), lim);
        ensure!(nq == if p == '?' && ok { 1 } else { 0 }, "{} question tasks for {}{}", nq, t.show(), p);
    }
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C09",
        vec![
            Part::new("history", "at least one revision happened", 36000, 400000, history),
            Part::new("limit", "some but not all concepts have to go", 45000, 400000, limit),
            Part::new("admission", "judgement", 45000, 300000, admission),
        ],
    ));
}
