#![allow(non_snake_case)]
//! C06 evidence stamps
use nar20_1::NarStamp::{checkOverlap, checkSame, merge as nmerge, newStamp};
use vh::rules::*;
use vh::term::*;
use vh::*;

fn ids(s: &mut Src, range: i64) -> Vec<i64> {
    let len = match s.usize(4) {
        0 => 1,
        1 => 1 + s.usize(6),
        2 => 1 + s.usize(60),
        _ => 55 + s.usize(110),
    };
    let base = s.range(0, range);
    // distinct ids, as every piece of evidence is counted once
    let mut out: Vec<i64> = vec![];
    let step = 1 + s.range(0, 3);
    for i in 0..len {
        out.push(base + i as i64 * step);
    }
    if s.bool() {
        out.reverse();
    }
    if s.chance(1, 3) {
        let k = out.len();
        for _ in 0..k.min(5) {
            let (i, j) = (s.usize(k), s.usize(k));
            out.swap(i, j);
        }
    }
    out
}

fn ops(s: &mut Src, c: &mut Ctx) -> R {
    let a = ids(s, 40);
    let b = if s.chance(1, 5) {
        a.clone()
    } else {
        let r = if s.bool() { 40 } else { 4000 };
        ids(s, r)
    };
    c.line(&format!("{:?} {:?}", a, b));
    c.nontrivial = a.len() > 1 && b.len() > 1;
    c.evals = 5;
    let (sa, sb) = (newStamp(&a), newStamp(&b));
    ensure!(sa.ids == a, "a stamp does not keep its ids: {:?}", a);
    c.label(if overlap(&a, &b) { "overlap" } else { "disjoint" });
    ensure!(checkOverlap(&sa, &sb) == overlap(&a, &b), "overlap of {:?} and {:?} is reported as {}", a, b, checkOverlap(&sa, &sb));
    ensure!(checkOverlap(&sb, &sa) == overlap(&a, &b), "overlap is not symmetric for {:?} and {:?}", a, b);
    ensure!(checkSame(&sa, &sb) == (a == b), "identity of {:?} and {:?} is reported as {}", a, b, checkSame(&sa, &sb));
    let m = nmerge(&sa, &sb).ids;
    ensure!(m == merge(&a, &b), "merging {:?} and {:?} gives {:?}", a, b, m);
    ensure!(m.len() <= 120, "a stamp holds {} ids", m.len());
    if !overlap(&a, &b) {
        let mut u = m.clone();
        u.sort();
        u.dedup();
        ensure!(u.len() == m.len(), "merging independent evidence counts an id twice: {:?} {:?}", a, b);
        if a.len() + b.len() <= 120 {
            ensure!(a.iter().chain(b.iter()).all(|x| m.contains(x)), "merging drops evidence although there is room: {:?} {:?}", a, b);
        }
        // both premises keep influence: the merged stamp overlaps with each of them
        ensure!(overlap(&m, &a) && overlap(&m, &b), "merged evidence no longer overlaps with a premise");
    }
    Ok(())
}

/// pools of evidence merged along a random history never count a piece of evidence twice
fn history(s: &mut Src, c: &mut Ctx) -> R {
    let k = 2 + s.usize(20);
    let mut pool: Vec<Vec<i64>> = (0..k).map(|i| vec![i as i64]).collect();
    let steps = 1 + s.usize(40);
    let mut merges = 0;
    c.line(&format!("{} inputs, {} steps", k, steps));
    for _ in 0..steps {
        let (i, j) = (s.usize(pool.len()), s.usize(pool.len()));
        let (a, b) = (newStamp(&pool[i]), newStamp(&pool[j]));
        if !checkOverlap(&a, &b) {
            let m = nmerge(&a, &b).ids;
            let mut u = m.clone();
            u.sort();
            let mut w: Vec<i64> = pool[i].iter().chain(pool[j].iter()).cloned().collect();
            w.sort();
            ensure!(u == w, "pooling {:?} and {:?} gives {:?}", pool[i], pool[j], m);
            pool.push(m);
            merges += 1;
        } else {
            ensure!(overlap(&pool[i], &pool[j]), "independent evidence {:?} {:?} reported as overlapping", pool[i], pool[j]);
        }
        c.line(&format!("{} {}", i, j));
    }
    c.nontrivial = merges > 2;
    Ok(())
}

/// everything told has evidence of its own, however much was told before
fn told(s: &mut Src, c: &mut Ctx) -> R {
    let mut p = vh::proc::P::new(&vh::pscen::OPS);
    let k = if s.chance(1, 12) { 900 + s.usize(if c.thorough { 6000 } else { 1800 }) } else { 2 + s.usize(60) };
    let rate = 1 + s.usize(6);
    let gap = s.usize(4);
    let mut ts: Vec<(T, bool)> = vec![];
    for i in 0..k {
        for _ in 0..s.usize(gap + 1) {
            // lines which leave nothing in memory
            let l = *s.pick(&["x. :|:", "x! :|:", "no narsese", "<q --> r>?", "<q --> r>!"]);
            nar20_1::Nar::inputN(&mut p.nar, &l.to_string());
        }
        let temporal = s.below(rate as u64 * 4) == 1;
        let t = if temporal { st(Cop::Pred, &coll(K::Seq, &[n(&format!("a{}", i)), n("^go")]), &n(&format!("b{}", i))) } else { inh(&n(&format!("a{}", i)), &n(&format!("b{}", i))) };
        ensure!(nar20_1::Nar::inputN(&mut p.nar, &format!("{}.", t.text())), "{} is refused", t.text());
        ts.push((t, temporal));
        if i % 64 == 63 {
            p.nar.mem.read().shared.write().judgementTasks.clear();
            p.nar.mem.read().shared.read().questionTasks.write().clear();
        }
    }
    c.line(&format!("{} judgements, one in {} temporal", k, rate * 4));
    let decl = vh::nar::snap_decl(&p.nar);
    let evi = p.evidence_mem();
    let mut seen: std::collections::BTreeMap<i64, T> = Default::default();
    let mut found = 0;
    for (t, temporal) in &ts {
        let stamps: Vec<Vec<i64>> = if *temporal {
            evi.iter().filter(|(_, _, b)| b.term == *t).map(|(_, _, b)| b.stamp.clone()).collect()
        } else {
            decl.get(t).map(|x| x.0.iter().filter(|b| b.term == *t).map(|b| b.stamp.clone()).collect()).unwrap_or_default()
        };
        for x in &stamps {
            ensure!(x.len() == 1 && *x == stamps[0], "{} was told once and rests on {:?}", t.show(), stamps);
        }
        if let Some(x) = stamps.first() {
            found += 1;
            if let Some(o) = seen.insert(x[0], t.clone()) {
                return Err(format!("{} and {} have the same evidence {}", o.show(), t.show(), x[0]));
            }
        }
    }
    c.nontrivial = found > 10;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C06",
        vec![
            Part::new("ops", "both stamps hold several ids", 2400000, 5000000, ops),
            Part::new("told", "more than ten judgements are held", 400, 4000, told),
            Part::new("history", "more than two poolings happened", 400000, 1000000, history),
        ],
    ));
}
