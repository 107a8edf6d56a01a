#![allow(non_snake_case)]
//! C07 conclusions of two premises
use nar20_1::NarWorkingCycle::{infBinary, inference};
use nar20_1::Tv::Tv;
use vh::rules::*;
use vh::term::*;
use vh::*;

fn tv(s: &mut Src) -> V {
    let f = if s.chance(1, 3) { 1.0 } else { s.unit() };
    v(f, 0.01 + s.unit() * 0.98)
}

/// premises that share components, so that rules apply
pub fn premises(s: &mut Src) -> (T, T) {
    let (a, b) = premises2(s);
    (cap(&a), cap(&b))
}
/// conjunctions have at most four components (the largest the input grammar has)
fn cap(t: &T) -> T {
    t.map(&|x| match x {
        T::Coll(K::Conj, v) if v.len() > 4 => Some(cap(&T::Coll(K::Conj, v[..4].to_vec()))),
        _ => None,
    })
}
fn premises2(s: &mut Src) -> (T, T) {
    let g = G { depth: 1 + s.usize(2), vars: s.bool(), grammar: false, names: 4 };
    let pool: Vec<T> = (0..3).map(|_| gen_term(s, &G { depth: 0, ..g })).collect();
    let big: Vec<T> = (0..2).map(|_| gen_term(s, &g)).collect();
    let pick = |s: &mut Src| if s.chance(1, 4) { big[s.usize(2)].clone() } else { pool[s.usize(3)].clone() };
    match s.usize(5) {
        0 => {
            // syllogisms
            let c1 = *s.pick(&COPS);
            let c2 = if s.chance(3, 4) { c1 } else { *s.pick(&COPS) };
            (st(c1, &pick(s), &pick(s)), st(c2, &pick(s), &pick(s)))
        }
        1 => {
            // property sets
            let k1 = 1 + s.usize(2);
            let k2 = 1 + s.usize(2);
            let x: Vec<T> = (0..k1).map(|_| pick(s)).collect();
            let y: Vec<T> = (0..k2).map(|_| pick(s)).collect();
            let sub = pick(s);
            let sub2 = if s.chance(3, 4) { sub.clone() } else { pick(s) };
            (inh(&sub, &coll(K::SetInt, &x)), inh(&sub2, &coll(if s.chance(3, 4) { K::SetInt } else { K::SetExt }, &y)))
        }
        2 => {
            // implication with a condition that may unify with the other premise
            let k = 1 + s.usize(4);
            let mut conds: Vec<T> = (0..k).map(|_| gen_stmt(s, &G { depth: 1, vars: true, grammar: false, names: 3 })).collect();
            let mut ground = conds[s.usize(k)].clone();
            let sub: Vec<(T, T)> = ground.vars().into_iter().map(|x| (x, gen_term(s, &G { depth: 1, vars: false, grammar: false, names: 3 }))).collect();
            ground = subst_ref(&ground, &sub);
            if s.chance(1, 5) {
                ground = mutate(s, &ground, &g);
            }
            let cond = if k == 1 { conds.remove(0) } else { T::Coll(K::Conj, conds) };
            let concl = gen_term(s, &G { depth: 2, vars: true, grammar: false, names: 3 });
            let c = if s.chance(5, 6) { Cop::Impl } else { *s.pick(&COPS) };
            if s.bool() {
                (st(c, &cond, &concl), ground)
            } else {
                (st(c, &concl, &cond), ground)
            }
        }
        3 => {
            let a = gen_stmt(s, &g);
            (a.clone(), mutate(s, &a, &g))
        }
        _ => (gen_term(s, &g), gen_term(s, &g)),
    }
}

fn table(s: &mut Src, c: &mut Ctx) -> R {
    let (mut a, mut b) = premises(s);
    if s.bool() {
        std::mem::swap(&mut a, &mut b);
    }
    let pa = ['.', '.', '.', '.', '?', '!'][s.usize(6)];
    let pb = ['.', '.', '.', '.', '?', '!'][s.usize(6)];
    let (av, bv) = (tv(s), tv(s));
    let o = |p: char, x: V| if p == '?' { None } else { Some(x) };
    let n = |x: Option<V>| x.map(|y| Tv { f: y.f, c: y.c });
    let (oa, ob) = (o(pa, av), o(pb, bv));
    c.line(&format!("{}{} {:?}  with  {}{} {:?}", a.text(), pa, av, b.text(), pb, bv));
    c.evals = 3;
    let want = binary(&a, pa, oa, &b, pb, ob);
    c.nontrivial = !want.is_empty();
    let mut applied = false;
    let raw = infBinary(&to_nar(&a), punct(pa), &n(oa), &to_nar(&b), punct(pb), &n(ob), &mut applied);
    let got: Vec<Concl> = raw.iter().map(|(t, x, p)| (from_nar(t), v(x.f, x.c), punct_of(*p))).collect();
    set_eq(&format!("premises {}{} {:?} and {}{} {:?}", a.show(), pa, oa, b.show(), pb, ob), &got, &want)?;
    ensure!(applied == !want.is_empty(), "rule application is reported as {} for {} and {}", applied, a.show(), b.show());
    // the order of the premises does not matter
    let raw = infBinary(&to_nar(&b), punct(pb), &n(ob), &to_nar(&a), punct(pa), &n(oa), &mut applied);
    let got2: Vec<Concl> = raw.iter().map(|(t, x, p)| (from_nar(t), v(x.f, x.c), punct_of(*p))).collect();
    set_eq(&format!("premises (swapped) {}{} {:?} and {}{} {:?}", b.show(), pb, ob, a.show(), pa, oa), &got2, &want)
}

/// sentence level: evidence of the conclusion
fn sentences(s: &mut Src, c: &mut Ctx) -> R {
    let (a, b) = premises(s);
    let (av, bv) = (tv(s), tv(s));
    let la = 1 + s.usize(4);
    let lb = 1 + s.usize(4);
    let mut ia: Vec<i64> = (0..la).map(|_| s.range(0, 14)).collect();
    let mut ib: Vec<i64> = (0..lb).map(|_| s.range(0, 14)).collect();
    if s.chance(1, 16) {
        // much evidence; at most one piece of it is shared
        let la = 1 + s.range(0, 119);
        let lb = 1 + s.range(0, 119);
        ia = (0..la).map(|x| 1000 + 2 * x).collect();
        ib = (0..lb).map(|x| 1001 + 2 * x).collect();
        if s.bool() {
            let j = s.usize(ib.len());
            ib[j] = ia[s.usize(ia.len())];
        }
        c.label("much evidence");
    }
    c.line(&format!("{}. {:?} {:?}  with  {}. {:?} {:?}", a.text(), av, ia, b.text(), bv, ib));
    let mut want = binary(&a, '.', Some(av), &b, '.', Some(bv));
    let applied_w = !want.is_empty();
    let ov = overlap(&ia, &ib);
    c.nontrivial = !want.is_empty();
    c.label(if ov { "overlapping evidence" } else { "independent evidence" });
    if ov {
        want.clear();
    }
    let mut applied = false;
    let r = inference(&sentence(&a, '.', av, &ia), &sentence(&b, '.', bv, &ib), &mut applied);
    let got: Vec<Concl> = r.iter().map(|(x, _)| concl_of(x)).collect();
    set_eq(&format!("{} {:?} and {} {:?}", a.show(), ia, b.show(), ib), &got, &want)?;
    ensure!(applied == applied_w, "rule application is reported as {}", applied);
    for (x, _) in &r {
        ensure!(x.stamp.ids == merge(&ia, &ib), "conclusion {} of evidence {:?} and {:?} carries {:?}", from_nar(&x.term).show(), ia, ib, x.stamp.ids);
        ensure!(x.t.is_none(), "an eternal conclusion carries a time");
    }
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C07",
        vec![
            Part::new("table", "at least one conclusion follows", 1600000, 10000000, table),
            Part::new("sentences", "at least one conclusion follows before the evidence check", 800000, 5000000, sentences),
        ],
    ));
}
