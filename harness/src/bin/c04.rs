#![allow(non_snake_case)]
//! C04 unification and substitution
use nar20_1::NarUnify::{unify, unifySubst, Asgnment};
use vh::term::*;
use vh::*;

fn real(a: &T, b: &T) -> Option<Vec<(T, T)>> {
    unify(&to_nar(a), &to_nar(b)).map(|v| v.iter().map(|x| (from_nar(&x.var), from_nar(&x.val))).collect())
}

fn compare(a: &T, b: &T) -> R {
    let got = real(a, b);
    let mut asg = vec![];
    let want = if unify_ref(a, b, &mut asg) { Some(asg) } else { None };
    match (&got, &want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => {
            let mut g2 = g.clone();
            let mut w2 = w.clone();
            g2.sort();
            w2.sort();
            ensure!(g2 == w2, "unifying {} with {} assigns {:?} expected {:?}", a.show(), b.show(), g, w);
            // law: substituting the answer gives the target back
            let asgn: Vec<Asgnment> = g.iter().map(|(k, v)| Asgnment { var: to_nar(k), val: to_nar(v) }).collect();
            let r = from_nar(&unifySubst(&to_nar(a), &asgn));
            ensure!(r == *b, "{} unified with {} but substitution gives {}", a.show(), b.show(), r.show());
            Ok(())
        }
        (Some(_), None) => Err(format!("{} and {} have no unifier but one is reported", a.show(), b.show())),
        (None, Some(_)) => Err(format!("{} and {} unify but no unifier is reported", a.show(), b.show())),
    }
}

/// replace some subterms of a ground term by variables (the same subterm usually gets the same variable)
fn abstracted(s: &mut Src, b: &T, consistent: bool) -> T {
    let sub = b.subterms();
    let k = s.usize(4);
    let mut a = b.clone();
    for i in 0..k {
        let x = sub[s.usize(sub.len())].clone();
        if x == *b && s.chance(2, 3) {
            continue;
        }
        let v = T::Var(*s.pick(&['$', '#', '?']), format!("{}", if consistent { i } else { s.usize(2) }));
        a = a.map(&|t| if *t == x { Some(v.clone()) } else { None });
    }
    a
}

fn pattern(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(4), vars: s.chance(1, 4), grammar: false, names: 4 };
    let b = gen_term(s, &g);
    let cons = s.bool();
    let a = abstracted(s, &b, cons);
    let b2 = if s.chance(1, 3) { mutate(s, &b, &g) } else { b };
    c.line(&format!("{} ~ {}", a.text(), b2.text()));
    c.nontrivial = a.has_var() && a.depth() > 1;
    c.label(if unify_ref(&a, &b2, &mut vec![]) { "unifies" } else { "no unifier" });
    c.evals = 2;
    compare(&a, &b2)
}
/// many variables, each at several places, in compounds of any kind
fn wide(s: &mut Src, c: &mut Ctx) -> R {
    let k = 3 + s.usize(14);
    let vars: Vec<T> = (0..k).map(|i| T::Var(*s.pick(&['$', '#', '?']), format!("v{}", i))).collect();
    let vals: Vec<T> = (0..k)
        .map(|_| {
            let (d, vv) = (s.usize(2), s.chance(1, 8));
            gen_term(s, &G { depth: d, vars: vv, grammar: false, names: 6 })
        })
        .collect();
    let mut a: Vec<T> = vars.clone();
    for _ in 0..s.usize(k) {
        a.push(vars[s.usize(k)].clone());
    }
    for i in (1..a.len()).rev() {
        let j = s.usize(i + 1);
        a.swap(i, j);
    }
    // combine neighbours until one term is left
    while a.len() > 1 {
        let m = 2 + s.usize(a.len().min(6) - 1);
        let i = s.usize(a.len() - m + 1);
        let part: Vec<T> = a.drain(i..i + m).collect();
        let x = if m == 2 && s.bool() {
            st(*s.pick(&[Cop::Inh, Cop::Sim, Cop::Impl, Cop::Pred, Cop::Equiv]), &part[0], &part[1])
        } else {
            coll(*s.pick(&[K::Prod, K::Seq, K::Conj, K::Par, K::SetExt, K::SetInt, K::ExtInt, K::IntInt]), &part)
        };
        a.insert(i, x);
    }
    let a = a.pop().unwrap();
    let asg: Vec<(T, T)> = vars.iter().cloned().zip(vals).collect();
    let b0 = subst_ref(&a, &asg);
    let g = G { depth: 1, vars: false, grammar: false, names: 6 };
    let b = match s.usize(3) {
        0 => b0,
        1 => mutate(s, &b0, &g),
        _ => {
            // one occurrence of a variable has another value
            let mut left = s.usize(k * 2);
            let other = gen_term(s, &g);
            let w = vars[s.usize(k)].clone();
            let mut a2 = a.clone();
            replace_nth(&mut a2, &w, &mut left, &other);
            subst_ref(&a2, &asg)
        }
    };
    c.line(&format!("{} ~ {}", a.text(), b.text()));
    c.nontrivial = k > 4;
    c.label(if unify_ref(&a, &b, &mut vec![]) { "unifies" } else { "no unifier" });
    c.evals = 2;
    compare(&a, &b)
}
/// the n-th occurrence (counting from 0, modulo two) of x becomes y
fn replace_nth(t: &mut T, x: &T, left: &mut usize, y: &T) {
    let done = std::cell::Cell::new(false);
    let l = std::cell::Cell::new(*left % 2);
    *t = t.map(&|z| {
        if *z == *x && !done.get() {
            if l.get() == 0 {
                done.set(true);
                return Some(y.clone());
            }
            l.set(l.get() - 1);
        }
        None
    });
    *left = l.get();
}
fn arbitrary(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(3), vars: true, grammar: false, names: 2 };
    let a = gen_term(s, &g);
    let vb = s.bool();
    let b = if s.bool() { gen_term(s, &G { vars: vb, ..g }) } else { mutate(s, &a, &g) };
    c.line(&format!("{} ~ {}", a.text(), b.text()));
    c.nontrivial = a.depth() > 1 && b.depth() > 1;
    c.label(if unify_ref(&a, &b, &mut vec![]) { "unifies" } else { "no unifier" });
    c.evals = 2;
    compare(&a, &b)
}
fn substitution(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(4), vars: true, grammar: false, names: 4 };
    let a = gen_term(s, &g);
    let mut asg: Vec<(T, T)> = vec![];
    for v in a.vars() {
        if s.chance(2, 3) {
            // values may themselves contain (other) variables: substitution is simultaneous
            let (d, vv) = (s.usize(3), s.bool());
            asg.push((v, gen_term(s, &G { depth: d, vars: vv, ..g })));
        }
    }
    if s.bool() {
        asg.push((T::Var('$', "unused".into()), n("q")));
    }
    if s.bool() {
        asg.reverse();
    }
    c.line(&format!("{} [{}]", a.text(), asg.iter().map(|(k, v)| format!("{}:={}", k.text(), v.text())).collect::<Vec<_>>().join(" ")));
    c.nontrivial = asg.len() > 0 && a.depth() > 1;
    let asgn: Vec<Asgnment> = asg.iter().map(|(k, v)| Asgnment { var: to_nar(k), val: to_nar(v) }).collect();
    let got = from_nar(&unifySubst(&to_nar(&a), &asgn));
    let want = subst_ref(&a, &asg);
    ensure!(got == want, "substitution into {} gives {} expected {}", a.show(), got.show(), want.show());
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C04",
        vec![
            Part::new("pattern", "compound pattern with at least one variable", 1200000, 8000000, pattern),
            Part::new("wide", "more than four variables", 400000, 2000000, wide),
            Part::new("arbitrary", "both terms compound", 800000, 6000000, arbitrary),
            Part::new("substitution", "compound term and at least one assignment", 800000, 4000000, substitution),
        ],
    ));
}
