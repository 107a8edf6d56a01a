#![allow(non_snake_case)]
//! C08 conclusions of one premise
use nar20_1::NarWorkingCycle::{infSinglePremise, infSinglePremise2};
use nar20_1::Tv::Tv;
use vh::rules::*;
use vh::term::*;
use vh::*;

/// intensional intersections have at most three components (the input grammar has two)
fn cap(t: &T) -> T {
    t.map(&|x| match x {
        T::Coll(K::IntInt, v) if v.len() > 3 => Some(cap(&T::Coll(K::IntInt, v[..3].to_vec()))),
        _ => None,
    })
}

fn premise(s: &mut Src) -> T {
    let g = G { depth: 1 + s.usize(2), vars: s.bool(), grammar: false, names: 5 };
    let x = gen_term(s, &g);
    let y = gen_term(s, &g);
    let k = 1 + s.usize(4);
    let mut arr: Vec<T> = (0..k).map(|_| gen_term(s, &G { depth: 1, ..g })).collect();
    let t = match s.usize(8) {
        0 => {
            arr.truncate(1 + s.usize(3));
            inh(&coll(K::IntInt, &arr), &y)
        }
        1 => {
            arr.truncate(1 + s.usize(3));
            inh(&x, &coll(K::IntInt, &arr))
        }
        2 => {
            if s.chance(2, 3) {
                arr = vec![x.clone(), arr[0].clone()];
            }
            inh(&coll(K::Prod, &arr), &y)
        }
        3 => {
            if s.chance(2, 3) {
                arr.truncate(1);
            }
            inh(&x, &T::Img(Box::new(y), s.usize(3), arr))
        }
        4 => {
            let k1 = *s.pick(&[K::SetInt, K::SetExt]);
            let k2 = if s.chance(3, 4) { k1 } else { *s.pick(&[K::SetInt, K::SetExt]) };
            let l = if s.chance(3, 4) { 1 } else { arr.len() };
            arr.truncate(l);
            st(if s.chance(4, 5) { Cop::Sim } else { Cop::Inh }, &coll(k1, &arr), &coll(k2, &[x]))
        }
        5 => st(if s.chance(4, 5) { Cop::Pred } else { Cop::Impl }, &x, &coll(K::Par, &arr)),
        6 => T::Neg(Box::new(x)),
        _ => gen_term(s, &g),
    };
    cap(&t)
}

fn table(s: &mut Src, c: &mut Ctx) -> R {
    let a = premise(s);
    let p = *s.pick(&['.', '.', '.', '!']);
    let x = v(if s.bool() { 1.0 } else { s.unit() }, 0.01 + 0.98 * s.unit());
    c.line(&format!("{}{} {:?}", a.text(), p, x));
    let want = single(&a, p, Some(x));
    c.nontrivial = !want.is_empty();
    c.evals = 2;
    let raw = infSinglePremise(&to_nar(&a), punct(p), &Some(Tv { f: x.f, c: x.c }));
    let got: Vec<Concl> = raw.iter().map(|(t, y, q, _)| (from_nar(t), v(y.f, y.c), punct_of(*q))).collect();
    set_eq(&format!("premise {}{} {:?}", a.show(), p, x), &got, &want)?;
    for (_, _, _, bias) in &raw {
        ensure!(*bias > 0.0 && *bias <= 1.0 + 1e-9, "attention factor {} of a conclusion of {} is outside (0,1]", bias, a.show());
    }
    // sentence level: a single-premise conclusion rests on exactly the evidence of its premise
    let k = 1 + s.usize(5);
    let ids: Vec<i64> = (0..k).map(|i| i as i64 * 7 + s.range(0, 6)).collect();
    let r = infSinglePremise2(&sentence(&a, p, x, &ids));
    let got: Vec<Concl> = r.iter().map(|(y, _)| concl_of(y)).collect();
    set_eq(&format!("sentence {}{} {:?}", a.show(), p, x), &got, &want)?;
    for (y, _) in &r {
        ensure!(y.stamp.ids == ids, "conclusion {} of evidence {:?} carries {:?}", from_nar(&y.term).show(), ids, y.stamp.ids);
        ensure!(y.t.is_none(), "an eternal conclusion carries a time");
    }
    Ok(())
}

/// converting a relation to its image and back gives the relation back
fn images(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: s.usize(3), vars: s.bool(), grammar: false, names: 6 };
    let (x, y, r) = (gen_term(s, &g), gen_term(s, &g), gen_term(s, &G { depth: 0, ..g }));
    let a = inh(&coll(K::Prod, &[x, y]), &r);
    c.line(&a.text());
    c.nontrivial = true;
    let t = Some(Tv { f: 0.7, c: 0.8 });
    let one = infSinglePremise(&to_nar(&a), punct('.'), &t);
    let mut back = 0;
    for (i, tv, _, _) in &one {
        if let T::Stmt(Cop::Inh, _, p) = from_nar(i) {
            if let T::Img(..) = *p {
                let two = infSinglePremise(i, punct('.'), &Some(tv.clone()));
                if two.iter().any(|(u, w, _, _)| from_nar(u) == a && w.f == 0.7 && w.c == 0.8) {
                    back += 1;
                } else {
                    return Err(format!("{} becomes {} but that does not lead back", a.show(), from_nar(i).show()));
                }
            }
        }
    }
    ensure!(back >= 2, "{} has {} image forms that lead back, expected 2", a.show(), back);
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C08",
        vec![
            Part::new("table", "at least one conclusion follows", 2400000, 8000000, table),
            Part::new("images", "always", 240000, 1000000, images),
        ],
    ));
}
