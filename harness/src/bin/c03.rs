#![allow(non_snake_case)]
//! C03 term identity, structure and display
use nar20_1::Term as NT;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vh::term::*;
use vh::*;

fn h<X: Hash>(x: &X) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn identity(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(4), vars: true, grammar: false, names: 6 };
    let a = gen_term(s, &g);
    // second term: equal copy, one-place mutation, or independent
    let (b, kind) = match s.usize(3) {
        0 => (mutate(s, &a, &g), "near-miss"),
        1 => (a.clone(), "same"),
        _ => (gen_term(s, &g), "independent"),
    };
    c.line(&format!("a = {}   b = {}", a.text(), b.text()));
    c.label(kind);
    c.nontrivial = a.depth() > 1;
    let (na, nb) = (to_nar(&a), to_nar(&b));
    let eq = a == b;
    c.evals = 9;
    ensure!(NT::checkEqTerm(&na, &nb) == eq, "structural equality says {} for {} and {}", !eq, a.show(), b.show());
    ensure!(NT::checkEqTerm(&nb, &na) == eq, "structural equality is not symmetric for {} and {}", a.show(), b.show());
    ensure!((na == nb) == eq, "== says {} for {} and {}", !eq, a.show(), b.show());
    if eq {
        ensure!(h(&na) == h(&nb), "equal terms hash differently: {}", a.show());
    }
    let cl = na.clone();
    ensure!(from_nar(&cl) == a, "a copy of {} is {}", a.show(), from_nar(&cl).show());
    ensure!(h(&cl) == h(&na), "a copy of {} hashes differently", a.show());
    Ok(())
}

fn structure(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(4), vars: true, grammar: false, names: 5 };
    let a = gen_term(s, &g);
    c.line(&a.text());
    c.nontrivial = a.depth() > 1;
    c.evals = 5;
    let na = to_nar(&a);
    let mut want = a.subterms();
    want.sort();
    let mut got: Vec<T> = NT::retSubterms(&na).iter().map(from_nar).collect();
    got.sort();
    ensure!(got == want, "terms inside {}: got {:?}", a.show(), got.iter().map(|t| t.show()).collect::<Vec<_>>());
    let mut uw = want.clone();
    uw.dedup();
    let mut ug: Vec<T> = NT::retUniqueSubterms(&na).iter().map(from_nar).collect();
    ug.sort();
    ensure!(ug == uw, "distinct terms inside {}: got {:?}", a.show(), ug.iter().map(|t| t.show()).collect::<Vec<_>>());
    ensure!(NT::calcComplexity(&na) == a.complexity(), "complexity of {} is {} expected {}", a.show(), NT::calcComplexity(&na), a.complexity());
    // occurrence count: outermost occurrences of the searched term
    let q = match s.usize(3) {
        0 => {
            let st = a.subterms();
            st[s.usize(st.len())].clone()
        }
        1 => n("a"),
        _ => gen_term(s, &g),
    };
    fn occ(t: &T, q: &T) -> i64 {
        if t == q {
            1
        } else {
            t.children().iter().map(|x| occ(x, q)).sum()
        }
    }
    let got = NT::count_occurence_subterms(&na, &to_nar(&q));
    ensure!(got == occ(&a, &q), "occurrences of {} in {}: got {} expected {}", q.show(), a.show(), got, occ(&a, &q));
    Ok(())
}

fn display(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(4), vars: true, grammar: false, names: 8 };
    let a = gen_term(s, &g);
    let b = if s.bool() { mutate(s, &a, &g) } else { gen_term(s, &g) };
    c.line(&format!("{} | {}", a.text(), b.text()));
    c.nontrivial = a.depth() > 1;
    c.evals = 2;
    let (sa, sb) = (NT::convTermToStr(&to_nar(&a)), NT::convTermToStr(&to_nar(&b)));
    ensure!(sa == a.show(), "display of {:?} is {}", a, sa);
    ensure!(sb == b.show(), "display of {:?} is {}", b, sb);
    if a != b && a.show() != b.show() {
        ensure!(sa != sb, "two different terms share the display form {}", sa);
    }
    Ok(())
}

/// what is displayed for a term of the input grammar is accepted again (after removing the display's blanks)
fn roundtrip(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: 1 + s.usize(5), vars: true, grammar: true, names: 12 };
    let a = gen_term(s, &g);
    c.nontrivial = a.depth() > 1;
    let shown = NT::convTermToStr(&to_nar(&a));
    c.line(&shown);
    let compact = shown.replace("( ", "(").replace(" )", ")").replace(" , ", ",").replace(" && ", "&&").replace(" & ", "&").replace(" | ", "|").replace("(! ", "(!");
    let p = nar20_1::NarseseParser::parseNarsese(&format!("{}.", compact));
    ensure!(p.is_some(), "displayed term {} is not accepted as input", compact);
    let t = from_nar(&p.unwrap().0);
    ensure!(t == a, "displayed term {} is read back as {}", compact, t.show());
    Ok(())
}

fn ops(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: s.usize(3), vars: true, grammar: false, names: 12 };
    let k = 1 + s.tail(4, 20);
    let args: Vec<T> = (0..k).map(|_| gen_term(s, &g)).collect();
    let name = gen_name(s, &g);
    c.line(&format!("{} {:?}", name, args.iter().map(|t| t.show()).collect::<Vec<_>>()));
    c.nontrivial = k > 1;
    let e = nar20_1::TermUtils::encodeOp(&args.iter().map(to_nar).collect(), &name);
    ensure!(from_nar(&e) == op(&args, &name), "call of {} is built as {}", name, from_nar(&e).show());
    match nar20_1::TermUtils::decodeOp(&e) {
        Some((a2, n2)) => {
            ensure!(n2 == name && a2.iter().map(from_nar).collect::<Vec<_>>() == args, "call {} decodes to {} {:?}", from_nar(&e).show(), n2, a2.iter().map(|t| from_nar(t).show()).collect::<Vec<_>>());
        }
        None => return Err(format!("call {} is not recognised as a call", from_nar(&e).show())),
    }
    // near misses are not calls
    let m = mutate(s, &op(&args, &name), &g);
    fn is_op(t: &T) -> Option<(Vec<T>, String)> {
        if let T::Stmt(Cop::Inh, a, b) = t {
            if let (T::Coll(K::SetExt, v), T::Name(nm)) = (&**a, &**b) {
                if let (1, T::Coll(K::Prod, w)) = (v.len(), &v[0]) {
                    if !w.is_empty() {
                        return Some((w.clone(), nm.clone()));
                    }
                }
            }
        }
        None
    }
    let got = nar20_1::TermUtils::decodeOp(&to_nar(&m)).map(|(a, nm)| (a.iter().map(from_nar).collect::<Vec<_>>(), nm));
    ensure!(got == is_op(&m), "{} decodes as a call to {:?}", m.show(), got);
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C03",
        vec![
            Part::new("identity", "first term is compound", 1600000, 10000000, identity),
            Part::new("structure", "term is compound", 800000, 5000000, structure),
            Part::new("display", "first term is compound", 800000, 5000000, display),
            Part::new("roundtrip", "term is compound", 800000, 5000000, roundtrip),
            Part::new("ops", "call has at least two arguments", 400000, 2000000, ops),
        ],
    ));
}
